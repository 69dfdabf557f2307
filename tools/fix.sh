#!/bin/bash
# fix.sh PROPERTY "message" "what failed": test, commit the working-tree repair in /repo, and record it in known_findings.json
set -e
bash /opt/vp/test.sh /tmp/t.json > /tmp/fix.log 2>&1
python3 - <<'PY'
import json,sys
a=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(a['passed'])
if miss: print("FAILING", miss); sys.exit(1)
PY
git -C /repo commit -qam "fix: $2"
c=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$c" "$3" <<'PY'
import json,sys,os
p='/verif/known_findings.json'
d=json.load(open(p)) if os.path.exists(p) else {"findings":[],"fixed":[]}
d["fixed"].append("fixed: property=%s %s %s"%tuple(sys.argv[1:4]))
json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
PY
echo committed $c
