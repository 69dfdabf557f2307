#!/usr/bin/env python3
"""Write planted bugs: plant.py SPECFILE.  The spec is Python defining BUGS: a list of dicts
id, property, file, edits [(old, new), ...] (or edits {file: [(old, new)]}), needs, breaks, demo (C++ statements of main; return nonzero when broken) or pydemo."""
import sys, os, json, subprocess, shutil
SH = '''#!/bin/bash
# exit 0 when the property holds on this example
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
I=$PWD/_build/install
g++ -std=c++14 -O1 -w -I"$I/include" -I"$I/include/kdl" -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L"$I/lib" LIBS-lorocos-kdl -Wl,-rpath,"$I/lib" -lpthread || exit 3
"$t/demo"
'''
PYSH = '''#!/bin/bash
# exit 0 when the property holds on this example
d=$(cd "$(dirname "$0")" && pwd)
LD_LIBRARY_PATH=$PWD/_build/install/lib PYTHONPATH=$PWD/_build/py PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 "$d/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    ed = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
    scr = "/tmp/w/plant"
    shutil.rmtree(scr, ignore_errors=True)
    diff = ""
    for f, es in ed.items():
        p = "/repo/" + f
        s = open(p, newline="").read()
        for o, n in es:
            if s.count(o) != 1:
                print("%s: %d matches of %r in %s" % (b["id"], s.count(o), o, f)); break
            s = s.replace(o, n)
        q = os.path.join(scr, "b", f)
        os.makedirs(os.path.dirname(q)); open(q, "w", newline="").write(s)
        q = os.path.join(scr, "a", f)
        os.makedirs(os.path.dirname(q)); shutil.copy(p, q)
        diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=scr, stdout=subprocess.PIPE).stdout.decode()
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline="").write(diff)
    if "pydemo" in b:
        open(d + "/demo.sh", "w").write(PYSH); open(d + "/demo.py", "w").write(b["pydemo"])
    else:
        open(d + "/demo.sh", "w").write(SH.replace("LIBS", b.get("libs", "")))
        open(d + "/demo.cpp", "w").write(ns.get("HEAD", "") + b.get("pre", "") + "int main() {\n" + b["demo"].strip("\n") + "\n}\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", b["id"])
