#!/usr/bin/env python3
"""confirm.py [--nocheck] ID...: for each planted bug apply it to /repo, build, run the stable tests and the demo, run the property's check; undo."""
import sys, json, subprocess, os, time
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
assert not subprocess.run(["git", "-C", "/repo", "status", "--short", "-uno"], stdout=subprocess.PIPE).stdout, "/repo not clean"
orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE).stdout.decode().split()[0]
LOG = open("/tmp/w/confirm.log", "a")
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
sh("bash /opt/vp/build.sh")
pre = {i: sh("bash /verif/seeded/%s/demo.sh" % i, cwd="/repo") for i in ids}
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    res = {"id": i, "demo_clean": pre[i].returncode}
    if pre[i].returncode: print(pre[i].stdout.decode()[-800:])
    # removed lines must exist in the original repository
    touched = []
    cur = None
    for l in open(d + "/patch.diff", newline=""):
        if l.startswith("--- "): cur = l.split()[1][2:]
        elif l.startswith("-") and not l.startswith("---"): touched.append((cur, l[1:].rstrip("\r\n")))
    for f, t in touched:
        o = sh("git -C /repo show 21985d6:%s" % f).stdout.decode(errors="replace")
        if t.strip() and t.strip() not in [x.strip() for x in o.splitlines()]: print("   NOT ORIGINAL:", f, t)
    a = sh("git -C /repo apply " + d + "/patch.diff")
    if a.returncode: print(i, "does not apply", a.stdout.decode()); continue
    try:
        t = sh("bash /opt/vp/test.sh /tmp/w/out.json")
        o = json.load(open("/tmp/w/out.json"))
        miss = base - set(o["passed"])
        res["tests"] = "ok" if not miss else "FAIL %d: %s" % (len(miss), sorted(miss)[:3])
        m = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        res["demo_bug"] = m.returncode
        if "--nocheck" not in sys.argv:
            t0 = time.time()
            props = [prop] + [a[8:] for a in sys.argv if a.startswith("--props=")]
            for p in props:
                r = sh("python3 check.py " + p, cwd="/verif")
                out = r.stdout.decode(errors="replace")
                law = [l for l in out.splitlines() if l.startswith("law ")]
                res["check " + p] = "%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in out else "missed")
                res["law"] = law[0][:150] if law else out[-200:] if r.returncode not in (0, 1) else ""
            res["s"] = round(time.time() - t0)
    finally:
        sh("git -C /repo apply -R " + d + "/patch.diff"); sh("git -C /repo checkout -- .")
    print(json.dumps(res)); sys.stdout.flush()
    LOG.write(json.dumps(res) + "\n"); LOG.flush()
sh("bash /opt/vp/build.sh")
