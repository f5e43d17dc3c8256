#!/usr/bin/env python3
"""Create (or re-verify) planted bugs.  mkseed.make(id, prop, edits, demo, needs, breaks) edits /repo, writes
seeded/<id>/, confirms: builds, tests pass, demo fails with it and passes without; runs the property's check.
`mkseed.py verify [ids]` re-verifies the stored ones.  /repo is always restored."""
import json, os, subprocess, sys, glob, time
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -UNDEBUG -DPP_ENABLE_ASSERT %s-include cassert -include algorithm -I/repo/planner/src "$D/demo.cpp" %s-lflann -llz4 -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def restore():
    sh("git -C /repo checkout -- .")
def tests_ok():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open("/tmp/seed_out.json"))
    need = base.get("stable") or base.get("passed") or base.get("tests") or []
    miss = [t for t in need if t not in out["passed"]]
    return not miss and not out["failed"], miss, out["failed"]
def demo(d):
    r = sh("cd /repo && bash %s/demo.sh" % d)
    return r.returncode, r.stdout[-600:]
def check(prop, tier="quick"):
    t = time.time()
    r = sh("cd %s && VERIF_SEED=1 python3 run.py %s --tier %s" % (V, prop, tier))
    vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    return r.returncode, vio, time.time() - t, r.stdout[-1500:]
def verify(sid, build_clean=True, run_check=True):
    d = "%s/seeded/%s" % (V, sid)
    meta = json.load(open(d + "/meta.json"))
    res = {"id": sid, "property": meta["property"]}
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            res["error"] = "does not apply: " + r.stdout; return res
        ok = tests_ok()
        res["tests"] = ok[0] or ok
        res["demo_with"], out = demo(d)
        res["demo_out"] = out.strip()[-300:]
        if run_check:
            rc, vio, dt, tail = check(meta["property"])
            res["check_rc"], res["caught"], res["check_s"] = rc, rc == 1 and bool(vio), round(dt)
            res["vio"] = tail[-500:] if not res["caught"] else [l for l in tail.splitlines() if "VIOL" in l or "fail" in l.lower()][:3]
    finally:
        restore()
    if build_clean:
        sh("bash /opt/vp/build.sh")
        res["demo_without"], out = demo(d)
        if res["demo_without"]:
            res["demo_without_out"] = out
    res["good"] = res.get("tests") is True and res.get("demo_with") not in (0, 3) and res.get("demo_without") == 0
    return res
def make(sid, prop, edits, democpp, needs, breaks, defs="", lib="/repo/build/lib/libpathPlanning.a "):
    d = "%s/seeded/%s" % (V, sid)
    os.makedirs(d, exist_ok=True)
    restore()
    for f, old, new in edits:
        p = "/repo/planner/src/" + f if not f.startswith("interfaces") else "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    restore()
    if defs == "python":
        open(d + "/demo.py", "w").write(democpp.lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds\nD=$(cd "$(dirname "$0")" && pwd)\ncd /repo && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/build/lib timeout 120 python3 "$D/demo.py"\n')
    else:
        open(d + "/demo.cpp", "w").write(democpp)
        open(d + "/demo.sh", "w").write(DEMO % (defs, lib))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    res = verify(sid)
    print(json.dumps(res, indent=1))
    return res
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.path.basename(p) for p in glob.glob(V + "/seeded/*"))
    bad = []
    for i in ids:
        r = verify(i)
        print(r["id"], r["property"], "good" if r.get("good") else "BAD " + json.dumps(r), "caught" if r.get("caught") else "MISSED rc=%s" % r.get("check_rc"), r.get("check_s"), flush=True)
