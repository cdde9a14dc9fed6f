#!/usr/bin/env python3
"""seed.py verify ID...   confirm planted bugs (build, tests, demo) in /repo, undone afterwards
   seed.py catch ID [PROP...]  run checks against a planted bug"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def undo():
    sh("git -C /repo checkout -- . && git -C /repo clean -fdq")
mode, ids = sys.argv[1], sys.argv[2:]
if mode == "catch":
    ids, props = ids[:1], ids[1:]
for i in ids:
    d = os.path.join(R, "seeded", i)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    meta = json.load(open(d + "/meta.json"))
    if mode == "verify":
        ok = []
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); ok.append(("demo clean", r.returncode == 0, r.stdout[-1500:]))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout); undo(); continue
    try:
        if mode == "verify":
            r = sh("bash /opt/vp/build.sh"); ok.append(("build", r.returncode == 0, r.stdout[-1500:]))
            for _ in range(2):
                r = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); t = json.load(open("/tmp/seedtest.json")); ok.append(("tests", not t["failed"] and len(t["passed"]) == 18, r.stdout[-1500:]))
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); ok.append(("demo patched fails", r.returncode != 0, r.stdout[-1500:]))
            bad = [o for o in ok if not o[1]]
            print(i, "OK" if not bad else "BAD")
            for o in bad: print("   ", o[0], o[2])
            print("   ", r.stdout[-600:].replace("\n", "\n    "))
        else:
            for p in props or [meta["property"]]:
                r = sh("VERIF_SEED=1 VERIF_TIER=quick bash check.sh %s quick" % p, cwd=R)
                hit = any(l.startswith("VIOLATION property=%s " % p) for l in r.stdout.split("\n"))
                print(i, p, "CAUGHT" if r.returncode == 1 and hit else "MISSED rc=%d" % r.returncode, r.stdout.split("\n")[0])
                if "-v" in os.environ.get("V", ""): print(r.stdout[:3000])
    finally:
        undo()
