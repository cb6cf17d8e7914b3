#!/usr/bin/env python3
"""seed.py ID: checks a planted bug as the final check does (demo on the clean
and the patched tree, build, stable tests), in a copy of /repo under /tmp."""
import json, os, shutil, subprocess, sys
S = "/verif/seeded"
def sh(c, cwd="/repo", **k):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
    return p.returncode, p.stdout + p.stderr
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in sys.argv[1:]:
    d = os.path.join(S, i)
    assert sh("git status --short")[1].strip() == "", "dirty /repo"
    t = "/tmp/seed-demo"
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in ("patch.diff", "meta.json"): os.path.exists(t + "/" + f) and os.remove(t + "/" + f)
    rc0, o0 = sh("bash %s/demo.sh" % t)
    try:
        ra, oa = sh("git apply %s/patch.diff" % d)
        if ra: print(i, "DOES NOT APPLY", oa); continue
        rb, ob = sh("bash /opt/vp/build.sh")
        rc1, o1 = sh("bash %s/demo.sh" % t)
        sh("rm -f /tmp/so.json; bash /opt/vp/test.sh /tmp/so.json")
        try: passed = set(json.load(open("/tmp/so.json"))["passed"])
        except Exception: passed = set()
        miss = stable - passed
    finally:
        sh("git checkout -- .")
        sh("bash /opt/vp/build.sh")
    ok = rc0 == 0 and rc1 != 0 and rb == 0 and not miss
    print(i, "OK" if ok else "BAD", "clean=%d patched=%d build=%d missing=%d %s" % (rc0, rc1, rb, len(miss), sorted(miss)[:3]))
    if not ok or "-v" in os.environ.get("SV", ""): print("--clean:", o0[-800:], "--patched:", o1[-800:], ob[-500:] if rb else "")
    else: print("   ", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    shutil.rmtree(t, ignore_errors=True)
