#!/usr/bin/env python3
"""catch.py ID...: runs the check of each planted bug's property against a
copy of /repo with the bug, and prints whether it is caught."""
import json, os, subprocess, sys, time, shutil
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    pid = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/catch-repo"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    r = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
    t = time.time()
    p = subprocess.run(["python3", "/verif/run.py", pid, os.environ.get("TIER", "quick")], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, PGV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = p.returncode == 1 and any("property=%s " % pid in l for l in v)
    print("%-28s %s %s rc=%d %.0fs %s" % (i, pid, "caught" if ok else "MISSED", p.returncode, time.time() - t, "" if ok else (p.stdout + p.stderr)[-600:]), flush=True)
    shutil.rmtree(w, ignore_errors=True)
subprocess.run("rm -rf /verif/replays/*", shell=True)
