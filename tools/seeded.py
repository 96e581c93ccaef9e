#!/usr/bin/env python3
"""Run the checks against planted bugs in scratch copies of /repo.  seeded.py [ID...] [--also C01,C02]"""
import os, re, shutil, subprocess, sys, json, time
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(H, "seeded")))
tot = [0, 0]
for i in ids:
    d = os.path.join(H, "seeded", i)
    if not os.path.exists(d + "/meta.json"):
        continue
    pid = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/seeded-try-%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
    t = time.time()
    r = subprocess.run(["python3", "check.py", pid], cwd=H, env=dict(os.environ, MPOPT_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode()
    v = [l for l in out.split("\n") if l.startswith("case ")]
    hit = r.returncode == 1 and "VIOLATION property=%s " % pid in out
    tot[0] += hit
    tot[1] += 1
    print("%-28s %s rc=%d %.0fs %s" % (i, "caught" if hit else "MISSED", r.returncode, time.time() - t, (v or [out[-400:]])[0][:230]), flush=True)
    shutil.rmtree(w, ignore_errors=True)
print("%d of %d caught" % tuple(tot))
