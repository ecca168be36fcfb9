#!/usr/bin/env python3
"""runseeds.py [ids...]: runs the check of each seeded bug on a patched copy of /repo (src only)."""
import json, os, subprocess, sys, shutil, time
V = "/verif"; ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json")); W = "/tmp/rs_%d" % os.getpid(); os.makedirs(W); 
    subprocess.run("cp -a /repo/src /repo/.git %s/; cp -a /repo/python_packages %s/ ; git -C %s apply --include='*' %s/patch.diff" % (W, W, W, d), shell=True)
    t = time.time(); r = subprocess.run([sys.executable, "check.py", m["property"], "quick"], cwd=V, env=dict(os.environ, SE_REPO=W, SE_CACHE="/tmp/rs_cache"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(i, m["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), " | ".join(l for l in r.stdout.split("\n") if l.startswith(("  ", "INCON")))[:300], flush=True)
    shutil.rmtree(W)
shutil.rmtree("/tmp/rs_cache", ignore_errors=True)
