#!/usr/bin/env python3
import os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "engine")); sys.path.insert(0, V)
import sedrv, checks
pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
c = checks.CHECKS[pid]
only = sys.argv[3:]  # development: restrict to some harnesses
if "py" in c:
    import pydrv; sys.exit(pydrv.run(pid, c, tier))
hs = [h for h in c["h"] if not only or h.name in only]
sys.exit(sedrv.run_check(pid, hs, tier, c))
