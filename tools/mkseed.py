#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates and verifies seeded bugs. SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ text, srcs=[devsim files], ext=bool)]"""
import json, os, runpy, shutil, subprocess, sys
V = "/verif"; sys.path.insert(0, V + "/engine"); sys.path.insert(0, V)
SH = r'''#!/bin/bash
# builds the demonstration from /repo's sources (cwd) and runs it: 0 = behaves, nonzero = broken
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2; trap 'rm -rf "$W"' EXIT
INC=""; for d in utility Geometry math errorSystem MathEval common_api Data models Equation GeomModels Circuit/data Circuit/models/sources Circuit/models/ideal AutoEquation meshing adiff commands pythonapi; do INC="$INC -I$R/src/$d"; done
FL="-std=gnu++17 -O0 -w -DNDEBUG @X@ -DLOAD_MATHLIBS -DUSE_BLAS -DUSE_ITERATIVE_SOLVER -DUSE_LAPACK -DUSE_MKL_PARDISO $INC -I$D"
n=0; for s in @S@ ; do if [ -f "$D/$s" ]; then p="$D/$s"; else p="$R/src/$s"; fi; n=$((n+1)); echo "$p $W/$n.o"; done > $W/list
xargs -P 8 -L 1 sh -c 'g++ '"$FL"' -c "$0" -o "$1" || exit 255' < $W/list || exit 3
g++ -no-pie -o $W/demo $W/*.o -Wl,--unresolved-symbols=ignore-all -Wl,--allow-multiple-definition -lquadmath -ldl -lpthread || exit 3
cd "$W" && timeout 60 ./demo
'''
def run(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    for s in spec["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        W = "/tmp/seedwork_%d" % os.getpid(); run(["cp", "-a", "/repo", W])
        try:
            for f, o, n in s["edits"]:
                p = os.path.join(W, f); t = open(p).read(); assert t.count(o) >= 1, ("not found", f, o)
                if t.count(o) > 1 and not s.get("first"): print("ambiguous", s["id"], o[:60]); 
                open(p, "w").write(t.replace(o, n, 1))
            diff = run("git diff", cwd=W).stdout; open(d + "/patch.diff", "w").write(diff)
            if "py" in s:
                open(d + "/demo.py", "w").write(s["py"]); open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); extra = []
            else:
                open(d + "/demo.cc", "w").write(s["demo"]); stubs = [x for x in s["srcs"] if os.path.exists(V + "/stubs/" + x)]
                for x in stubs: shutil.copy(V + "/stubs/" + x, d)
                for x in s.get("files", []): shutil.copy(os.path.join(V, x), d)
                open(d + "/demo.sh", "w").write(SH.replace("@X@", "-DDEVSIM_EXTENDED_PRECISION" if s.get("ext") else "").replace("@S@", " ".join(["demo.cc"] + s["srcs"])))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            a = run(["bash", d + "/demo.sh"], cwd="/repo"); b = run(["bash", d + "/demo.sh"], cwd=W)
            bl = run("git -C /repo apply --check %s/patch.diff" % d)
            # build and tests with the patch, in /repo (the build script works there), undone afterwards
            run("git -C /repo apply %s/patch.diff" % d)
            bu = run(["bash", "/opt/vp/build.sh"]); te = run(["bash", "/opt/vp/test.sh", "/tmp/seed_test.json"])
            run("git -C /repo checkout -- .")
            tl = te.stdout.strip().split("\n")[-1]
            ok = a.returncode == 0 and b.returncode not in (0, 3) and bl.returncode == 0 and bu.returncode == 0 and te.returncode == 0
            print(s["id"], "OK" if ok else "BAD", "base rc", a.returncode, "patched rc", b.returncode, "apply", bl.returncode, "build", bu.returncode, tl)
            if not ok: print(a.stdout[-1500:], b.stdout[-1500:], bu.stdout[-500:] if bu.returncode else "")
            else: print("   ", b.stdout.strip()[-200:])
        finally: shutil.rmtree(W, ignore_errors=True)
    run(["bash", "/opt/vp/build.sh"])
main()
