#!/usr/bin/env python3
"""Driver: compiles /repo's current sources with the symbolic pass, runs harnesses, replays counterexamples."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SE_REPO", "/repo")
ENG = os.path.join(V, "engine")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CACHE = os.environ.get("SE_CACHE", os.path.join(V, ".cache"))
JOBS = int(os.environ.get("SE_JOBS", 0)) or os.cpu_count() or 4
INC = ["utility", "Geometry", "math", "errorSystem", "MathEval", "common_api", "Data", "models", "Equation", "GeomModels",
       "Circuit/data", "Circuit/models/sources", "Circuit/models/ideal", "AutoEquation", "meshing", "adiff", "commands"]
DEFS = ["-DDEVSIM_COPYRIGHT_YEAR=\"2009-2026\"", "-DDEVSIM_VERSION_STRING=\"2.10.1\"", "-DLOAD_MATHLIBS", "-DUSE_BLAS",
        "-DUSE_ITERATIVE_SOLVER", "-DUSE_LAPACK", "-DUSE_MKL_PARDISO"]
XDEF = ["-DDEVSIM_EXTENDED_PRECISION"]

LIVE = set()  # process groups of running harnesses
def stop_all(*a):
    for g in list(LIVE):
        try: os.killpg(g, 9)
        except OSError: pass
    os._exit(2)
signal.signal(signal.SIGTERM, stop_all)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def filehash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

class BuildError(Exception): pass

def cached(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + suffix)
    if not os.path.exists(out):
        tmp = out + ".tmp%d_%s" % (os.getpid(), time.monotonic_ns())
        make(tmp); os.replace(tmp, out)
    return out

def build_pass():
    src = os.path.join(ENG, "pass.cc")
    def mk(tmp):
        r = sh(["clang++", "-shared", "-fPIC", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp])
        if r.returncode: raise BuildError(r.stdout)
    return cached("pass_" + filehash(open(src, "rb").read()), ".so", mk)

def build_rt():
    # a shared library: template instantiations of the runtime stay apart from the instrumented ones of the code under test
    s = [os.path.join(ENG, f) for f in ("se_rt.cc", "se.h")]
    def mk(tmp):
        open(tmp + ".map", "w").write("{ global: __se_*; se_*; main; _Znw*; _Zna*; _Zdl*; _Zda*; local: *; };\n")
        r = sh(["g++", "-O2", "-g1", "-std=gnu++17", "-w", "-fPIC", "-shared", "-fno-strict-aliasing", "-Wl,--version-script=" + tmp + ".map", "-I" + ENG, "-I" + Z3 + "/include", s[0], "-o", tmp,
                "-L" + Z3 + "/lib", "-l:libz3.so", "-lquadmath", "-Wl,-rpath," + Z3 + "/lib"])
        os.remove(tmp + ".map")
        if r.returncode: raise BuildError(r.stdout)
    return cached("rt_" + filehash(*[open(f, "rb").read() for f in s], "so1"), ".so", mk)

def build_native_rt():
    s = [os.path.join(ENG, f) for f in ("se_native.cc", "se.h")]
    def mk(tmp):
        r = sh(["g++", "-O1", "-std=gnu++17", "-w", "-I" + ENG, "-c", s[0], "-o", tmp])
        if r.returncode: raise BuildError(r.stdout)
    return cached("nat_" + filehash(*[open(f, "rb").read() for f in s]), ".o", mk)

def incs():
    r = ["-I" + os.path.join(REPO, "src", d) for d in INC]
    return r + ["-I" + ENG, "-I" + os.path.join(V, "harness"), "-I" + os.path.join(V, "stubs"), "-I" + os.path.join(V, "stubs", "inc1"), "-idirafter", os.path.join(V, "stubs", "inc"), "-idirafter", os.path.join(V, "stubs", "inc2")] + ["-I" + os.path.join(REPO, "src", d) for d in ("pythonapi", "common_api", "commands")]

def flags(ext, extra):
    return ["-std=gnu++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE"] + DEFS + (XDEF if ext else []) + list(extra) + incs()

def compile_one(job):
    src, native, ext, extra, plug = job
    if native:
        base = ["g++", "-O2", "-DSE_NATIVE", "-DNDEBUG", "-fno-stack-protector"]
    else:
        base = ["clang++", "-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-stack-protector",
                "-DNDEBUG", "-Xclang", "-fno-pch-timestamp"]
    fl = flags(ext, extra)
    e = subprocess.run(base + fl + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if e.returncode: raise BuildError("preprocess %s\n%s" % (src, e.stderr.decode()[-3000:]))
    key = filehash(e.stdout, " ".join(base), " ".join(extra), os.path.basename(plug or ""), os.path.relpath(src, "/"))
    def mk(tmp):
        cmd = base + fl + ([] if native else ["-fpass-plugin=" + plug]) + ["-c", src, "-o", tmp]
        r = sh(cmd)
        if r.returncode: raise BuildError("compile %s\n%s" % (src, r.stdout[-3000:]))
    return cached(("n_" if native else "s_") + key, ".o", mk)

def resolve(s):
    for d in (os.path.join(V, "harness"), os.path.join(V, "stubs"), os.path.join(REPO, "src"), REPO):
        p = os.path.join(d, s)
        if os.path.exists(p): return p
    if os.path.isabs(s) and os.path.exists(s): return s
    raise BuildError("no source " + s)

def compile_all(srcs, native, ext, extra, plug):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(compile_one, [(resolve(s), native, ext, tuple(extra), plug) for s in srcs]))

def link(objs, out, native, libs):
    cmd = ["g++" if native else "clang++", "-no-pie", "-o", out] + objs
    if not native: cmd += ["-Wl,-E"]
    cmd += ["-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition", "-lquadmath", "-ldl", "-lpthread"] + list(libs)
    if not native: # keep shared libraries (libstdc++, Z3) from binding to instrumented template instantiations
        vs = out + ".map"; open(vs, "w").write("{ global: __se_*; se_*; _Z7se_mainv; local: *; };\n"); cmd.append("-Wl,--version-script=" + vs)
    r = sh(cmd)
    if r.returncode: raise BuildError("link %s\n%s" % (out, r.stdout[-3000:]))

class H:
    """One harness. srcs: devsim files (relative to src/) and stubs; reach: labels that must be reached."""
    def __init__(self, name, srcs, reach=(), ext=False, defs=(), libs=(), env=None, thorough_only=False, quick_only=False, tmo=None, bounds="", flag=()):
        self.name, self.srcs, self.reach, self.ext, self.defs, self.libs = name, list(srcs), list(reach), ext, list(defs), list(libs)
        self.env, self.thorough_only, self.quick_only, self.tmo, self.bounds = env or {}, thorough_only, quick_only, tmo, bounds
    @property
    def libdefs(self): return [d for d in self.defs if not re.match(r"-D[A-Za-z0-9]+(=.*)?$", d)]  # macros without underscore are for the harness only
    @property
    def src(self): return self.name.split(":")[0] + ".cc"
    @property
    def tag(self): return self.name.replace(":", "_")

def run_harness(pid, h, tier, work, plug, rt, keep=False):
    d = os.path.join(work, h.tag); os.makedirs(d, exist_ok=True)
    extra = list(h.defs) + (["-DTHOROUGH"] if tier == "thorough" else [])
    objs = compile_all([h.src], False, h.ext, extra, plug) + compile_all(h.srcs, False, h.ext, h.libdefs, plug)
    exe = os.path.join(d, "sym"); link(objs + [rt], exe, False, h.libs)
    env = dict(os.environ, SE_OUT=d, SE_JOBS=str(JOBS), SE_TIER=tier, **h.env)
    tmo = int(os.environ.get("SE_TMO", 0)) or h.tmo or (700 if tier == "quick" else 3000)
    t = time.time()
    stopped = False; tried = {}; hit = None
    log = open(os.path.join(d, "log"), "w+")
    p = subprocess.Popen([exe], env=env, stdout=log, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    LIVE.add(p.pid)
    while True:
        try: p.wait(timeout=3); break
        except subprocess.TimeoutExpired: pass
        if hit is None:  # a counterexample that reproduces ends the search early
            for f in sorted(glob.glob(os.path.join(d, "cex_*.txt"))):
                if f in tried or len(tried) > 40 or time.time() - t < 20 or time.time() - os.path.getmtime(f) < 1: continue
                tried[f] = 1
                if replay(h, tier, work, f)[0] and not [x for x in known(pid) if x[0] == h.name and x[1] == label_of(f)]: hit = time.time(); break
        if time.time() - t > tmo or hit and time.time() - hit > 15:
            os.killpg(p.pid, 9); p.wait(); stopped = True; break
    LIVE.discard(p.pid); log.seek(0); out = log.read()[-20000:]; log.close()
    if stopped:
        cx = sorted(glob.glob(os.path.join(d, "cex_*.txt")))
        st = dict(harness=h.name, status="timeout", out=out[-3000:], wall_s=time.time() - t, cexfiles=cx, missing_reach=[], failed=len(cx), lost=0, unknown=0, aborted=0, crashed=0, why="", asserts=1, paths=0)
        if cx: st["status"] = "stopped"
        return st
    f = os.path.join(d, "summary.json")
    if not os.path.exists(f): return dict(harness=h.name, status="no summary", out=out[-2000:], wall_s=time.time() - t)
    s = json.load(open(f)); s["harness"] = h.name; s["out"] = out[-3000:]; s["status"] = "ok"
    s["missing_reach"] = [r for r in h.reach if r not in s["reach"]]
    s["cexfiles"] = sorted(glob.glob(os.path.join(d, "cex_*.txt")))
    return s

def replay(h, tier, work, cexfile):
    """Runs the counterexample on natively compiled real code. Returns (reproduced, text)."""
    extra = list(h.defs) + (["-DTHOROUGH"] if tier == "thorough" else [])
    exe = os.path.join(work, h.tag, "native")
    if not os.path.exists(exe):
        objs = compile_all([h.src], True, h.ext, extra, None) + compile_all(h.srcs, True, h.ext, h.libdefs, None)
        link(objs + [build_native_rt()], exe, True, h.libs)
    try:
        r = sh([exe, cexfile], timeout=120, env=dict(os.environ, SE_TIER=tier, **h.env))
    except subprocess.TimeoutExpired:
        return True, "REPLAY FAIL does not terminate"
    bad = r.returncode == 1 and "REPLAY FAIL" in r.stdout or r.returncode < 0
    return bad, r.stdout[-1500:] + ("" if r.returncode >= 0 else "REPLAY FAIL killed by signal %d" % -r.returncode)

def label_of(f): return open(f).readline()[6:].strip()

def known(pid):
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out

def run_check(pid, harnesses, tier, meta, level="model_checking"):
    t0 = time.time()
    work = os.path.join("/tmp", "se_%s_%d" % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    rc = 0; res = []; viol = []; incon = []; kf = []
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_pass), ex.submit(build_rt)
            plug, rt = a.result(), b.result()
        hs = [h for h in harnesses if not (h.thorough_only and tier != "thorough") and not (h.quick_only and tier == "thorough")]
        # compile everything of this check at once
        groups = {}
        for h in hs: groups.setdefault((h.ext, tuple(h.libdefs)), set()).update(h.srcs)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            jobs = [(resolve(s), False, k[0], k[1], plug) for k, v in groups.items() for s in sorted(v)]
            jobs += [(resolve(h.src), False, h.ext, tuple(list(h.defs) + (["-DTHOROUGH"] if tier == "thorough" else [])), plug) for h in hs]
            if meta.get("witness", True):
                jobs += [(resolve(s), True, k[0], k[1], None) for k, v in groups.items() for s in sorted(v)]
                jobs += [(resolve(h.src), True, h.ext, tuple(list(h.defs) + (["-DTHOROUGH"] if tier == "thorough" else [])), None) for h in hs]
            list(ex.map(compile_one, jobs))
        knownl = known(pid); outdir = os.path.join(V, "evidence", "replays"); os.makedirs(outdir, exist_ok=True)
        for h in hs:
            s = run_harness(pid, h, tier, work, plug, rt); res.append((h, s))
            if s["status"] == "stopped": incon.append("%s: stopped after %d counterexamples" % (h.name, len(s["cexfiles"])))
            elif s["status"] != "ok": incon.append("%s: %s %s" % (h.name, s["status"], s.get("out", ""))); continue
            rep = {}; cex_by = {}
            for f in s["cexfiles"]: cex_by.setdefault(label_of(f), []).append(f)
            for lab, fs in cex_by.items():
                ok = False; txt = ""
                for f in fs[:12]:
                    ok, txt = replay(h, tier, work, f)
                    if ok: break
                dst = os.path.join(outdir, "%s_%s_%s.txt" % (pid, h.tag, re.sub(r"\W+", "_", lab)[:60])); shutil.copy(f, dst)
                with open(dst, "a") as o: o.write("# replay on the natively compiled code: %s\n# %s\n" % ("reproduced" if ok else "NOT reproduced", txt.replace("\n", "\n# ")))
                k = [x for x in knownl if x[0] == h.name and x[1] == lab]
                if ok and k: kf.append(k[0][2])
                elif ok: viol.append((h.name, lab, dst))
                else: incon.append("%s: counterexample for '%s' not reproduced (%s)" % (h.name, lab, dst))
            if s["status"] == "ok" and meta.get("witness", True):  # inputs that satisfy a complete path: the natively compiled code must agree
                s["witness_ok"] = s["witness_bad"] = 0; s["witness_samples"] = []
                for f in sorted(glob.glob(os.path.join(work, h.tag, "wit_*.txt")))[:6]:
                    bad, txt = replay(h, tier, work, f)
                    if "assumption not met" in txt: continue
                    s["witness_bad" if bad else "witness_ok"] += 1
                    s["witness_samples"].append(h.name + ": " + "; ".join(open(f).read().split("\n")[:14]))
                    if bad and not cex_by: print("NOTE property=%s %s: a satisfying input behaves differently in floating point: %s" % (pid, h.name, txt[:300]))
            if s["failed"] and not s["cexfiles"]: incon.append("%s: failed without counterexample" % h.name)
            for k in ("lost", "unknown", "aborted"):
                if s[k]: incon.append("%s: %s=%d %s" % (h.name, k, s[k], s["why"]))
            if s["crashed"] and not cex_by: incon.append("%s: crashed=%d %s" % (h.name, s["crashed"], s["why"]))
            if s["missing_reach"] and not cex_by: incon.append("%s: not reached: %s" % (h.name, s["missing_reach"]))
            if s["asserts"] == 0: incon.append("%s: no assertion evaluated" % h.name)
    except BuildError as e:
        incon.append("build: " + str(e))
    finally:
        if os.environ.get("SE_KEEP") != "1": shutil.rmtree(work, ignore_errors=True)
    for x in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (pid, x))
    for hn, lab, f in viol: print("VIOLATION property=%s replay=%s" % (pid, f)); print("  %s: %s" % (hn, lab))
    for x in incon: print("INCONCLUSIVE property=%s %s" % (pid, x[:1500]))
    rc = 1 if viol else 2 if incon else 0
    write_evidence(pid, tier, level, res, viol, incon, kf, time.time() - t0, meta)
    q = sum(s.get("queries", 0) for _, s in res); pth = sum(s.get("paths", 0) for _, s in res); asr = sum(s.get("asserts", 0) for _, s in res)
    print("property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d solver_s=%.1f wall_s=%.1f result=%s" % (
        pid, tier, len(res), pth, asr, q, sum(s.get("solver_s", 0) for _, s in res), time.time() - t0, ["held", "VIOLATION", "inconclusive"][rc]))
    return rc

def write_evidence(pid, tier, level, res, viol, incon, kf, wall, meta):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    fn = set()
    for _, s in res:
        for n, f in s.get("functions", []):
            if f.startswith(REPO): fn.add((n, os.path.relpath(f, REPO)))
    names = sorted(n for n, _ in fn)
    try: dem = subprocess.run(["c++filt"], input="\n".join(names), text=True, stdout=subprocess.PIPE).stdout.split("\n")
    except Exception: dem = names
    dem = [x for x in dem if x and not re.match(r"(std|boost|__gnu_cxx)::|void std::|.*\bstd::_|.*__gnu_cxx|operator|bool std::|double std::|int std::", x)]
    S = lambda k: sum(s.get(k, 0) or 0 for _, s in res)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, wall_s=round(wall, 2),
      coverage=dict(states=S("paths"), transitions=S("forks") + S("asserts"), traces_validated_against_impl=sum(s.get("witness_ok", 0) for _, s in res), traces_not_validated=sum(s.get("witness_bad", 0) for _, s in res),
        samples=[x for _, s in res for x in s.get("witness_samples", [])][:8], bounds=meta.get("bounds", ""), paths=S("paths"), assertions=S("asserts"), assertions_discharged=S("proved"), queries=S("queries"),
        solver_seconds=round(S("solver_s"), 3), solver="z3 5.3.2", functions_encoded=dem[:400], functions_encoded_count=len(dem),
        files_encoded=sorted({f for _, f in fn if f.startswith("src")}),
        harnesses=[dict(name=h.name, bounds=h.bounds, status=s.get("status"), paths=s.get("paths"), assertions=s.get("asserts"), discharged=s.get("proved"), queries=s.get("queries"), solver_s=s.get("solver_s"), max_query_s=s.get("max_query_s"), wall_s=s.get("wall_s"), reach=s.get("reach"), labels=s.get("labels"), nonzero_denominators_assumed=True) for h, s in res],
        inconclusive=incon, known_findings=sorted(set(kf))),
      assumptions=meta.get("assumptions", []), violations=len(viol))
    ev["coverage"]["violation_list"] = [dict(harness=a, label=b, replay=c) for a, b, c in viol]
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
