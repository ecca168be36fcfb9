# Symbolic execution of the packaged Python code: numbers are Z3 terms, every comparison asks the solver which
# outcomes are possible and explores each of them, assertions are discharged for all values of a path.
import json, os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); V = os.path.abspath(V)
REPO = os.environ.get("SE_REPO", "/repo")
try: import z3
except ImportError: z3 = None

class Lost(Exception): pass
class Stop(BaseException): pass
class Infeasible(BaseException): pass
ENG = None

def z(x): return x.t if isinstance(x, S) else z3.RealVal(repr(x)) if isinstance(x, float) else z3.RealVal(x) if isinstance(x, int) else x
def num(f): # exact value of a float
    from fractions import Fraction
    q = Fraction(f); return z3.RealVal(q.numerator) / z3.RealVal(q.denominator) if q.denominator != 1 else z3.RealVal(q.numerator)
def zz(x): return x.t if isinstance(x, S) else num(x) if isinstance(x, float) else z3.RealVal(int(x)) if isinstance(x, (bool, int)) else None

class S:
    __slots__ = ("t",); __hash__ = None
    def __init__(self, t): self.t = t
    def _b(self, o, f):
        o = zz(o)
        return NotImplemented if o is None else S(f(self.t, o))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, n):
        if n == 2: return S(self.t * self.t)
        raise Lost("power")
    def __neg__(self): return S(-self.t)
    def __pos__(self): return self
    def __abs__(self): return S(z3.If(self.t >= 0, self.t, -self.t))
    def _c(self, o, f):
        o = zz(o)
        return NotImplemented if o is None else B(f(self.t, o))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __bool__(self): return ENG.branch(self.t != 0)
    def __float__(self): return 0.0 # only for printing
    def __str__(self): return "<number>"
    __repr__ = __str__
    def __format__(self, f): return "<number>"
class B:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return ENG.branch(self.t)
    def _o(self, o): return o.t if isinstance(o, B) else z3.BoolVal(bool(o))
    def __and__(self, o): return B(z3.And(self.t, self._o(o)))
    def __or__(self, o): return B(z3.Or(self.t, self._o(o)))
    def __xor__(self, o): return B(z3.Xor(self.t, self._o(o)))
    def __eq__(self, o): return B(self.t == self._o(o))
    def __ne__(self, o): return B(self.t != self._o(o))
    def __invert__(self): return B(z3.Not(self.t))
    __rand__ = __and__; __ror__ = __or__; __hash__ = None

class Sym:
    symbolic = True
    def __init__(self, limit):
        self.work = [[]]; self.paths = self.forks = self.asserts = self.queries = self.unknown = self.bounded = 0; self.solver_s = 0.0
        self.fail = []; self.lost = []; self.labels = {}; self.reached = {}; self.samples = []; self.end = time.time() + limit; self.funcs = set()
    def q(self, *c):
        t = time.time(); self.sv.push()
        for x in c: self.sv.add(x)
        r = self.sv.check(); self.queries += 1; m = self.sv.model() if r == z3.sat else None
        self.sv.pop(); self.solver_s += time.time() - t
        if r == z3.unknown: self.unknown += 1
        return r, m
    def _take(self, options):
        if self.pos < len(self.prefix): d = self.prefix[self.pos]
        else:
            d = options[0]
            for o in options[1:]: self.work.append(self.trail + [o])
            self.forks += len(options) - 1
        self.pos += 1; self.trail.append(d); return d
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix): d = self._take(None)
        else:
            o = [v for v in (True, False) if self.q(c if v else z3.Not(c))[0] != z3.unsat]
            if not o: raise Infeasible()
            d = self._take(o)
        self.sv.add(c if d else z3.Not(c)); return d
    def real(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1; n = name + ("#%d" % k if k else "")
        v = z3.Real(n); self.vars.append((n, v)); return S(v)
    def choose(self, n, label=""):
        d = self._take(list(range(n))); self.choices.append(d); return d
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        self.sv.add(c.t)
        if self.q()[0] == z3.unsat: raise Infeasible()
    def given(self, c): self.sv.add(c.t)
    def check(self, c, label):
        if isinstance(c, B): c = B(z3.simplify(c.t, som=True))
        self.asserts += 1; self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(c, B):
            r, m = self.q(z3.Not(c.t))
            if r == z3.unsat: return
            if r == z3.unknown: self.lost.append("solver gave no answer: " + label); return
        elif c: return
        else:
            r, m = self.q()
            if r != z3.sat: return
        self.fail.append((label, self.cex(m)))
    def cex(self, m):
        def val(v):
            x = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(x): x = x.approx(20)
            return "%d/%d" % (x.numerator_as_long(), x.denominator_as_long())
        return dict(choices=list(self.choices), values={n: val(v) for n, v in self.vars})
    def reach(self, label): self.reached[label] = self.reached.get(label, 0) + 1
    def eq(self, a, b):
        a, b = zz(a), zz(b); return B(a - b == 0)
    def le(self, a, b): return B(zz(a) <= zz(b))
    def note_func(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(REPO): self.funcs.add((frame.f_code.co_name, os.path.relpath(f, REPO)))
    def explore(self, fn):
        global ENG
        ENG = self
        while self.work:
            if time.time() > self.end: self.lost.append("out of time"); return
            if len(self.fail) > 20: return
            self.prefix = self.work.pop(); self.pos = 0; self.trail = []; self.names = {}; self.vars = []; self.choices = []
            self.sv = z3.Solver(); self.sv.set("timeout", 20000)
            sys.setprofile(self.note_func)
            try: fn(self)
            except Infeasible: continue
            except Stop: self.bounded += 1
            except Exception as e:
                import traceback
                self.lost.append("%s: %s (%s)" % (type(e).__name__, e, traceback.format_exc().strip().split("\n")[-3].strip()))
            finally: sys.setprofile(None)
            self.paths += 1
            if len(self.samples) < 4 or (self.paths % 97 == 0 and len(self.samples) < 12):
                r, m = self.q()
                if r == z3.sat: self.samples.append(self.cex(m))

class Con:
    symbolic = False
    def __init__(self, cex):
        from fractions import Fraction
        self.v = {k: float(Fraction(x)) for k, x in cex["values"].items()}; self.ch = list(cex["choices"]); self.names = {}; self.bad = []
    def branch(self, c): return bool(c)
    def real(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        return self.v.get(name + ("#%d" % k if k else ""), 1.0)
    def choose(self, n, label=""): return self.ch.pop(0) if self.ch else 0
    def assume(self, c):
        if not c: raise Infeasible()
    def check(self, c, label):
        if not c: self.bad.append(label)
    def given(self, c): self.assume(c)
    def reach(self, label): pass
    def eq(self, a, b): return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
    def le(self, a, b): return a <= b + 1e-9 * (1 + abs(a) + abs(b))

def load(name):
    import importlib.util
    if os.path.join(V, "harness") not in sys.path: sys.path.insert(0, os.path.join(V, "harness"))
    sys.dont_write_bytecode = True
    sp = importlib.util.spec_from_file_location(name, os.path.join(V, "harness", name + ".py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m

def replay(path):
    d = json.load(open(path)); h = load(d["harness"]); h.TIER = d["tier"]; e = Con(d)
    global ENG
    ENG = e
    try: h.run(e)
    except Stop: pass
    except Infeasible:
        if not e.bad: print("REPLAY assumption not met"); return 3
    except (ArithmeticError, ValueError) as x:
        if not e.bad: print("REPLAY cannot be evaluated", x); return 3
    print("REPLAY " + ("fails: " + "; ".join(sorted(set(e.bad))) if e.bad else "holds")); return 1 if e.bad else 0

def run(pid, c, tier):
    if z3 is None: return subprocess.call(["python3-vt", os.path.join(V, "check.py"), pid, tier])
    t0 = time.time(); viol, incon, kf, hs = [], [], [], []; wit = [0, 0]; smp = []
    tot = dict(paths=0, forks=0, asserts=0, queries=0, solver_s=0.0, bounded=0); funcs = set()
    known = [l for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("finding: property=%s " % pid)]
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for name in c["py"]:
        h = load(name); h.TIER = tier; e = Sym(400 if tier == "quick" else 3000); h.run.__globals__["ENG"] = e
        e.explore(h.run)
        seen = set()
        for i, (lab, cx) in enumerate(e.fail):
            if lab in seen: continue
            f = os.path.join(rdir, "%s_%s_%d.json" % (pid, name, i)); json.dump(dict(property=pid, harness=name, label=lab, tier=tier, **cx), open(f, "w"), indent=1)
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode == 1 and "REPLAY fails" in p.stdout:
                seen.add(lab)
                k = [l for l in known if 'label="%s"' % lab in l]
                if k: kf.append(k[0].split(" ", 2)[2].strip())
                else: viol.append((name, lab, f))
            else: incon.append("%s: %s: counterexample does not fail when replayed: %s" % (name, lab, p.stdout[-300:]))
        incon = [x for x in incon if not any(x.startswith("%s: %s:" % (name, l)) for l in seen)]
        incon += ["%s: %s" % (name, x) for x in sorted(set(e.lost))[:5]]
        miss = [r for r in h.REACH if r not in e.reached]
        if miss and not e.fail: incon.append("%s: not reached: %s" % (name, miss))
        for s in e.samples[:8]:
            f = os.path.join(rdir, "%s_%s_witness.json" % (pid, name)); json.dump(dict(property=pid, harness=name, tier=tier, **s), open(f, "w"))
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            wit[0 if p.returncode == 0 else 1] += 1; smp.append("%s: %s" % (name, json.dumps(s))); os.unlink(f)
        for k, v in (("paths", e.paths), ("forks", e.forks), ("asserts", e.asserts), ("queries", e.queries), ("solver_s", e.solver_s), ("bounded", e.bounded)): tot[k] += v
        funcs |= e.funcs
        hs.append(dict(name=name, paths=e.paths, assertions=e.asserts, queries=e.queries, solver_s=round(e.solver_s, 3), reach=e.reached, labels=e.labels, cut_at_bound=e.bounded))
    viol = viol[:10]
    for x in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (pid, x))
    for hn, lab, f in viol: print("VIOLATION property=%s replay=%s" % (pid, f)); print("  %s: %s" % (hn, lab))
    for x in incon: print("INCONCLUSIVE property=%s %s" % (pid, x))
    rc = 1 if viol else 2 if incon else 0
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 2),
      coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["asserts"], traces_validated_against_impl=wit[0], traces_not_validated=wit[1], samples=smp[:8], bounds=c["bounds"], paths=tot["paths"], paths_cut_at_bound=tot["bounded"],
        assertions=tot["asserts"], queries=tot["queries"], solver_seconds=round(tot["solver_s"], 3), solver="z3 " + z3.get_version_string(), functions_encoded=sorted({n for n, _ in funcs}), functions_encoded_count=len(funcs), files_encoded=sorted({f for _, f in funcs}), harnesses=hs, inconclusive=incon, known_findings=sorted(set(kf)),
        violation_list=[dict(harness=a, label=b, replay=f) for a, b, f in viol]), assumptions=c["assumptions"], violations=len(viol)), open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d solver_s=%.1f wall_s=%.1f result=%s" % (pid, tier, len(c["py"]), tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], time.time() - t0, ["held", "VIOLATION", "inconclusive"][rc]))
    return rc

if __name__ == "__main__":
    sys.modules["pydrv"] = sys.modules["__main__"]
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
