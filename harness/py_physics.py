# J02: the packaged physics scripts: what they register with the simulator, for every combination of options and of models that exist already.
# The numbers in the expressions are the symbolic quantities: every derivative model is compared with the derivative of its model for all values.
import os, sys, types, io, contextlib, re, math
REPO = os.environ.get("SE_REPO", "/repo"); TIER = "quick"
REACH = ["contact values", "silicon", "oxide", "interface", "equilibrium", "mobility"]
sys.dont_write_bytecode = True
TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([A-Za-z_][A-Za-z_0-9]*(?:[:@][A-Za-z_][A-Za-z_0-9]*)*)|(>=|<=|==|!=|&&|\|\||[-+*/^(),<>!]))")
class Bad(Exception): pass
def parse(s):
    t = []; i = 0; s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Bad("cannot read expression " + s)
        t.append(("n", m.group(1)) if m.group(1) else ("v", m.group(2)) if m.group(2) else ("o", m.group(3))); i = m.end()
    t.append(("e", "")); p = [0]
    def pk(): return t[p[0]][1] if t[p[0]][0] == "o" else None
    def nx(): p[0] += 1; return t[p[0] - 1]
    def need(c):
        if pk() != c: raise Bad("cannot read expression " + s)
        p[0] += 1
    def rel():
        a = add()
        while pk() in (">", "<", ">=", "<=", "==", "!="): o = nx()[1]; a = ("rel", o, a, add())
        return a
    def add():
        a = mul()
        while pk() in ("+", "-"): o = nx()[1]; b = mul(); a = ("+", a, b if o == "+" else ("neg", b))
        return a
    def mul():
        a = una()
        while pk() in ("*", "/"): o = nx()[1]; a = (o, a, una())
        return a
    def una():
        if pk() in ("-", "+"): o = nx()[1]; a = una(); return ("neg", a) if o == "-" else a
        return powr()
    def powr():
        a = atom()
        if pk() == "^": nx(); return ("^", a, una())
        return a
    def atom():
        k, v = nx()
        if k == "n": return ("num", float(v))
        if k == "v":
            if pk() == "(":
                nx(); a = []
                if pk() != ")":
                    a.append(rel())
                    while pk() == ",": nx(); a.append(rel())
                need(")"); return ("fun", v) + tuple(a)
            return ("var", v)
        if v == "(": a = rel(); need(")"); return a
        raise Bad("cannot read expression " + s)
    r = rel()
    if t[p[0]][0] != "e": raise Bad("cannot read expression " + s)
    return r
def names(a):
    if a[0] == "var": return {a[1]}
    r = set()
    for x in a[1:]:
        if isinstance(x, tuple): r |= names(x)
    return r
ONE, ZERO = ("num", 1.0), ("num", 0.0)
def D(a, f): # derivative of an expression, f(name) is the derivative of a name (an expression)
    k = a[0]
    def pl(x, y): return y if x == ZERO else x if y == ZERO else ("+", x, y)
    def ti(x, y): return ZERO if ZERO in (x, y) else y if x == ONE else x if y == ONE else ("*", x, y)
    if k == "num": return ZERO
    if k == "var": return f(a[1])
    if k == "neg": d = D(a[1], f); return d if d == ZERO else ("neg", d)
    if k == "+": return pl(D(a[1], f), D(a[2], f))
    if k == "*": return pl(ti(D(a[1], f), a[2]), ti(a[1], D(a[2], f)))
    if k == "/": return pl(ti(D(a[1], f), ("/", ONE, a[2])), ti(("neg", ("/", a[1], ("*", a[2], a[2]))), D(a[2], f)))
    if k == "^": return pl(ti(D(a[1], f), ("*", a[2], ("^", a[1], ("+", a[2], ("num", -1.0))))), ti(D(a[2], f), ("*", a, ("fun", "log", a[1]))))
    if k == "rel": return ZERO
    n, x = a[1], a[2:]
    if n in ("pow",): return D(("^",) + x, f)
    if n in ("diff", "simplify"): raise Bad("derivative of a derivative")
    if n in ("kahan3", "kahan4"):
        r = ZERO
        for y in x: r = pl(r, D(y, f))
        return r
    if n == "ifelse": p, q = D(x[1], f), D(x[2], f); return ZERO if p == q == ZERO else ("fun", "ifelse", x[0], p, q)
    if n == "max": p, q = D(x[0], f), D(x[1], f); return ZERO if p == q == ZERO else ("fun", "ifelse", ("rel", ">=", x[0], x[1]), p, q)
    if n == "min": p, q = D(x[0], f), D(x[1], f); return ZERO if p == q == ZERO else ("fun", "ifelse", ("rel", "<=", x[0], x[1]), p, q)
    one = {"exp": lambda y: a, "log": lambda y: ("/", ONE, y), "B": lambda y: ("fun", "dBdx", y), "abs": lambda y: ("fun", "sgn", y), "sqrt": lambda y: ("/", ("num", 0.5), a)}
    if n in one and len(x) == 1: return ti(D(x[0], f), one[n](x[0]))
    if all(D(y, f) == ZERO for y in x): return ZERO
    raise Bad("derivative of function " + n)
class Val: # values of expressions, as Z3 terms (or as floating point numbers when a counterexample is replayed)
    def __init__(self, E): self.E = E; self.v = {}; self.uf = {}; self.inverses = {}; self.pz = {}
    def name(self, n, positive=False):
        if n not in self.v:
            x = self.E.real(n); self.v[n] = x
            if positive: self.E.given(x > 0)
        return self.v[n]
    def fun(self, n, a):
        if not self.E.symbolic:
            x = a[0]
            if n == "exp": return math.exp(x)
            if n == "log": return math.log(x)
            if n == "sgn": return (x > 0) - (x < 0)
            if n == "B": return x / math.expm1(x) if x else 1.0
            if n == "dBdx": e = math.expm1(x); return (e - x * (e + 1)) / (e * e) if abs(x) > 1e-4 else -0.5 + x / 6
            return math.sin(x + sum(map(ord, n)))
        import z3, pydrv # one unknown for each function and argument
        k = (n,) + tuple(str(z3.simplify(pydrv.zz(x), som=True)) for x in a)
        if k not in self.uf:
            self.uf[k] = pydrv.S(z3.FreshReal(n))
            if n in ("exp", "pow"): self.E.given(self.uf[k] > 0)
        return self.uf[k]
    def ev(self, a):
        k = a[0]
        if k == "num": return a[1]
        if k == "var": return self.lookup(a[1])
        if k == "neg": return -self.ev(a[1])
        if k == "+": return self.ev(a[1]) + self.ev(a[2])
        if k == "*": return self.ev(a[1]) * self.ev(a[2])
        if k == "/": return self.ev(a[1]) * self.inv(a[2])
        if k == "^": return self.pw(a[1], a[2])
        n, x = a[1], a[2:]
        if n == "pow": return self.pw(*x)
        if n in ("kahan3", "kahan4"):
            r = self.ev(x[0])
            for y in x[1:]: r = r + self.ev(y)
            return r
        if n in ("ifelse", "max", "min"):
            if n == "ifelse": c, p, q = self.cond(x[0]), x[1], x[2]
            elif n == "max": c, p, q = self.cond(("rel", ">=", x[0], x[1])), x[0], x[1]
            else: c, p, q = self.cond(("rel", "<=", x[0], x[1])), x[0], x[1]
            return self.ev(p) if bool(c) else self.ev(q)
        if n == "abs": return abs(self.ev(x[0]))
        if n == "diff" or n == "simplify": raise Bad("unexpected " + n)
        return self.fun(n, [self.ev(y) for y in x])
    def cond(self, a):
        if a[0] != "rel": return self.ev(a) != 0
        x, y = self.ev(a[2]), self.ev(a[3]); return {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[a[1]]()
    def inv(self, a):
        k = repr(a)
        if k not in self.pz:
            x = self.ev(a)
            if not self.E.symbolic: self.pz[k] = 1.0 / x if x else self.E.assume(False)
            else:
                import z3, pydrv
                c = str(z3.simplify(pydrv.zz(x), som=True)) # the same value has the same inverse
                if c not in self.inverses: r = pydrv.S(z3.FreshReal("inv")); self.E.given(r * x == 1.0); self.inverses[c] = r
                self.pz[k] = self.inverses[c]
        return self.pz[k]
    def pw(self, b, e):
        c = const(e)
        if c is not None and c == int(c) and abs(c) < 20:
            n = int(abs(c)); x = self.ev(b) if c >= 0 else self.inv(b); r = 1.0
            for i in range(n): r = r * x if i else x
            return r
        x = self.ev(b); ww = getattr(self, "E")
        if not ww.symbolic: return math.pow(x, self.ev(e))
        ww.given(x > 0)
        # b^(e - 1) = b^e / b
        base, n = e, 0
        while base[0] == "+" and const(base[2]) is not None and const(base[2]) == int(const(base[2])): n += int(const(base[2])); base = base[1]
        if const(base) is not None: cc = const(base) + n; n = math.floor(cc); ex = cc - n; y = ex
        else: y = self.ev(base)
        r = self.fun("pow", [x, y])
        if const(base) is not None and y == 0.5: self.E.given(r * r == x)
        for i in range(abs(n)): r = r * x if n > 0 else r * self.inv(b)
        return r
def const(a):
    if a[0] == "num": return a[1]
    if a[0] == "neg": c = const(a[1]); return None if c is None else -c
    if a[0] in "+*/" and len(a) == 3:
        x, y = const(a[1]), const(a[2])
        if x is None or y is None: return None
        return x + y if a[0] == "+" else x * y if a[0] == "*" else x / y if y else None
    return None
class Sim: # what the scripts register
    def __init__(self, E, exists): self.E = E; self.node = {}; self.edge = {}; self.con = {}; self.ifc = {}; self.elem = {}; self.sol = []; self.eqs = []; self.ceqs = []; self.ieqs = []; self.par = {}; self.avg = []; self.exists = exists; self.hand = set()
    def kinds(self, kind): return {"node": [self.node], "edge": [self.edge], "con": [self.con, self.node], "elem": [self.elem, self.edge], "ifc": [self.ifc]}[kind]
    def has(self, kind, n): return any(n in k for k in self.kinds(kind))
    def get(self, kind, n): return [k[n] for k in self.kinds(kind) if n in k][0]
    def expr(self, kind, s): # simplify(...) and diff(...) as the simulator resolves them when the model is created
        s = s.strip(); a = parse(s)
        def res(a):
            if a[0] == "fun" and a[1] == "simplify" and len(a) == 3: return res(a[2])
            if a[0] == "fun" and a[1] == "diff" and len(a) == 4 and a[3][0] == "var":
                w = a[3][1]; return D(res(a[2]), lambda r: ONE if r == w else ("var", r + ":" + w) if self.has(kind, r + ":" + w) else ZERO)
            return tuple(res(x) if isinstance(x, tuple) else x for x in a)
        return res(a)
    def add(self, store, kind, name, s): store[name] = self.expr(kind, s); self.hand.add(name) if not re.search(r"\bdiff\(", s) else self.hand.discard(name)
    def base(self, kind, v): return ("sol",)
SOLS = ("Potential", "Electrons", "Holes")
def deps(sim, kind, n, seen=None): # the solution variables (as named in this context) a name depends on
    if ":" in n: return set()
    if kind in ("node", "con"):
        if n in sim.sol: return {n}
        for k in (["con"] if kind == "con" else []) + ["node"]:
            st = sim.con if k == "con" else sim.node
            if n in st: return set().union(*[deps(sim, kind, x) for x in names(st[n])]) if names(st[n]) else set()
        return {n} if n in sim.extra else set()
    if kind in ("edge", "elem"):
        for e in ("@en0", "@en1", "@en2") if kind == "elem" else ("@n0", "@n1"):
            if n.endswith(e): return {x + e for x in deps(sim, "node", n[:-len(e)])}
        if kind == "elem" and n in sim.elem: r = [deps(sim, "elem", x) for x in names(sim.elem[n])]; return set().union(*r) if r else set()
        if n in sim.edge:
            x = sim.edge[n]
            if x[0] == "avg": r = {v + e for v in deps(sim, "node", x[1]) for e in ("@n0", "@n1")}
            else: r = [deps(sim, "edge", y) for y in names(x)]; r = set().union(*r) if r else set()
            return {v.replace("@n", "@en") for v in r} if kind == "elem" else r
        return set()
    if kind == "ifc":
        for e in ("@r0", "@r1"):
            if n.endswith(e): return {x + e for x in deps(sim, "node", n[:-3])}
        return set().union(*[deps(sim, "ifc", x) for x in names(sim.ifc[n])]) if n in sim.ifc else set()
def run(E):
    import importlib, pydrv
    sim = Sim(E, {}); sim.extra = set(); ds = types.ModuleType("devsim"); ds.error = Exception; why = []
    T = lambda c, l: E.check(bool(c), l)
    ds.set_parameter = lambda device="", region="", name="", value=None: sim.par.__setitem__(name, value)
    ds.get_parameter = lambda **k: 0.0
    ds.get_contact_current = lambda **k: 0.0
    ds.get_node_model_list = lambda device, region: tuple(sim.node) + tuple(sim.sol)
    ds.get_edge_model_list = lambda device, region: tuple(sim.edge)
    def chk(**k):
        for a, b in k.items(): T(b == {"device": "dev", "region": "reg", "contact": "top", "interface": "itf"}[a], "the models are registered where they were asked for")
    def node_solution(device="", region="", name=""): chk(device=device, region=region); sim.sol.append(name)
    def edge_from_node_model(device="", region="", node_model=""): chk(device=device, region=region); T(node_model in sim.sol or node_model in sim.node, "a model carried to the edges exists"); sim.edge[node_model + "@n0"] = ("var", node_model + "@n0"); sim.edge[node_model + "@n1"] = ("var", node_model + "@n1")
    def node_model(device="", region="", name="", equation="", **k): chk(device=device, region=region); sim.add(sim.node, "node", name, equation); return equation
    def edge_model(device="", region="", name="", equation="", **k): chk(device=device, region=region); sim.add(sim.edge, "edge", name, equation); return equation
    def element_model(device="", region="", name="", equation="", **k): chk(device=device, region=region); sim.add(sim.elem, "elem", name, equation); return equation
    def contact_node_model(device="", contact="", name="", equation="", **k): chk(device=device, contact=contact); sim.add(sim.con, "con", name, equation); return equation
    def interface_model(device="", interface="", name="", equation="", **k): chk(device=device, interface=interface); sim.add(sim.ifc, "ifc", name, equation); return equation
    def edge_average_model(device="", region="", edge_model="", node_model="", derivative="", average_type="arithmetic"):
        chk(device=device, region=region); T(node_model in sim.node or node_model in sim.sol, "an averaged model exists")
        if not derivative: sim.edge[edge_model] = ("avg", node_model, average_type); return
        T(edge_model in sim.edge and sim.edge[edge_model][1:] == (node_model, average_type), "the derivative of an average is that of the average")
        T(node_model + ":" + derivative in sim.node or derivative not in deps(sim, "node", node_model), "an averaged model has the derivative")
        for e in ("@n0", "@n1"): sim.edge[edge_model + ":" + derivative + e] = ("avgd", edge_model)
    def equation(**k): chk(device=k.pop("device"), region=k.pop("region")); sim.eqs.append(k)
    def contact_equation(**k): chk(device=k.pop("device"), contact=k.pop("contact")); sim.ceqs.append(k)
    def interface_equation(**k): chk(device=k.pop("device"), interface=k.pop("interface")); sim.ieqs.append(k)
    for f in (node_solution, edge_from_node_model, node_model, edge_model, element_model, contact_node_model, interface_model, edge_average_model, equation, contact_equation, interface_equation): setattr(ds, f.__name__, f)
    ds.contact_edge_model = lambda **k: T(False, "no contact edge model is used"); ds.get_contact_list = lambda **k: []
    import py_ramp_pkg as P
    P.package(ds)
    flow = E.choose(4, "script")
    with contextlib.redirect_stdout(io.StringIO()):
        m = importlib.import_module("devsim.python_packages.simple_physics")
        drift = False
        if flow == 0 or flow == 3: # silicon
            if E.choose(2, "Potential exists"): m.CreateSolution("dev", "reg", "Potential")
            circ = bool(E.choose(2, "circuit")); m.SetSiliconParameters("dev", "reg", 300); early = flow == 0 and E.choose(2, "contact before")
            m.CreateSiliconPotentialOnly("dev", "reg")
            if flow == 0: m.CreateSiliconPotentialOnlyContact("dev", "reg", "top", circ)
            if circ: sim.extra.add("top_bias")
            if flow == 0: audit(E, sim, circ, ("Potential",))
            drift = flow == 3 or E.choose(2, "drift diffusion")
            if drift:
                m.CreateSolution("dev", "reg", "Electrons"); m.CreateSolution("dev", "reg", "Holes")
                mob = E.choose(3, "mobility") if flow == 3 else 0
                if mob == 1:
                    k = importlib.import_module("devsim.python_packages.Klaassen"); k.Set_Mobility_Parameters("dev", "reg"); k.Klaassen_Mobility("dev", "reg")
                    m.CreateSiliconDriftDiffusion("dev", "reg", "mu_bulk_e", "mu_bulk_h")
                elif mob == 2: m.CreateSiliconDriftDiffusion("dev", "reg", mu_p="mu_n", mu_n="mu_p")
                else: m.CreateSiliconDriftDiffusion("dev", "reg")
                if flow == 0: m.CreateSiliconDriftDiffusionAtContact("dev", "reg", "top", circ)
                sim.eqs = [e for i, e in enumerate(sim.eqs) if not any(f["name"] == e["name"] for f in sim.eqs[i + 1:])]
                if flow == 0: sim.ceqs = [e for i, e in enumerate(sim.ceqs) if not any(f["name"] == e["name"] for f in sim.ceqs[i + 1:])]
            if flow == 3: E.reach("mobility")
            else: E.reach("silicon")
        elif flow == 1:
            circ = False; drift = False; st = E.choose(2, "silicon first")
            if E.choose(2, "Potential exists"): m.CreateSolution("dev", "reg", "Potential")
            u = ("default", "log_damp")[E.choose(2, "update")]
            m.SetOxideParameters("dev", "reg", 300); m.CreateOxidePotentialOnly("dev", "reg", u); m.CreateOxideContact("dev", "reg", "top"); E.reach("oxide")
            T([e["variable_update"] for e in sim.eqs] == [u], "the requested update is used")
        else:
            circ = False; both = E.choose(2, "silicon on both sides"); sim.sol = list(SOLS)
            (m.CreateSiliconSiliconInterface if both else m.CreateSiliconOxideInterface)("dev", "itf")
            T(sorted((e["name"], e["type"]) for e in sim.ieqs) == sorted([("PotentialEquation", "continuous")] + ([("ElectronContinuityEquation", "continuous"), ("HoleContinuityEquation", "continuous")] if both else [])), "one continuity condition for each variable")
            for e in sim.ieqs:
                v = {"PotentialEquation": "Potential", "ElectronContinuityEquation": "Electrons", "HoleContinuityEquation": "Holes"}[e["name"]]
                T(deps(sim, "ifc", e["interface_model"]) == {v + "@r0", v + "@r1"}, "the interface compares the variable of the equation")
            E.reach("interface")
    audit(E, sim, circ, ("Potential", "Electrons", "Holes") if drift else ("Potential",))
    if flow == 0: physics(E, sim, drift)
def audit(E, sim, circ, vars_):
    T = lambda c, l: E.check(bool(c), l)
    base = set(sim.par) | set(sim.sol) | {"NetDoping", "EdgeInverseLength", "top_bias", "Donors", "Acceptors", "EdgeLength", "n_i"}
    val = Val(E)
    def total(kind, r, w): return w in deps(sim, kind, r)
    def look(kind):
        def f(n):
            if ":" in n:
                r, w = n.split(":", 1)
                k = "edge" if kind == "elem" and n in sim.edge else kind
                T(sim.has(kind, n), "an expression uses only models that exist"); return val.name(n) if total(kind, r, w) else 0.0
            b = re.sub(r"@(n[01]|en[012]|r[01])$", "", n)
            T(sim.has(kind, n) or n in base or (kind == "ifc" and b in sim.sol) or (kind == "con" and (n in base)), "an expression uses only models that exist")
            if kind in ("edge", "elem") and "@" in n: T(n in sim.edge or kind == "elem", "an expression uses only models that exist")
            return val.name(n, positive=n not in ("NetDoping", "Potential", "Potential@n0", "Potential@n1", "vdiff", "top_bias"))
        return f
    def check(kind, store):
        for n in [x for x in store if ":" in x]:
            r, w = n.split(":", 1); x = store[n]
            if x[0] in ("avg", "avgd") or (r in sim.edge and sim.edge[r][0] == "avg"): continue
            T(r in store, "a derivative belongs to a model")
            if r not in store: continue
            own = look(kind)
            def leaf(s): return s in sim.sol or "@" in s or s in sim.extra
            def chain(w): return D(store[r], lambda s: ONE if s == w else ("var", s + ":" + w) if s != r and total(kind, s, w) and not leaf(s) else ZERO)
            want = chain(w)
            def first(s): # another derivative of the same model: checked on its own
                if s.startswith(r + ":") and s != n:
                    T(sim.has(kind, s), "an expression uses only models that exist"); return val.ev(chain(s[len(r) + 1:]))
                return own(s)
            val.lookup = first; got = val.ev(x)
            def lk(s):
                if ":" in s: return val.name(s)
                return look(kind)(s)
            val.lookup = lk; exp = val.ev(want); E.check(E.eq(got, exp), "a derivative model is the derivative of its model: " + n)
            if n in sim.hand and n not in val.v: val.v[n] = got # not created by diff
    check("node", sim.node); check("edge", sim.edge); check("con", sim.con); check("ifc", sim.ifc)
    # models of the equations: every derivative the simulator looks up is there
    for e in sim.eqs:
        T(e["name"] in {"Potential": "PotentialEquation", "Electrons": "ElectronContinuityEquation", "Holes": "HoleContinuityEquation"}[e["variable_name"]], "the equation has its variable")
        for o, v in e.items():
            if not o.endswith("_model") or not v: continue
            kind = "edge" if o.startswith("edge") else "elem" if o.startswith("element") else "node"
            T(sim.has(kind, v), "the models of an equation exist")
            if sim.has(kind, v):
                for w in deps(sim, kind, v): T(sim.has(kind, v + ":" + w), "the models of an equation have the derivatives the simulator looks up: " + v + ":" + w)
    T(sorted(e["variable_name"] for e in sim.eqs) == sorted(vars_) or not sim.eqs, "one equation for each variable")
    names_ = [e["name"] for e in sim.ceqs]; T(len(set(names_)) == len(names_), "one contact equation for each equation")
    if sim.eqs and sim.ceqs: T(sorted(names_) == sorted(e["name"] for e in sim.eqs), "a contact equation for each equation")
    for e in sim.ceqs:
        T((e.get("circuit_node", "") == "top_bias") == circ, "the contact is connected to the circuit node when requested")
        for o, v in e.items():
            if not o.endswith("_model") or not v: continue
            kind = "edge" if o.startswith("edge") else "con"
            T(sim.has(kind, v), "the models of a contact equation exist")
            if sim.has(kind, v):
                for w in deps(sim, kind, v): T(sim.has(kind, v + ":" + w), "the models of a contact equation have the derivatives the simulator looks up: " + v + ":" + w)
    for e in sim.ieqs:
        v = e["interface_model"]; T(v in sim.ifc, "the models of an interface equation exist")
        if v in sim.ifc:
            for w in deps(sim, "ifc", v): T(v + ":" + w in sim.ifc, "the models of an interface equation have the derivatives the simulator looks up: " + v + ":" + w)
            val.lookup = look("ifc"); q = sorted(names(sim.ifc[v])); 
            if len(q) == 2: E.assume(E.eq(val.lookup(q[0]), val.lookup(q[1]))); E.check(E.eq(val.ev(sim.ifc[v]), 0.0), "the interface condition is met by equal values")
def physics(E, sim, drift):
    val = Val(E); psi = {"": val.name("psi"), "@n0": val.name("psi0"), "@n1": val.name("psi1")}; vt, ni = val.name("V_t", True), val.name("n_i", True); dop = val.name("NetDoping"); E.given(dop != 0) if E.symbolic else None; mode = {"eq": True}
    def ex(x): # exp with the laws used here: exp(-x) = 1 / exp(x)
        return val.fun("exp", [x])
    if not E.symbolic: # values for the replay of a counterexample stay in range
        pass
    val.lookup = lambda n: {"V_t": vt}[n]
    e = {k: ex(p * val.inv(("var", "V_t"))) for k, p in psi.items()}
    einv = {k: E.real("1/e" + k) if E.symbolic else 1.0 / e[k] for k in e}
    for k in e: E.given(einv[k] * e[k] == 1.0) if E.symbolic else None
    def lookup(n):
        m = re.match(r"(\w+?)(@n[01])?$", n); b, s = m.group(1), m.group(2) or ""
        if b == "Potential": return psi[s]
        if b == "V_t": return vt
        if b == "n_i": return ni
        if b == "NetDoping": return dop
        if b == "Electrons": return ni * e[s]
        if b == "Holes": return ni * einv[s]
        if n in sim.con: return val.ev(sim.con[n])
        if n in sim.node and b not in sim.par: return val.ev(sim.node[n])
        if n in sim.edge and sim.edge[n] != ("var", n): return val.ev(sim.edge[n])
        return val.name(n, True)
    val.lookup = lookup
    E.check(E.eq(val.ev(sim.node["IntrinsicElectrons"]), ni * e[""]), "electrons at equilibrium"); E.check(E.eq(val.ev(sim.node["IntrinsicHoles"]) * e[""], ni), "holes at equilibrium")
    E.reach("equilibrium")
    if not drift: return
    E.check(E.eq(val.ev(sim.node["USRH"]), 0.0), "no recombination at equilibrium")
    # B(x) (exp(x) - 1) = x, exp(x0 - x1) = exp(x0) / exp(x1)
    vd = val.ev(sim.edge["vdiff"]); b = val.fun("B", [vd]); r = e["@n0"] * einv["@n1"]
    if E.symbolic: E.given(b * (r - 1.0) == vd)
    for c in ("ElectronCurrent", "HoleCurrent"): E.check(E.eq(val.ev(sim.edge[c]), 0.0), "no current at equilibrium")
    val.lookup = lambda n: val.name(n, n not in ("NetDoping", "Potential", "vdiff", "Potential@n0", "Potential@n1")) if n not in sim.con and (n in sim.par or (n not in sim.node and (n not in sim.edge or sim.edge[n] == ("var", n)))) else val.ev((sim.con.get(n) or sim.node.get(n) or sim.edge[n]))
    E.check(E.eq(val.ev(sim.node["ElectronGeneration"]) + val.ev(sim.node["HoleGeneration"]), 0.0), "recombination removes as many electrons as holes")
    q = val.name("ElectronCharge", True)
    E.check(E.eq(val.ev(sim.node["NCharge"]) + val.ev(sim.node["PCharge"]) + q * dop, q * (val.name("Holes", True) - val.name("Electrons", True) + dop)), "the charges of the continuity equations")
    E.check(E.eq(val.ev(sim.node["PotentialNodeCharge"]) + val.ev(sim.node["NCharge"]) + val.ev(sim.node["PCharge"]) + q * dop, 0.0), "the charge of the potential equation is that of the carriers and dopants")
    u = val.ev(sim.node["USRH"]); E.check(E.eq(val.ev(sim.node["ElectronGeneration"]), -q * u), "sign of the recombination current")
    # flux of both carriers changes sign when nodes are exchanged is not claimed; contact values: n p = n_i^2 and charge neutrality
    if any(n.endswith("nodeelectrons") for n in sim.con):
        ne = val.name("Electrons", True) - val.ev(sim.con["topnodeelectrons"]); nh = val.name("Holes", True) - val.ev(sim.con["topnodeholes"])
        E.check(E.eq(ne * nh, ni * ni), "the contact values obey the mass action law")
        c, d = (val.name("Electrons", True) - val.ev(sim.con["topnodeelectrons"]), dop) if bool(dop > 0) else (val.name("Holes", True) - val.ev(sim.con["topnodeholes"]), -dop)
        E.check(E.le(c * (c - d) - ni * ni, 1e-9 * (2 * c + d)), "the contact values are neutral"); E.check(E.le(ni * ni - c * (c - d), 1e-9 * (2 * c + d)), "the contact values are neutral"); E.reach("contact values")
