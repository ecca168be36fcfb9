# J01: python_packages/ramp.py rampbias, with symbolic numbers and every pattern of solver outcomes.
import os, sys, types, io, contextlib, math
REPO = os.environ.get("SE_REPO", "/repo"); TIER = "quick"
REACH = ["arrived", "step too small", "other error", "interrupted in callback"]
import py_ramp_pkg as P_
package = P_.package
class error(Exception): pass
class Own(Exception): pass
sys.dont_write_bytecode = True
def run(E):
    import importlib, pydrv
    start, end, step, mins = (E.real(n) for n in ("start", "end", "step", "min_step"))
    E.assume(mins > 0); neg = E.choose(2, "sign of step")
    E.assume(step > 0)
    arg = -step if neg else step
    P = {"top_bias": start}; log = []; LIM = 4 if TIER == "quick" else 6; ended = []
    ds = types.ModuleType("devsim"); ds.error = error
    def get_parameter(device="", region="", name=""):
        E.check(device == "dev" and region == "" and name == "top_bias", "the bias of the contact is used"); return P[name]
    def set_parameter(device="", region="", name="", value=None):
        E.check(device == "dev" and region == "" and name == "top_bias", "the bias of the contact is set"); P[name] = value; log.append(("set", value))
    st = {"n": 0, "last": start, "step": step, "ok": None, "failed": False, "size": step}
    def solve(**kw):
        E.check(kw == dict(type="dc", absolute_error="ae", relative_error="re", maximum_iterations="mi"), "the solver is given the requested limits")
        if st["n"] == LIM: raise pydrv.Stop()
        st["n"] += 1; v = P["top_bias"]; up = st["up"]
        if up: E.check(v > st["last"], "a step goes toward the target"); E.check(v <= end, "a step does not pass the target")
        else: E.check(v < st["last"], "a step goes toward the target"); E.check(v >= end, "a step does not pass the target")
        d = v - st["last"] if up else st["last"] - v
        E.check(E.le(d, st["size"]), "a step is not larger than the step size")
        E.check(E.le(mins, st["size"]) if st["failed"] else True, "no step is tried below the minimum step size")
        full = E.eq(d, st["size"]); at = E.eq(v, end)
        E.check(full | at, "a step has the step size or ends at the target")
        o = E.choose(3, "solver")
        if o == 0: st["ok"] = v; return {}
        if o == 1: st["failed"] = True; st["size"] = st["size"] * 0.5; st["ok"] = None; raise error("Convergence failure!\n")
        m = ("Matrix failure", "Some other Convergence failure", "")[E.choose(3, "message")]; st["other"] = m; raise error(m)
    ds.get_parameter = get_parameter; ds.set_parameter = set_parameter; ds.solve = solve
    for n in ("get_contact_current", "contact_equation", "equation", "interface_equation", "get_contact_list", "contact_edge_model", "contact_node_model", "edge_average_model", "edge_from_node_model", "edge_model", "element_model", "get_edge_model_list", "get_node_model_list", "interface_model", "node_model", "node_solution"):
        setattr(ds, n, lambda *a, **k: E.check(False, "no other command is used"))
    package(ds)
    def callback(device):
        E.check(device == "dev", "the callback is given the device")
        E.check(st["ok"] is not None, "the callback follows a successful solve")
        if st["ok"] is not None: E.check(E.eq(P["top_bias"], st["ok"]), "the bias in the callback is the one that was solved"); st["last"] = st["ok"]
        st["ok"] = None; ended.append(1)
        if st["n"] == 2 and E.choose(2, "callback fails"): raise Own("own")
    st["up"] = bool(start < end)
    with contextlib.redirect_stdout(io.StringIO()):
        m = importlib.import_module("devsim.python_packages.ramp")
        if E.symbolic: m.float = lambda x: x
        how = None
        try: m.rampbias("dev", "top", end, arg, mins, "mi", "re", "ae", callback); how = "arrived"
        except RuntimeError as e: how = "small"; text = str(e)
        except error as e: how = "other"; text = str(e)
        except Own as e: how = "own"
    solved = [v for k, v in log if k == "set"]
    if how == "arrived":
        E.reach("arrived"); d = P["top_bias"] - end
        E.check(E.le(d, mins) , "it ends within the minimum step of the target"); E.check(E.le(-d, mins), "it ends within the minimum step of the target")
        E.check(E.eq(P["top_bias"], st["last"]), "the bias it ends with was solved"); E.check(st["ok"] is None, "every success is reported to the callback"); E.check("other" not in st, "an error is not hidden")
    elif how == "small":
        E.reach("step too small"); E.check(E.eq(P["top_bias"], st["last"]), "after giving up the bias is the last one that was solved"); E.check(st["size"] < mins, "it gives up only below the minimum step size"); E.check(st["ok"] is None and "other" not in st, "it gives up only after a failure")
    elif how == "other": E.reach("other error"); E.check(st.get("other") == text, "errors other than a convergence failure are passed on")
    else: E.reach("interrupted in callback")
