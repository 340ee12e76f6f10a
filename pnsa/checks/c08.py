"""C08: step control of the ODE solvers (acceptance, step sizes, stop points, rejected attempts)."""
from __future__ import annotations

from .. import vn as V
from ..common import public_class
from ..oblig import SELF
from . import c09
from .c09 import L, arr, at, sym, syms, unit

LEVEL = "bounded-exhaustive over order types"
EXPLANATION = (
    "The solver loop, the accept/reject loop and the stop-point adjustment are evaluated to terms by value numbering for every "
    "order type of suggested step, remaining time and stop points over up to three steps; attempts, error norms and "
    "suggestions are uninterpreted functions of what they are given. Attempts are also evaluated in sequence: the value of an "
    "attempt after a rejected one must be the value it has on its own. Step-size rules are compared with their formulas."
)
ASSUMPTIONS = [
    "Loops treat steps uniformly: control that is right for three consecutive steps is right for more.",
    "Stop locations are given in increasing order; floating-point rounding of times is not modelled.",
]


class Job(c09.Job):
    RULE = "step-control"

    def fact(self, what, f, ok, detail):
        """An obligation decided directly on the recorded events."""
        self.res.count("obligations")
        if ok:
            self.res.count("obligations decided")
        else:
            from ..common import loc
            self.res.add(self.RULE, f"{f.qual}: {what}", f"{what}: {detail}", **loc(f))


def callee(fn):
    return fn[2].split(".")[-1] if fn[0] in ("at", "bound") else str(fn[1]).split(".")[-1] if fn[0] in ("pfunc", "ext", "class") else ""


def bound(names, args, kwargs):
    d = dict(zip(names, args))
    d.update({k: v for k, v in kwargs if k})
    return d


def call(nm, *xs):
    return ("call", nm, tuple(xs), ())


def minus(a, b):
    return ("bin", "-", a, b)


# ------------------------------------------------------------------ step rules
def rules(J):
    pre = "probnum.diffeq.stepsize."
    cls = public_class(J.p, pre + "AdaptiveSteps")
    A = {k: sym(k) for k in ("atol", "rtol", "limitchange", "safetyscale", "minstep", "maxstep", "firststep")}
    small, large = sym("s1"), sym("s2")
    A["limitchange"] = ("tup", (small, large))
    J.scalars |= {sym(k) for k in ("laststep", "scaled_error", "localconvrate", "safetyscale", "minstep", "maxstep", "s1", "s2", "firststep")}
    ev = J.eval({})
    vn = ev.new_vn()
    st = ev.state(cls, vn, A)
    f = cls.find("errorest_to_norm")
    impl, _ = ev.method(cls, f.name, {}, vn=vn, state=st)
    ref = lambda s, e=None: ev.text(s, f, cls, vn, {"np": ("ext", "numpy"), "e": sym("errorest"), "r": sym("reference_state"), **A, **(e or {})})
    R = ref("e / (atol + rtol * np.abs(r))")
    J.decide("scaled error", f, impl, [ref(s, {"R": R}) for s in (
        "np.linalg.norm(R) / np.sqrt(len(R) if R.ndim > 0 else 1)", "np.linalg.norm(R) / np.sqrt(R.size)", "np.sqrt(np.mean(R ** 2))")],
        known={"abs", "numpy.abs", "builtins.len", "linalg.norm", "sqrt"}, max_conds=4)
    f = cls.find("suggest")
    impl, _ = ev.method(cls, f.name, {}, vn=vn, state=st)
    # the regions are decided by values: (change, convergence rate)
    from fractions import Fraction as F
    for label, lo, hi, want in (("small change", F(3, 2), F(8), small), ("large change", F(1, 8), F(2, 3), large), ("moderate change", F(1, 4), F(4), None)):
        for rate, sign in ((r, s_) for r in (1, 2, 3, 4, 5, 6) for s_ in (1, -1)):
            v = F(2) ** (sign * 60 // rate)
            ranks = {small: lo * v, large: hi * v, sym("laststep"): 1, sym("scaled_error"): F(2) ** (-60 * sign), sym("safetyscale"): 1, sym("minstep"): F(1, 2 ** 70), sym("maxstep"): 2 ** 70}
            impl, _ = J.eval(ranks).method(cls, f.name, {"localconvrate": ("c", rate)}, state=st)
            w = want or ref("safetyscale * (1.0 / scaled_error) ** (1.0 / rate)", {"scaled_error": sym("scaled_error"), "rate": ("c", rate)})
            J.decide(f"suggested step for a {label} at rate {rate}, error {'below' if sign > 0 else 'above'} one", f, impl, [("bin", "*", w, sym("laststep"))], known={"bin:**", "pow"})
            step = ranks[want] if want else v
            for lim, bd in (("minstep", step * 2), ("maxstep", step / 2)):
                impl, _ = J.eval({**ranks, sym(lim): bd}).method(cls, f.name, {"localconvrate": ("c", rate)}, state=st)
                if impl is None or impl == V.RAISE:
                    J.fact(f"step beyond {lim} for a {label} at rate {rate}, error {'below' if sign > 0 else 'above'} one", f, True, "")
                elif impl[0] == "bin":
                    J.fact(f"step beyond {lim} for a {label} at rate {rate}, error {'below' if sign > 0 else 'above'} one", f, False, f"a step beyond {lim} is returned instead of an error")
                else:
                    J.res.undecided.append(f"{f.qual}: limit {lim} not decided")
    f = cls.find("is_accepted")
    for label, r, want in (("well below", "1/2", True), ("just below", "999/1000", True), ("exactly", 1, False), ("just above", "1001/1000", False), ("well above", 2, False)):
        from fractions import Fraction as F
        ev2 = J.eval({sym("scaled_error"): F(r)})
        impl, _ = ev2.method(cls, f.name, {"scaled_error": sym("scaled_error")}, state=st)
        if impl is not None and impl[0] == "c":
            J.fact(f"acceptance of an error {label} one", f, bool(impl[1]) == want, f"answers {impl[1]}")
        else:
            J.res.undecided.append(f"{f.qual}: acceptance not decided")
    init = cls.find("__init__")
    fr = V.Frame(vn, init, dict(st), cls)
    J.decide("first step of the adaptive rule", init, fr.attr(SELF, "firststep"), [sym("firststep")])
    cls = public_class(J.p, pre + "ConstantSteps")
    ev = J.eval({})
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"stepsize": sym("t1")})
    fr = V.Frame(vn, cls.find("__init__"), dict(st), cls)
    J.decide("first step of the constant rule", cls.find("__init__"), fr.attr(SELF, "firststep"), [sym("t1")])
    impl, _ = ev.method(cls, "suggest", {}, vn=vn, state=st)
    J.decide("constant suggestion", cls.find("suggest"), impl, [sym("t1")])
    impl, _ = ev.method(cls, "is_accepted", {}, vn=vn, state=st)
    if impl is not None and impl[0] == "c":
        J.fact("constant steps are accepted", cls.find("is_accepted"), impl[1] is True, f"answers {impl[1]}")


# ------------------------------------------------------------------ accept / reject
def full_step(J):
    cls = public_class(J.p, "probnum.diffeq.ODESolver")
    f = cls.find("perform_full_step")
    rule, s0, order = sym("steprule"), sym("state"), sym("order")
    J.scalars |= {order, at(s0, "t"), at(at(s0, "ivp"), "tmax")}
    tmax, t0, dt0 = at(at(s0, "ivp"), "tmax"), at(s0, "t"), sym("t9")
    for rejects in (0, 1, 2):
        # value of each suggestion: below or above what remains
        for pattern in range(2 ** (rejects + 1)):
            big = [bool(pattern >> k & 1) for k in range(rejects + 1)]
            log = []
            a = syms("attempt", 4)
            sug = syms("d", 4)
            ranks = {t0: 0, tmax: 8, dt0: 4}
            for k in range(rejects + 1):
                ranks[at(a[k], "t")] = 4 - k
                ranks[sug[k]] = 20 if big[k] else 2 if k < rejects else 1
                ranks[at(at(a[k], "ivp"), "tmax")] = 8
                J.scalars |= {at(a[k], "t"), sug[k], at(at(a[k], "ivp"), "tmax")}

            def s(fr, fn, args, kwargs):
                nm = callee(fn)
                if nm == "attempt_step":
                    log.append(("attempt", bound(("state", "dt"), args, kwargs)))
                    return a[min(3, sum(1 for x in log if x[0] == "attempt") - 1)]
                if nm == "errorest_to_norm":
                    d = bound(("errorest", "reference_state"), args, kwargs)
                    return call("norm", d.get("errorest", V.NONE), d.get("reference_state", V.NONE))
                if nm == "is_accepted":
                    log.append(("test", bound(("scaled_error",), args, kwargs)))
                    return ("c", sum(1 for x in log if x[0] == "test") > rejects)
                if nm == "suggest":
                    log.append(("suggest", bound(("laststep", "scaled_error", "localconvrate"), args, kwargs)))
                    return sug[min(3, sum(1 for x in log if x[0] == "suggest") - 1)]
                if nm == "method_callback":
                    log.append(("callback", bound(("state",), args, kwargs)))
                    return V.NONE
                return None

            ev = J.eval(ranks, summaries=s)
            st = {("@", SELF, "steprule"): rule, ("@", SELF, "order"): order}
            dtname = [x.arg for x in f.node.args.args if x.arg not in ("self", "state")]
            impl, _ = ev.method(cls, f.name, {"state": s0, **{n: dt0 for n in dtname[:1]}}, state=st)
            label = f"step with {rejects} rejected attempts, suggestions " + "/".join("beyond the end" if b else "inside" for b in big)
            out = V.finite(V.strip_raise(impl) or V.NONE) if impl is not None else None
            at_ = [d for k, d in log if k == "attempt"]
            if out is None or len(out) != 2 or not at_:
                J.res.undecided.append(f"{label}: not understood")
                continue
            rest = [sug[k] if not big[k] else minus(tmax, t0) for k in range(rejects)]
            dts = [dt0] + rest
            if len(at_) != rejects + 1:
                J.fact(f"{label}: number of attempts", f, False, f"{len(at_)} attempts")
                continue
            for k, d in enumerate(at_):
                J.decide(f"{label}: attempt {k} starts at the current state", f, d.get("state", V.NONE), [s0])
                J.decide(f"{label}: step of attempt {k}", f, d.get("dt", V.NONE), [dts[k]])
            norm = lambda k: call("norm", at(a[k], "error_estimate"), at(a[k], "reference_state"))
            for k, d in enumerate(d for q, d in log if q == "test"):
                J.decide(f"{label}: attempt {k} judged by its own error", f, d.get("scaled_error", V.NONE), [norm(k)], known={"norm"})
            for k, d in enumerate(d for q, d in log if q == "suggest"):
                J.decide(f"{label}: suggestion {k} from the attempted step", f, d.get("laststep", V.NONE), [dts[k]])
                J.decide(f"{label}: suggestion {k} from the error", f, d.get("scaled_error", V.NONE), [norm(k)], known={"norm"})
                J.decide(f"{label}: suggestion {k} for the convergence rate", f, d.get("localconvrate", V.NONE), [("bin", "+", order, ("c", 1))])
            J.decide(f"{label}: accepted state", f, out[0], [a[rejects]])
            nxt = sug[rejects] if not big[rejects] else [minus(tmax, at(a[rejects], "t")), minus(at(at(a[rejects], "ivp"), "tmax"), at(a[rejects], "t")),
                                                           minus(tmax, ("bin", "+", t0, dts[rejects]))]
            J.decide(f"{label}: next step", f, out[1], nxt if isinstance(nxt, list) else [nxt])
            cb = [i for i, x in enumerate(log) if x[0] == "callback"]
            la = max(i for i, x in enumerate(log) if x[0] == "attempt")
            J.fact(f"{label}: method callback once, after acceptance", f, len(cb) == 1 and cb[0] > la, f"{len(cb)} calls" + (" before the last attempt" if cb and cb[0] < la else ""))


# ------------------------------------------------------------------ solver loop
def solver_loop(J):
    cls = public_class(J.p, "probnum.diffeq.ODESolver")
    f = cls.find("solution_generator")
    ivp, rule = sym("ivp"), sym("steprule")
    first = at(rule, "firststep")
    S = syms("state", 5)
    times = [0, 4, 7, 10, 12]
    dts = syms("t", 6)  # dt returned by step k is dts[k+1]
    inf = ("c", float("inf"))
    J.scalars |= {first}
    # (first step, stop locations, step sizes returned)
    stops = {"none": None, "early": [1, 2], "inside": [3, 6], "on the grid": [4, 7], "several behind": [0, 1, 2, 3, 9], "beyond": [20], "at the end": [10]}
    for sl, locs in stops.items():
        for fs, flabel in ((4, "short first step"), (50, "first step beyond the end")):
            for cbs in (0, 1, 2):
                log = []
                ls = syms("l", len(locs or ()))
                ranks = {first: fs, **{l: v for l, v in zip(ls, locs or ())}}
                ret = {1: 3, 2: 5, 3: 2}
                for k in range(1, 5):
                    ranks[dts[k]] = ret.get(k, 1)
                C = {}
                for k, s_ in enumerate(S):
                    for o in (s_,) + tuple(("s", f"cb{j}_{k}") for j in range(cbs)):
                        ranks[at(o, "t")] = times[k]
                        ranks[at(at(o, "ivp"), "tmax")] = 10
                        J.scalars |= {at(o, "t"), at(at(o, "ivp"), "tmax")}
                # a callback may replace the problem: the current one counts
                tm0 = 12 if cbs else 10
                ranks[at(ivp, "tmax")], ranks[at(ivp, "t0")] = tm0, 0
                J.scalars |= {at(ivp, "tmax"), at(ivp, "t0")}
                J.scalars |= set(ls) | set(dts)
                cbo = syms("callback", cbs)
                queues = {}

                def s(fr, fn, args, kwargs):
                    nm = callee(fn)
                    if nm == "initialize":
                        return S[0]
                    if nm == "perform_full_step":
                        log.append(("step", bound(("state", "initial_dt"), args, kwargs) if len(args) == 2 else dict(zip(("state", "initial_dt"), list(args) + [v for _, v in kwargs]))))
                        k = sum(1 for x in log if x[0] == "step")
                        return ("tup", (S[min(4, k)], dts[min(5, k)]))
                    if fn in cbo:
                        j = cbo.index(fn)
                        log.append(("callback", j, args[0] if args else V.NONE))
                        k = sum(1 for x in log if x[0] == "step")
                        return sym(f"cb{j}_{k}")
                    if fn == ("ext", "builtins.iter") or nm == "iter":
                        xs = V.finite(args[0]) if args else None
                        if xs is not None and args[0][0] == "list":
                            q = sym(f"iterator{len(queues)}")
                            queues[q] = list(xs)
                            return q
                    if nm == "next" and args and args[0] in queues:
                        if queues[args[0]]:
                            return queues[args[0]].pop(0)
                        return args[1] if len(args) > 1 else None
                    return None

                ev = J.eval(ranks, summaries=s)
                vn = ev.new_vn()
                old = vn.oracle
                vn.oracle = lambda k, old=old: False if k[0] == "isinstance" and k[1] in cbo else old(k)
                st = {("@", SELF, "steprule"): rule, ("@", SELF, "num_steps"): ("c", 0), ("@", S[0], "t"): at(ivp, "t0"),
                      **{("@", x, "ivp"): ivp for x in S}}
                impl, _ = ev.method(cls, f.name, {"ivp": ivp, "stop_at": V.NONE if locs is None else L(*ls),
                                                  "callbacks": L(*cbo) if cbs > 1 else cbo[0] if cbs else V.NONE}, vn=vn, state=st)
                label = f"solve ({flabel}, stop points {sl}, {cbs} callbacks)"
                ok = V.strip_raise(impl) if impl is not None else None
                ys = V.finite(ok) if ok is not None else None
                steps = [x[1] for x in log if x[0] == "step"]
                if ys is None or not steps or any(y[0] == 'unk' for y in ys):
                    J.res.undecided.append(f"{label}: not understood")
                    continue
                cur = [S[0]] + [sym(f"cb{cbs - 1}_{k}") if cbs else S[k] for k in range(1, 4)]
                J.decide_seq(f"{label}: states", f, L(*ys), cur)
                if len(steps) != 3:
                    J.fact(f"{label}: steps", f, False, f"{len(steps)} steps, 3 reach the end")
                    continue
                for k, d in enumerate(steps):
                    J.decide(f"{label}: state before step {k}", f, d.get("state", V.NONE), [cur[k]])
                    t = at(cur[k], "t") if k else at(ivp, "t0")
                    want = dts[k] if k else (first if fs < 10 else minus(at(ivp, "tmax"), t))
                    dtv = ret[k] if k else min(fs, tm0)
                    later = [(v, l) for v, l in zip(locs or (), ls) if v > times[k]]
                    if later and times[k] + dtv > later[0][0]:
                        want = minus(later[0][1], t)
                    J.decide(f"{label}: size of step {k}", f, d.get("initial_dt", V.NONE), [want])
                for j in range(cbs):
                    seen = [x[2] for x in log if x[0] == "callback" and x[1] == j]
                    J.decide_seq(f"{label}: states seen by callback {j}", f, L(*seen), [S[k] if j == 0 else sym(f"cb{j - 1}_{k}") for k in range(1, 4)])
                fr = V.Frame(vn, f, dict(vn.last_env or {}), cls)
                J.decide(f"{label}: number of steps", f, fr.attr(SELF, "num_steps"), [("c", 3)])


def collected(J):
    """solve() keeps the time and the state of every generated state, in order."""
    cls = public_class(J.p, "probnum.diffeq.ODESolver")
    f = cls.find("solve")
    S = syms("state", 4)
    got = []
    ivp, stop, cb = sym("ivp"), sym("stop_at"), sym("callbacks")

    def s(fr, fn, args, kwargs):
        nm = callee(fn)
        if nm == "solution_generator":
            got.append(("generate", bound(("ivp", "stop_at", "callbacks"), args, kwargs)))
            return L(*S)
        if nm == "rvlist_to_odesol":
            got.append(("collect", bound(("times", "rvs"), args, kwargs)))
            return sym("collected")
        if nm == "postprocess":
            return call("postprocessed", *args)
        return None

    ev = J.eval({}, summaries=s)
    impl, _ = ev.method(cls, f.name, {"ivp": ivp, "stop_at": stop, "callbacks": cb}, state={})
    for kind, d in got:
        if kind == "generate":
            for n, v in (("ivp", ivp), ("stop_at", stop), ("callbacks", cb)):
                J.decide(f"solve: {n} handed to the step loop", f, d.get(n, V.NONE), [v])
        else:
            J.decide_seq("solve: times of the solution", f, d.get("times", V.NONE), [at(x, "t") for x in S])
            J.decide_seq("solve: states of the solution", f, d.get("rvs", V.NONE), [at(x, "rv") for x in S])
    J.decide("solve: result", f, impl, [call("postprocessed", sym("collected"))], known={"postprocessed"})


# ------------------------------------------------------------------ attempts after rejected attempts
def heap(vn):
    return {k: v for k, v in (vn.last_env or {}).items() if isinstance(k, tuple)}


def subst(t, m):
    """Replace subterms of a term."""
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(subst(x, m) for x in t)
    return t


def attempts(J):
    pre = "probnum.diffeq.perturbed."
    s0, solver = sym("state"), sym("scipy_solver")
    t0, y0 = at(s0, "t"), at(at(s0, "rv"), "mean")
    d1, d2 = sym("d1"), sym("d2")
    J.scalars |= {t0, d1, d2}
    K = ("@", solver, "K")

    def s(fr, fn, args, kwargs):
        nm = callee(fn)
        if nm == "rk_step":
            d = bound(("fun", "t", "y", "f", "h", "A", "B", "C", "K"), args, kwargs)
            key = tuple(d.get(n, V.NONE) for n in ("t", "y", "f", "h"))
            if d.get("K") == at(solver, "K") or d.get("K", V.NONE)[0] == "call":
                fr.env[K] = call("rk.stages", *key)
            return ("tup", (call("rk.state", *key), call("rk.derivative", *key)))
        if nm == "_estimate_error":
            d = bound(("K", "h"), args, kwargs)
            return call("rk.error", d.get("K", V.NONE), d.get("h", V.NONE))
        if nm in ("fun", "f") and fn[0] in ("at", "bound") and len(args) == 2:
            return call("vector field", *args)
        if nm == "RkDenseOutput":
            d = bound(("t_old", "t", "y_old", "Q"), args, kwargs)
            return call("dense", *(d.get(n, V.NONE) for n in ("t_old", "t", "y_old", "Q")))
        if nm == "perturb_step":
            return call("noisy", args[1] if len(args) > 1 else dict(kwargs).get("step", V.NONE))
        return None

    known = {"rk.state", "rk.error", "rk.stages", "rk.derivative", "vector field", "dense", "noisy", "bin:/"}
    inner = public_class(J.p, pre + "scipy_wrapper.WrappedScipyRungeKutta")
    for cls, label in ((inner, "wrapped Runge-Kutta solver"), (public_class(J.p, pre + "step.PerturbedStepSolver"), "perturbed-step solver")):
        f = cls.find("attempt_step")
        outer = cls is not inner
        inn = sym("inner_solver")
        J.scalars |= {call("noisy", d1), call("noisy", d2)}
        st = {("@", inn if outer else SELF, "solver"): solver, ("@", inn if outer else SELF, "interpolants"): L()}
        if outer:
            st.update({("@", SELF, "solver"): inn, ("@", SELF, "scales"): L(), ("@", SELF, "rng"): sym("rng")})
        types = {inn: inner} if outer else {}
        h = lambda d: call("noisy", d) if outer else d
        run = lambda state, dt: ev.method(cls, f.name, {"state": s0, "dt": dt}, vn=vn, state=state)[0]
        ev = J.eval({}, types=types, summaries=s)
        vn = ev.new_vn()
        fresh = run(dict(st), d2)
        if fresh is None or fresh[0] != "new":
            J.res.undecided.append(f"{label}: attempt not understood")
            continue
        vn = ev.new_vn()
        run(dict(st), d1)
        again = run(heap(vn), d2)
        after = heap(vn)
        # the derivative at the end of the rejected attempt must not start the next one
        stale = {call("rk.derivative", t0, y0, g0, h(d1)): g0 for g0 in (at(solver, "f"), call("vector field", t0, y0))}
        clean = subst(again, stale) if again is not None else None
        J.fact(f"{label}: derivative an attempt starts from after a rejected one", f, clean == again,
               "the derivative computed by the rejected attempt is used as the derivative at the unchanged current state")
        again, after = clean, {k: subst(v, stale) for k, v in after.items()}
        a, b = dict(fresh[2]), dict(again[2]) if again is not None and again[0] == "new" else {}
        for n in sorted(a):
            J.decide(f"{label}: {n} of an attempt after a rejected one", f, b.get(n, V.NONE), [a[n]], known=known)
        J.decide(f"{label}: time of an attempt", f, a.get("t", V.NONE), [("bin", "+", t0, d2)], known=known)
        fr = V.Frame(vn, f, {}, cls)
        F = call("vector field", t0, y0)
        keys = [(t0, y0, F, h(d2)), (t0, y0, at(solver, "f"), h(d2))]
        J.decide(f"{label}: state of an attempt", f, a.get("rv", V.NONE), [("new", x, (("support", call("rk.state", *key)),)) for key in keys for x in {a["rv"][1] if a.get("rv", V.NONE)[0] == "new" else ""}], known=known)
        J.decide(f"{label}: error of an attempt", f, a.get("error_estimate", V.NONE), [call("rk.error", call("rk.stages", *key), h(d2)) for key in keys], known=known)
        J.decide(f"{label}: reference of an attempt", f, a.get("reference_state", V.NONE), [y0], known=known)
        g = cls.find("method_callback")
        ev.method(cls, g.name, {"state": s0}, vn=vn, state=dict(after))
        end = heap(vn)
        dense = [call("dense", t0, ("bin", "+", t0, h(d2)), y0, ("bin", "@", ("T", call("rk.stages", *key)), at(solver, "P"))) for key in keys]
        J.decide_seq(f"{label}: dense output recorded for an accepted step", g, end.get(("@", inn if outer else SELF, "interpolants"), V.NONE), [dense], known=known)
        if outer:
            J.decide_seq(f"{label}: perturbation recorded for an accepted step", g, end.get(("@", SELF, "scales"), V.NONE), [("bin", "/", h(d2), d2)], known=known)


# ------------------------------------------------------------------ callbacks and set-up
def setup(J):
    cls = public_class(J.p, "probnum.diffeq.callbacks.DiscreteCallback")
    f = cls.find("__call__")
    x = sym("state")
    for truth in (True, False):
        ev = J.eval({}, summaries=lambda fr, fn, a, k: ("c", truth) if fn == at(SELF, "condition") or fn == sym("condition") else None)
        vn = ev.new_vn()
        st = ev.state(cls, vn, {})
        impl, _ = ev.method(cls, f.name, {"state": x}, vn=vn, state=st)
        J.decide(f"discrete callback whose condition is {truth}", f, impl, [("call", sym("replace"), (x,), ())] if truth else [x], known={repr(sym("replace"))})


UNITS = [("attempts after rejected attempts", attempts), ("callbacks", setup), ("step rules", rules), ("accept or reject", full_step), ("solver loop", solver_loop), ("collected solution", collected)]


def check(ctx, res):
    J = Job(ctx, res)
    for name, fn in UNITS:
        unit(J, name, fn)
