"""C17: a step of the ODE filter is the calibrated extended Kalman step for the ODE residual."""
from __future__ import annotations

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..gauss import Gauss
from ..oblig import SELF
from . import c08, c15
from .c08 import bound, call, callee, minus
from .c09 import L, sym, syms, unit
from .c15 import add, at, mm, normal

LEVEL = "proof-of-formula"
EXPLANATION = (
    "The state, error estimate and diffusion update returned by an attempted ODE-filter step, the residual measurement and "
    "its Jacobian (zeroth- and first-order linearisation), the diffusion estimators and the initialisation are computed as "
    "terms by value numbering and compared with the closed-form prediction, calibration and update formulas."
)
ASSUMPTIONS = [
    "Prediction and conditioning of the transitions used inside a step are the formulas decided by C15.",
    "The ODE measurement has zero noise, as built by the information operators (checked here).",
]
D = sym("sigma2")
SC = {D, sym("dt"), at(sym("state"), "t")}


class Case:
    def __init__(self, zeros=(), scalars=()):
        self.zeros = set(zeros)
        self.scalars = SC | set(scalars)

    def factory(self, asg):
        return A.Alg(scalar=lambda a: a in self.scalars or a[0] == "S" or (a[0] == "f" and a[1] == "builtins.len"),
                     symmetric=lambda a: a[0] == "at" and a[2] == "cov", sem=Gauss(zeros=self.zeros))

    def consistent(self, asg):
        return True


class Job(c15.Job):
    fact = c08.Job.fact
    RULE = "formula"


def step(J):
    cls = public_class(J.p, "probnum.diffeq.odefilter.ODEFilter")
    f = cls.find("attempt_step")
    s0, dt = sym("state"), sym("dt")
    prior, rule, mm_, dm = sym("prior_process"), sym("steprule"), sym("measurement_model"), sym("diffusion_model")
    tr = at(prior, "transition")
    disc = sym("discrete_dynamics")
    Phi, q = at(disc, "transition_matrix"), at(disc, "noise")
    Q = at(q, "cov")
    t0, m0, P0 = at(s0, "t"), at(at(s0, "rv"), "mean"), at(at(s0, "rv"), "cov")
    t1 = add(t0, dt)
    E = sym("E")
    noise = sym("measurement_noise")
    case = Case(zeros={at(noise, "cov")})

    def run(accepted, calibrate):
        log = []

        def lin(t, rv_mean):
            return call("H", t, rv_mean), call("offset", t, rv_mean)

        def s(fr, fn, args, kwargs):
            nm = callee(fn)
            base = fn[1] if fn[0] in ("at", "bound") else None
            if nm == "discretise" and base == tr:
                log.append(("discretise", bound(("dt",), args, kwargs)))
                return disc
            if base == disc and nm in ("forward_realization", "forward_rv"):
                d = bound(("realization" if nm == "forward_realization" else "rv", "t", "dt", "compute_gain", "_diffusion"), args, kwargs)
                x = d.get("realization")
                rv = d.get("rv")
                mean, cov = (x, None) if x is not None else (fr.attr(rv, "mean"), fr.attr(rv, "cov"))
                c = ("bin", "*", d.get("_diffusion", ("c", 1)), Q)
                return ("tup", (normal(add(mm(Phi, mean), at(q, "mean")), c if cov is None else add(mm(Phi, cov, ("T", Phi)), c)), ("dict", ())))
            if nm == "linearize" and base == mm_:
                d = bound(("t", "at_this_rv"), args, kwargs)
                t, mean = d.get("t", V.NONE), fr.attr(d["at_this_rv"], "mean")
                return call("linearised", t, mean)
            if base is not None and base[0] == "call" and base[1] == "linearised":
                H, b = lin(*base[2])
                if nm == "transition_matrix_fun":
                    d = bound(("t",), args, kwargs)
                    log.append(("H at", d.get("t", V.NONE), base[2][0]))
                    return H
                if nm == "noise_fun":
                    return normal(b, at(noise, "cov"))
                if nm == "forward_rv":
                    d = bound(("rv", "t"), args, kwargs)
                    log.append(("measured at", d.get("t", V.NONE), base[2][0]))
                    mean, cov = fr.attr(d["rv"], "mean"), fr.attr(d["rv"], "cov")
                    return ("tup", (normal(add(mm(H, mean), b), add(mm(H, cov, ("T", H)), at(noise, "cov"))), ("dict", ((("c", "gain"), V.NONE),))))
            if base == mm_ and nm in ("backward_realization", "backward_rv"):
                d = bound(("realization_obtained" if nm == "backward_realization" else "rv_obtained", "rv", "rv_forwarded", "gain", "t"), args, kwargs)
                mean, cov = fr.attr(d["rv"], "mean"), fr.attr(d["rv"], "cov")
                H, b = lin(d.get("t", V.NONE), mean)
                pred, S = add(mm(H, mean), b), add(mm(H, cov, ("T", H)), at(noise, "cov"))
                if d.get("gain", V.NONE) != V.NONE:
                    log.append(("gain", d["gain"], mm(cov, ("T", H), ("inv", S))))
                if d.get("rv_forwarded", V.NONE) != V.NONE:
                    log.append(("forwarded mean", fr.attr(d["rv_forwarded"], "mean"), pred))
                    log.append(("forwarded covariance", fr.attr(d["rv_forwarded"], "cov"), S))
                K = mm(cov, ("T", H), ("inv", S))
                y = d.get("realization_obtained", V.NONE)
                return ("tup", (normal(add(mean, mm(K, minus(y, pred))), add(cov, mm(K, S, ("T", K)), "-")), ("dict", ())))
            if nm == "estimate_locally":
                log.append(("estimate", bound(("meas_rv", "meas_rv_assuming_zero_previous_cov", "t"), args, kwargs), fr))
                return D
            if nm == "update_in_place":
                log.append(("update", bound(("local_estimate", "t"), args, kwargs)))
                return V.NONE
            if nm == "errorest_to_norm":
                log.append(("norm", bound(("errorest", "reference_state"), args, kwargs)))
                return sym("norm")
            if nm == "is_accepted":
                log.append(("test", bound(("scaled_error",), args, kwargs)))
                return ("c", accepted)
            if nm == "proj2coord":
                d = bound(("coord",), args, kwargs)
                return call("projection", d.get("coord", V.NONE))
            return None

        ev = J.eval()
        ev.summaries = s
        vn = ev.new_vn()
        st = {("@", SELF, "prior_process"): prior, ("@", SELF, "steprule"): rule, ("@", SELF, "measurement_model"): mm_,
              ("@", SELF, "diffusion_model"): dm, ("@", SELF, "_calibrate_at_each_step"): ("c", calibrate),
              ("@", SELF, "_calibrate_all_states_post_hoc"): ("c", not calibrate),
              ("@", SELF, "_reference_coordinates"): sym("coordinates"), ("@", at(s0, "rv"), "mean"): m0}
        impl, _ = ev.method(cls, f.name, {"state": s0, "dt": dt}, vn=vn, state=st)
        return V.strip_raise(impl) if impl is not None else None, log, V.Frame(vn, f, dict(st), cls)

    mpred = add(mm(Phi, m0), at(q, "mean"))
    H, b = call("H", t1, mpred), call("offset", t1, mpred)
    z = add(mm(H, mpred), b)
    kn = {"H", "offset", "projection", "numpy.diag", "diag", "abs", "numpy.abs"}
    PP = mm(Phi, P0, ("T", Phi))
    for accepted, calibrate in ((True, True), (True, False), (False, True), (False, False)):
        impl, log, fr = run(accepted, calibrate)
        label = ("accepted" if accepted else "rejected") + " step with " + ("piecewise constant" if calibrate else "constant") + " diffusion"
        if impl is None or impl[0] != "new":
            J.res.undecided.append(f"{label}: result not understood")
            continue
        d = dict(impl[2])
        dec = lambda what, x, refs: J.decide(f"{label}: {what}", f, x, refs, case, known=kn)
        dec("time", d.get("t", V.NONE), [t1])
        dec("problem", d.get("ivp", V.NONE), [at(s0, "ivp")])
        for x in [x[1] for x in log if x[0] == "discretise"]:
            dec("step length of the discretisation", x.get("dt", V.NONE), [dt])
        for x in log:
            if x[0] in ("H at", "measured at"):
                dec(x[0] + " the end of the step", x[1], [t1])
        est = [x for x in log if x[0] == "estimate"]
        S0 = mm(H, Q, ("T", H))
        if len(est) == 1:
            e = est[0][1]
            mr, me = e.get("meas_rv"), e.get("meas_rv_assuming_zero_previous_cov")
            if mr is not None and me is not None:
                for nm, r, S in (("measurement", mr, add(S0, mm(H, PP, ("T", H)))), ("measurement without previous uncertainty", me, S0)):
                    dec(f"mean of the {nm}", fr.attr(r, "mean"), [z])
                    dec(f"covariance of the {nm}", fr.attr(r, "cov"), [S])
            dec("time of the diffusion estimate", e.get("t", V.NONE), [t1])
        else:
            J.res.undecided.append(f"{label}: {len(est)} diffusion estimates")
        upd = [x[1] for x in log if x[0] == "update"]
        J.fact(f"{label}: diffusion recorded for accepted steps only", f, len(upd) == int(accepted), f"{len(upd)} updates of the diffusion model")
        for u in upd[:1]:
            dec("recorded diffusion", u.get("local_estimate", V.NONE), [D])
            dec("time of the recorded diffusion", u.get("t", V.NONE), [t1])
        ref = lambda src, env: J.eval().text(src, f, cls, fr.vn, {"np": ("ext", "numpy"), **env})
        err = ref("np.sqrt(D) * np.sqrt(np.diag(S0))", {"D": D, "S0": S0})
        err2 = ref("np.sqrt(D * np.diag(S0))", {"D": D, "S0": S0})
        rstate = ref("np.abs(E @ m)", {"E": call("projection", sym("coordinates")), "m": m0})
        for src, dd in [("returned", {"errorest": d.get("error_estimate", V.NONE), "reference_state": d.get("reference_state", V.NONE)})] + [("tested", x[1]) for x in log if x[0] == "norm"]:
            dec(f"{src} error estimate", dd.get("errorest", V.NONE), [err, err2])
            dec(f"{src} reference state", dd.get("reference_state", V.NONE), [rstate])
        for x in [x for x in log if x[0] == "test"]:
            dec("tested error", x[1].get("scaled_error", V.NONE), [sym("norm")])
        if not accepted:
            continue
        c = D if calibrate else ("c", 1)
        Pm = add(PP, ("bin", "*", c, Q))
        S = mm(H, Pm, ("T", H))
        K = mm(Pm, ("T", H), ("inv", S))
        dec("mean", fr.attr(d.get("rv", V.NONE), "mean"), [minus(mpred, mm(K, z))])
        dec("covariance", fr.attr(d.get("rv", V.NONE), "cov"), [minus(Pm, mm(K, S, ("T", K)))])
        for x in log:
            if x[0] in ("gain", "forwarded mean", "forwarded covariance"):
                dec(f"{x[0]} handed to the update", x[1], [x[2]])
        J.roots(label, f, d.get("rv", V.NONE), case)


# ------------------------------------------------------------------ diffusion estimates
def diffusions(J):
    pre = "probnum.randprocs.markov.continuous."
    full, free = sym("meas_rv"), sym("meas_rv_assuming_zero_previous_cov")
    case = Case()
    for name, rv in (("ConstantDiffusion", full), ("PiecewiseConstantDiffusion", free)):
        cls = public_class(J.p, pre + name)
        f = cls.find("estimate_locally")
        ev = J.eval()
        vn = ev.new_vn()
        impl, _ = ev.method(cls, f.name, {}, vn=vn)
        env = {"np": ("ext", "numpy"), "linalg": ("ext", "linalg"), "z": at(rv, "mean"), "S": at(rv, "cov"), "rv": rv,
               "Li": ev.text("linalg.inv(linalg.cholesky(S))", f, cls, vn, {"linalg": ("ext", "linalg"), "S": at(rv, "cov")})}
        # a one-dimensional mean equals its own transpose
        quads = ("z.T @ linalg.inv(S) @ z", "z @ linalg.inv(S) @ z", "(Li @ z) @ (Li @ z)", "(Li @ z).T @ (Li @ z)",
                 "np.linalg.norm(Li @ z) ** 2", "np.sum((Li @ z) ** 2)")
        sizes = ("rv.size", "z.size", "z.shape[0]", "len(z)", "rv.shape[0]", "S.shape[0]")
        J.decide(f"{name}: local estimate", f, impl, [ev.text(f"{q} / {n}", f, cls, vn, env) for q in quads for n in sizes], case)
    # running average of the constant diffusion
    cls = public_class(J.p, pre + "ConstantDiffusion")
    f = cls.find("update_in_place")
    ds = syms("d", 4)
    case = Case(scalars=ds)
    from .c09 import Job as J9
    ev = J9.eval(J._nine, {})
    vn = ev.new_vn()
    st = ev.state(cls, vn, {})
    init = cls.find("__init__")
    vn.body(init, {init.self_name: SELF}, cls)
    h = c08.heap(vn)
    for n, d in enumerate(ds, 1):
        ev.method(cls, f.name, {"local_estimate": d, "t": sym("t")}, vn=vn, state=h)
        h = {**h, **c08.heap(vn)}
        tot = ds[0]
        for x in ds[1:n]:
            tot = add(tot, x)
        J.decide(f"constant diffusion after {n} steps", f, h.get(("@", SELF, "diffusion"), V.NONE), [("bin", "/", tot, ("c", n))], case)


# ------------------------------------------------------------------ residual
def residual(J):
    pre = "probnum.diffeq.odefilter.information_operators."
    cls = public_class(J.p, pre + "ODEResidual")
    ode, h0, h1 = sym("ode"), sym("E0"), sym("E1")
    x, t = sym("x"), sym("t")
    case = Case(scalars={t})

    def s(fr, fn, args, kwargs):
        nm = callee(fn)
        base = fn[1] if fn[0] in ("at", "bound") else None
        if nm == "proj2coord":
            c = bound(("coord",), args, kwargs).get("coord", V.NONE)
            return {("c", 0): h0, ("c", 1): h1}.get(c)
        if base == ode and nm in ("f", "df"):
            d = bound(("t", "y"), args, kwargs)
            return call(nm, *args) if len(args) == 2 else None
        return None

    from .c09 import Job as J9
    ev = J9.eval(J._nine, {}, summaries=s)
    vn = ev.new_vn()
    st = ev.state(cls, vn, {})
    inc = cls.find("incorporate_ode")
    ev.method(cls, inc.name, {"ode": ode}, vn=vn, state={**st, ("@", SELF, "ode"): V.NONE})
    st = {**st, **c08.heap(vn)}
    y = mm(h0, x)
    for name, want in (("__call__", minus(mm(h1, x), call("f", t, y))), ("jacobian", minus(h1, mm(call("df", t, y), h0)))):
        f = cls.find(name)
        impl, _ = ev.method(cls, name, {"t": t, "x": x}, vn=vn, state=dict(st))
        J.decide(f"ODE residual {name.strip('_')}", f, impl, [want], case, known={"f", "df"})
    # as a transition, without noise
    f = cls.find("as_transition")
    got = []

    def s2(fr, fn, args, kwargs):
        nm = callee(fn)
        if nm in ("from_callable", "NonlinearGaussian"):
            got.append((nm, bound(("input_dim", "output_dim", "transition_fun", "transition_fun_jacobian") if nm == "from_callable" else
                                  ("input_dim", "output_dim", "transition_fun", "noise_fun", "transition_fun_jacobian"), args, kwargs)))
            return sym("model")
        return s(fr, fn, args, kwargs)

    for given in (False, True):
        got.clear()
        ev = J9.eval(J._nine, {}, summaries=s2)
        vn = ev.new_vn()
        impl, _ = ev.method(cls, "as_transition", {"noise_fun": sym("noise_fun") if given else V.NONE}, vn=vn, state=dict(st))
        if len(got) != 1:
            J.res.undecided.append("residual transition: construction not understood")
            continue
        nm, d = got[0]
        fr = V.Frame(vn, f, dict(st), cls)
        for k, name, want in (("transition_fun", "map", minus(mm(h1, x), call("f", t, y))), ("transition_fun_jacobian", "Jacobian", minus(h1, mm(call("df", t, y), h0)))):
            fn = d.get(k, V.NONE)
            val = fr.call(fn, (t, x), ()) if fn != V.NONE else V.NONE
            J.decide(f"residual transition {name}" + (" with noise" if given else ""), f, val, [want], case, known={"f", "df"})
        if given and nm == "NonlinearGaussian":
            J.decide("residual transition noise", f, d.get("noise_fun", V.NONE), [sym("noise_fun")], case)
    # approximate operators
    lin = public_class(J.p, pre + "LocallyLinearizedInformationOperator")
    f = lin.find("as_transition")
    info = sym("information_operator")
    got2 = []

    def s3(fr, fn, args, kwargs):
        nm = callee(fn)
        if nm == "DiscreteEKFComponent":
            got2.append(bound(("non_linear_model", "forward_implementation", "backward_implementation"), args, kwargs))
            return sym("ekf")
        if nm == "as_transition" and fn[0] in ("at", "bound") and fn[1] == info:
            return call("transition of", bound(("noise_fun",), args, kwargs).get("noise_fun", V.NONE))
        return None

    ev = J9.eval(J._nine, {}, summaries=s3)
    vn = ev.new_vn()
    st2 = ev.state(lin, vn, {"information_operator": info, "forward_implementation": sym("fw"), "backward_implementation": sym("bw")})
    impl, _ = ev.method(lin, "as_transition", {"noise_fun": sym("noise_fun")}, vn=vn, state=st2)
    if len(got2) == 1:
        J.decide("linearised operator: model", f, got2[0].get("non_linear_model", V.NONE), [call("transition of", sym("noise_fun"))], case, known={"transition of"})
        J.decide("linearised operator: forward implementation", f, got2[0].get("forward_implementation", V.NONE), [sym("fw")], case)
        J.decide("linearised operator: backward implementation", f, got2[0].get("backward_implementation", V.NONE), [sym("bw")], case)
    else:
        J.res.undecided.append("linearised operator: construction not understood")
    # EK1 linearises the operator it is given; EK0 replaces the Jacobian of the vector field by zero
    apx = "probnum.diffeq.odefilter.approx_strategies."
    for name in ("EK1", "EK0"):
        c = public_class(J.p, apx + name)
        f = c.find("__call__")
        rec = []

        def s4(fr, fn, args, kwargs):
            nm = callee(fn)
            if fn[0] == "class" or nm in ("LocallyLinearizedInformationOperator", "ODEResidual", "InitialValueProblem"):
                names = {"LocallyLinearizedInformationOperator": ("information_operator", "forward_implementation", "backward_implementation"),
                         "ODEResidual": ("num_prior_derivatives", "ode_dimension"),
                         "InitialValueProblem": ("t0", "tmax", "y0", "f", "df", "ddf", "solution", "dy0_all")}.get(nm)
                if names:
                    rec.append((nm, bound(names, args, kwargs)))
                    return sym("new " + nm)
            if nm == "incorporate_ode":
                rec.append((nm, {"base": fn[1], **bound(("ode",), args, kwargs)}))
                return V.NONE
            return None

        ev = J9.eval(J._nine, {}, summaries=s4)
        vn = ev.new_vn()
        st3 = ev.state(c, vn, {"forward_implementation": sym("fw"), "backward_implementation": sym("bw")})
        st3[("@", info, "ode")] = ode
        st3[("@", info, "ode_has_been_incorporated")] = ("c", True)
        impl, _ = ev.method(c, "__call__", {"information_operator": info}, vn=vn, state=st3)
        m = {k: d for k, d in rec}
        ll = m.get("LocallyLinearizedInformationOperator")
        if ll is None:
            J.res.undecided.append(f"{name}: construction not understood")
            continue
        J.decide(f"{name}: returned operator", f, impl, [sym("new LocallyLinearizedInformationOperator")], case)
        J.decide(f"{name}: forward implementation", f, ll.get("forward_implementation", V.NONE), [sym("fw")], case)
        J.decide(f"{name}: backward implementation", f, ll.get("backward_implementation", V.NONE), [sym("bw")], case)
        if name == "EK1":
            J.decide("EK1: operator", f, ll.get("information_operator", V.NONE), [info], case)
            continue
        J.decide("EK0: operator", f, ll.get("information_operator", V.NONE), [sym("new ODEResidual")], case)
        r, p, i = m.get("ODEResidual"), m.get("InitialValueProblem"), m.get("incorporate_ode")
        if r is None or p is None or i is None:
            J.res.undecided.append("EK0: construction of the residual not understood")
            continue
        for k in ("num_prior_derivatives", "ode_dimension"):
            J.decide(f"EK0: {k}", f, r.get(k, V.NONE), [at(info, k)], case)
        J.decide("EK0: problem given to the residual", f, i.get("ode", V.NONE), [sym("new InitialValueProblem")], case)
        for k in ("f", "y0", "t0", "tmax"):
            J.decide(f"EK0: problem keeps {k}", f, p.get(k, V.NONE), [at(ode, k)], case)
        fr = V.Frame(vn, f, dict(st3), c)
        dfv = p.get("df", V.NONE)
        val = fr.call(dfv, (t, x), ()) if dfv != V.NONE else V.NONE
        J.decide("EK0: Jacobian of the vector field", f, val, [ev.text("np.zeros((len(x), len(x)))", f, c, vn, {"np": ("ext", "numpy"), "x": x})], case, known={"numpy.zeros", "df", ".df", repr(at(ode, "df"))})


# ------------------------------------------------------------------ initialisation
def initial(J):
    from .c09 import Job as J9
    cls = public_class(J.p, "probnum.diffeq.odefilter.ODEFilter")
    f = cls.find("initialize")
    ivp, info, strat, routine, prior = (sym(n) for n in ("ivp", "information_operator", "approx_strategy", "init_routine", "prior_process"))
    log = []

    def s(fr, fn, args, kwargs):
        nm = callee(fn)
        if nm == "incorporate_ode":
            log.append(("ode", bound(("ode",), args, kwargs).get("ode", V.NONE)))
            return V.NONE
        if fn == strat or fn == at(SELF, "approx_strategy"):
            log.append(("strategy", args[0] if args else V.NONE))
            return call("approximate", *args)
        if nm == "as_transition":
            return call("transition", fn[1])
        if fn == routine:
            d = bound((), args, kwargs)
            return call("initial state", d.get("ivp", V.NONE), d.get("prior_process", V.NONE))
        return None

    case = Case()
    ev = J9.eval(J._nine, {}, summaries=s)
    vn = ev.new_vn()
    st = {("@", SELF, "information_operator"): info, ("@", SELF, "approx_strategy"): strat, ("@", SELF, "init_routine"): routine, ("@", SELF, "prior_process"): prior}
    impl, _ = ev.method(cls, f.name, {"ivp": ivp}, vn=vn, state=st)
    end = c08.heap(vn)
    if impl is not None and impl[0] == "new":
        d = dict(impl[2])
        kn = {"initial state", "transition", "approximate"}
        J.decide("initial time", f, d.get("t", V.NONE), [at(ivp, "t0")], case)
        J.decide("initial problem", f, d.get("ivp", V.NONE), [ivp], case)
        J.decide("initial state", f, d.get("rv", V.NONE), [call("initial state", ivp, prior)], case, known=kn)
        J.decide("measurement model", f, end.get(("@", SELF, "measurement_model"), V.NONE), [call("transition", call("approximate", info))], case, known=kn)
        odes = [x[1] for x in log if x[0] == "ode"]
        J.fact("the ODE is incorporated before it is approximated", f, odes == [ivp] and [x[0] for x in log][:2] == ["ode", "strategy"], str([x[0] for x in log]))
    else:
        J.res.undecided.append("initialize: result not understood")
    # stacked initial values
    pre = "probnum.diffeq.odefilter.init_routines."
    for name, jac in (("Stack", False), ("StackWithJacobian", True)):
        c = public_class(J.p, pre + name)
        f = c.find("__call__")
        y0, t0 = at(ivp, "y0"), at(ivp, "t0")
        scale = sym("scale_cholesky")
        nd = 4

        def s2(fr, fn, args, kwargs):
            nm = callee(fn)
            base = fn[1] if fn[0] in ("at", "bound") else None
            if base == ivp and nm in ("f", "df") and len(args) == 2:
                return call(nm, *args)
            if fn[0] == "ext" and nm in ("stack", "vstack") and args:
                return args[0] if V.finite(args[0]) is not None else None
            return None

        ev = J9.eval(J._nine, {}, summaries=s2)
        vn = ev.new_vn()
        st = ev.state(c, vn, {"scale_cholesky": scale})
        st[("@", at(prior, "transition"), "num_derivatives")] = ("c", nd)
        impl, _ = ev.method(c, "__call__", {"ivp": ivp, "prior_process": prior}, vn=vn, state=st)
        impl = V.strip_raise(impl) if impl is not None else None
        if impl is None or impl[0] != "new":
            J.res.undecided.append(f"{name}: result not understood")
            continue
        d = dict(impl[2])
        env = {"np": ("ext", "numpy"), "y0": y0, "dim": ("idx", at(y0, "shape"), ("c", 0)), "scale": scale}
        F = call("f", t0, y0)
        rows = [y0, F] + ([mm(call("df", t0, y0), F)] if jac else [])
        k = len(rows)
        zero = ev.text("np.zeros(dim)", f, c, vn, env)
        one = ev.text("scale * np.ones(dim)", f, c, vn, env)
        mean = L(*(rows + [zero] * (nd + 1 - k)))
        std = L(*([("bin", "*", ("c", 0.0), r) for r in rows] + [one] * (nd + 1 - k)))
        flat = lambda m: [ev.text(src, f, c, vn, {"m": m, "np": ("ext", "numpy")}) for src in ("m.reshape((-1,), order='F')", "m.reshape(-1, order='F')", "m.T.reshape((-1,))", "m.flatten(order='F')", "m.ravel(order='F')", "m.T.flatten()", "m.T.ravel()")]
        case = Case(scalars={scale})
        kn = {"f", "df", "numpy.zeros", "numpy.ones", ".reshape", "numpy.diag", "diag"}
        stack_obligations(J, name, f, d, mean, std, flat, case, kn, ev, c, vn)


def stack_obligations(J, name, f, d, mean, std, flat, case, kn, ev, c, vn):
    J.decide(f"{name}: initial mean", f, d.get("mean", V.NONE), flat(mean), case, known=kn)
    J.decide(f"{name}: initial covariance", f, d.get("cov", V.NONE),
             [ev.text("np.diag(s ** 2)", f, c, vn, {"np": ("ext", "numpy"), "s": s}) for s in flat(std)], case, known=kn)
    J.decide(f"{name}: initial Cholesky factor", f, d.get("cov_cholesky", V.NONE),
             [ev.text("np.diag(s)", f, c, vn, {"np": ("ext", "numpy"), "s": s}) for s in flat(std)], case, known=kn)


def construct(J):
    """What the constructor stores: the calibration follows from the diffusion model, the order from the prior."""
    from .c09 import Job as J9
    cls = public_class(J.p, "probnum.diffeq.odefilter.ODEFilter")
    f = cls.find("__init__")
    names = ("steprule", "prior_process", "information_operator", "approx_strategy", "with_smoothing", "init_routine", "diffusion_model")
    prior, dm = sym("prior_process"), sym("diffusion_model")
    case = Case()
    for dynamic in (True, False):
        ev = J9.eval(J._nine, {})
        vn = ev.new_vn()
        old = vn.oracle

        def oracle(k, old=old):
            if k[0] == "isinstance":
                if k[1] == at(prior, "transition"):
                    return True
                if k[1] == dm and "PiecewiseConstantDiffusion" in repr(k[2]):
                    return dynamic
                if k[1] == dm and "ConstantDiffusion" in repr(k[2]):
                    return not dynamic
            if k[0] == "truth" and k[1][0] == "s":
                return True
            if k[0] == "is" and V.NONE in k[1:]:
                return False
            return old(k) if old else None

        vn.oracle = oracle
        st = ev.state(cls, vn, {n: sym(n) for n in names})
        fr = V.Frame(vn, f, dict(st), cls)
        for n in names:
            J.decide(f"constructor stores {n}", f, fr.attr(SELF, n), [sym(n)], case)
        J.decide("order of the filter", f, fr.attr(SELF, "order"), [at(at(prior, "transition"), "num_derivatives")], case)
        for n, want in (("_calibrate_at_each_step", dynamic), ("_calibrate_all_states_post_hoc", not dynamic)):
            v = st.get(("@", SELF, n))
            if v is not None and v[0] == "c":
                J.fact(f"{'piecewise constant' if dynamic else 'constant'} diffusion: {n.strip('_').replace('_', ' ')}", f, v[1] is want, f"is {v[1]}")


def posthoc(J):
    from . import c09
    J._nine.RULE = J.RULE
    c09.odefilter(J._nine)


UNITS = [("construction", construct), ("post-processing", posthoc), ("step", step), ("diffusion estimates", diffusions), ("residual", residual), ("initialisation", initial)]


def check(ctx, res):
    from .c09 import Job as J9
    J = Job(ctx, res)
    J._nine = J9(ctx, res)
    for name, fn in UNITS:
        unit(J, name, fn)
