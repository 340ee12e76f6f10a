"""C15: Gaussian transitions propagate and condition by the exact formulas, in every implementation."""
from __future__ import annotations

from fractions import Fraction

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..gauss import RECORDS, Gauss, normals
from ..oblig import SELF, Eval, compare, pretty

LEVEL = "proof-of-formula"
EXPLANATION = (
    "The random variables and gains returned by every Gaussian transition (linear, linearised, integrator priors through "
    "their preconditioner, matrix-fraction discretisation, moment equations) are computed as terms by value numbering and "
    "compared with the closed-form prediction, gain and conditioning formulas under every assignment of the branch "
    "conditions; square-root implementations are interpreted through the Gram matrix of the stacked factors."
)
ASSUMPTIONS = [
    "QR and Cholesky factors are identified up to the sign convention; floating-point error is not modelled.",
    "A gain handed to a backward step is the gain of the matching forward step.",
]
NP = {"np": ("ext", "numpy"), "linalg": ("ext", "linalg")}
SCALARS = {"_diffusion", "dt", "diffusion"}


def scalar(a):
    if a[0] == "s":
        return a[1] in SCALARS
    if a[0] in ("S",):
        return True
    if a[0] == "f":
        return a[1] in ("linalg.norm", "builtins.len")
    if a[0] == "idx":
        return a[1] == ("s", "scales")
    return False


def at(x, a):
    return ("at", x, a)


class Case:
    """Symbols of one transition: prior N(m, P), map H, noise (b, R), diffusion d, observation N(y, C)."""

    def __init__(self, H, noise, rv=("s", "rv"), obt=("s", "rv_obtained"), d=("s", "_diffusion"), elim=True, widths=None,
                 extra=None, sym=(), subst=None, b=None, R=None, rvterm=None):
        self.b, self.R = b or at(noise, "mean"), R or at(noise, "cov")
        self.rvterm = rvterm
        self.H, self.noise, self.rv, self.obt, self.d = H, noise, rv, obt, d
        self.S = ("s", "S")
        self.elim = elim
        self.widths = widths or {}
        self.extra = extra
        self.sym = set(sym)
        self.more = subst or {}

    def env(self):
        e = dict(NP)
        e.update(H=self.H, m=at(self.rv, "mean"), P=at(self.rv, "cov"), b=self.b, R=self.R,
                 d=self.d, y=at(self.obt, "mean"), C=at(self.obt, "cov"), S=self.S)
        return e

    def symmetric(self, a):
        if a == self.S or a in self.sym:
            return True
        return a[0] == "at" and a[2] == "cov"

    def factory(self, asg):
        subst = dict(self.more)
        zeros = set()
        for k, v in asg.items():
            z = zero_of(k, v)
            if z is not None:
                zeros.add(z)
        if self.elim is True:
            H, P, d = self.H, at(self.rv, "cov"), self.d
            subst[at(self.noise, "cov")] = ("bin", "/", ("bin", "-", self.S, ("bin", "@", ("bin", "@", H, P), ("T", H))), d)
        g = Gauss(subst=subst, zeros=zeros, widths=self.widths, extra=self.extra, rvterm=self.rvterm)
        return A.Alg(scalar=scalar, symmetric=self.symmetric, sem=g)

    def consistent(self, asg):
        for k, v in asg.items():
            x = normed(k)
            if x is None:
                continue
            t, zero_when = x
            y = A.resolve(t, asg)
            if y[0] == "at" and y[2] == "cov":
                continue  # decided freely; used as an assumption
            alg = self.factory({q: w for q, w in asg.items() if q != k})
            try:
                z = alg.nf(y) == {}
            except (A.TooBig, RecursionError):
                continue
            if z != (v == zero_when):
                return False
        return True


def normed(k):
    """(x, value of the condition that means x = 0) for norm tests."""
    if k[0] == "cmp" and k[1] in ("==", "<", "<="):
        a, b = k[2], k[3]
        for x, o, side in ((a, b, 0), (b, a, 1)):
            if x[0] == "call" and x[1] == "linalg.norm" and o[0] == "c" and o[1] == 0:
                if k[1] == "==":
                    return x[2][0], True
                if k[1] == "<":
                    return (x[2][0], False) if side == 1 else None
                return (x[2][0], True) if side == 0 else None
    return None


def zero_of(k, v):
    x = normed(k)
    if x is not None and v == x[1] and x[0][0] == "at":
        return x[0]
    return None


class Job:
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res

    def eval(self, types=None, opaque=(), **k):
        return Eval(self.p, records=RECORDS, opaque={"cholesky_update", "tril_to_positive_tril", "mean", "cov", "cov_cholesky"} | set(opaque), types=types or {}, **k)

    def decide(self, what, f, impl, refs, case, known=(), max_conds=8, extra_ok=None):
        """One obligation: a component of a result against its formula."""
        res = self.res
        res.count("obligations")
        try:
            v = compare(impl, refs, case.factory, max_conds=max_conds, consistent=case.consistent,
                        known_heads={"wrong block of the triangular factor", "idx:shape"} | set(known), extra_ok=extra_ok)
        except (A.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
            res.undecided.append(f"{what}: {type(e).__name__}")
            return None
        res.count("branch assignments", v.leaves)
        if v.kind == "equal":
            res.count("obligations decided")
        elif v.kind == "differs":
            res.add("formula", f"{f.qual}: {what}", f"{what} {v.detail}", **loc(f))
        else:
            res.undecided.append(f"{f.qual} {what}: {v.detail}")
        return v

    def roots(self, what, f, impl, case):
        """Every Normal built with a covariance and a Cholesky factor: the factor squared is the covariance."""
        for n in normals(V.strip_raise(impl) or ()):
            d = dict(n[2])
            L = d.get("cov_cholesky", V.NONE)
            if L == V.NONE or "cov" not in d:
                continue
            self.decide(f"{what}: Cholesky factor squared", f, ("bin", "@", L, ("T", L)), [d["cov"]], case)


def frame(vn, f, env, cls):
    return V.Frame(vn, f, dict(env), cls)


def part(fr, t, *path):
    for p in path:
        if isinstance(p, str) and p.startswith("."):
            t = fr.attr(t, p[1:])
        else:
            t = V.index(t, ("c", p))
    return t


# ------------------------------------------------------------------ linear Gaussian transition
def linear_gaussian(J):
    cls = public_class(J.p, "probnum.randprocs.markov.discrete.LinearGaussian")
    T = ("s", "t")
    H = ("call", ("s", "transition_matrix_fun"), (T,), ())
    noise = ("call", ("s", "noise_fun"), (T,), ())
    widths = {("s", "output_dim"): "n1", ("s", "input_dim"): "n2",
              ("call", "builtins.len", (at(("s", "rv"), "mean"),), ()): "n2",
              ("call", "builtins.len", (at(("s", "rv_obtained"), "mean"),), ()): "n1"}
    for fw in ("classic", "sqrt"):
        params = {"forward_implementation": ("c", fw)}
        if fw == "classic":
            lti = public_class(J.p, "probnum.randprocs.markov.discrete.LTIGaussian")
            forward(J, lti, "time-invariant forward", ("s", "transition_matrix"), ("s", "noise"), widths, params)
            backward(J, lti, "time-invariant backward", ("s", "transition_matrix"), ("s", "noise"), widths,
                     {**params, "backward_implementation": ("c", "classic")})
        forward(J, cls, f"{fw} forward", H, noise, widths, params)
        for bw in ("classic", "sqrt", "joseph"):
            params = {"forward_implementation": ("c", fw), "backward_implementation": ("c", bw)}
            backward(J, cls, f"{bw} backward ({fw} forward)", H, noise, widths, params)


def forward(J, cls, what, H, noise, widths, params):
    for name, sub in (("forward_rv", None), ("forward_realization", "realization")):
        f = cls.find(name)
        ev = J.eval()
        vn = ev.new_vn()
        st = ev.state(cls, vn, params)
        rv = ("s", "rv") if sub is None else ("new", "Constant", (("support", ("s", "realization")),))
        for gain in ((True, False) if sub is None else (None,)):
            args = {"rv": rv, "compute_gain": ("c", gain)} if sub is None else {}
            impl, _ = ev.method(cls, name, args, vn=vn, state=st)
            case = Case(H, noise, rv=rv, widths=widths)
            fr = frame(vn, f, st, cls)
            obligations_forward(J, f"{what} {name}", f, impl, fr, case, ev, vn, cls, gain)


def obligations_forward(J, what, f, impl, fr, case, ev, vn, cls, gain):
    impl = V.strip_raise(impl)
    if impl is None:
        J.res.undecided.append(f"{what}: always raises")
        return
    env = case.env()
    ref = lambda s: ev.text(s, f, cls, vn, env)
    J.decide(f"{what} mean", f, part(fr, impl, 0, ".mean"), [ref("H @ m + b")], case)
    J.decide(f"{what} covariance", f, part(fr, impl, 0, ".cov"), [ref("S")], case)
    J.roots(what, f, impl, case)
    if gain is None:
        return
    J.decide(f"{what} cross-covariance", f, part(fr, impl, 1, "crosscov"), [ref("P @ H.T")], case)
    if gain:
        J.decide(f"{what} gain", f, part(fr, impl, 1, "gain"), [ref("P @ H.T @ linalg.inv(S)")], case)


def backward(J, cls, what, H, noise, widths, params):
    for name, sub in (("backward_rv", None), ("backward_realization", "realization_obtained")):
        f = cls.find(name)
        obt = ("s", "rv_obtained") if sub is None else ("new", "Constant", (("support", ("s", sub)),))
        w = dict(widths)
        w[("call", "builtins.len", (("s", sub),), ())] = "n1"
        case = Case(H, noise, obt=obt, widths=w)
        env = case.env()
        for given in ("nothing", "gain", "both"):
            ev = J.eval()
            vn = ev.new_vn()
            st = ev.state(cls, vn, params)
            ref = lambda s, e=None: ev.text(s, f, cls, vn, {**env, **(e or {})})
            K = ref("P @ H.T @ linalg.inv(S)")
            fwd = ("new", "Normal", (("cov", case.S), ("mean", ref("H @ m + b"))))
            args = {"rv": case.rv, "t": ("s", "t"), "gain": V.NONE, "rv_forwarded": V.NONE}
            args["rv_obtained" if sub is None else sub] = obt if sub is None else ("s", sub)
            if given != "nothing":
                args["gain"] = K
            if given == "both":
                args["rv_forwarded"] = fwd
            impl, _ = ev.method(cls, name, args, vn=vn, state=st)
            fr = frame(vn, f, st, cls)
            obligations_backward(J, f"{what} {name} given {given}", f, impl, fr, case, ref, K)


def obligations_backward(J, what, f, impl, fr, case, ref, K):
    impl = V.strip_raise(impl)
    if impl is None:
        J.res.undecided.append(f"{what}: always raises")
        return
    J.decide(f"{what} mean", f, part(fr, impl, 0, ".mean"), [ref("m + K @ (y - (H @ m + b))", {"K": K})], case)
    J.decide(f"{what} covariance", f, part(fr, impl, 0, ".cov"), [ref("P + K @ (C - S) @ K.T", {"K": K})], case)
    J.roots(what, f, impl, case)


# ------------------------------------------------------------------ nested transitions: assume-guarantee summaries
def mm(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ("bin", "@", r, x)
    return r


def add(a, b, op="+"):
    return ("bin", op, a, b)


def normal(mean, cov):
    return ("new", "Normal", (("cov", cov), ("mean", mean)))


class Summaries:
    """Prediction and conditioning of an inner linear Gaussian model replaced by the formulas checked for it."""

    def __init__(self, J, models=(), disc=None):
        self.J = J
        self.sig = public_class(J.p, "probnum.randprocs.markov.discrete.LinearGaussian")
        self.models = dict(models)  # term -> (H, noise)
        self.disc = disc  # (base, args) -> model term
        self.sides = []  # side obligations (what, term, reference)

    def model(self, fr, base, t):
        if base in self.models:
            return self.models[base]
        if base[0] != "new":
            return None
        d = dict(base[2])
        nm = base[1].split(".")[-1]
        if nm == "LTIGaussian" and {"transition_matrix", "noise"} <= set(d):
            return d["transition_matrix"], d["noise"]
        if nm == "LinearGaussian" and {"transition_matrix_fun", "noise_fun"} <= set(d):
            return fr.call(d["transition_matrix_fun"], (t,), ()), fr.call(d["noise_fun"], (t,), ())
        return None

    def __call__(self, fr, fn, args, kwargs):
        if fn[0] not in ("at", "bound"):
            return None
        base, name = fn[1], fn[2].split(".")[-1]
        if name == "discretise" and self.disc is not None:
            a = dict(kwargs)
            return self.disc(base, args[0] if args else a.get("dt"))
        if name not in ("forward_rv", "backward_rv", "forward_realization", "backward_realization"):
            return None
        f = self.sig.find(name)
        b = V.bind_args(f, args, kwargs, drop_self=True)
        if b is None:
            return None
        env, missing = b
        for n in missing:
            d = f.defaults()
            if n in d:
                env[n] = V.Frame(fr.vn, f, {}, None).ev(d[n])
        m = self.model(fr, base, env.get("t", V.NONE))
        if m is None:
            return None
        H, noise = m
        rv = env.get("rv", ("new", "Constant", (("support", env.get("realization", V.NONE)),)))
        mean, cov, R, d = fr.attr(rv, "mean"), fr.attr(rv, "cov"), fr.attr(noise, "cov"), env["_diffusion"]
        pred = add(mm(H, mean), fr.attr(noise, "mean"))
        S = add(mm(H, cov, ("T", H)), ("bin", "*", d, R))
        cross = mm(cov, ("T", H))
        gain = mm(cross, ("inv", S))
        if name.startswith("forward"):
            info = [(("c", "crosscov"), cross)]
            g = env.get("compute_gain", ("c", False))
            if g == ("c", True):
                info.append((("c", "gain"), gain))
            elif g != ("c", False):
                info = ("upd", ("dict", tuple(info)), ("c", "gain"), gain)
                return ("tup", (normal(pred, S), info))
            return ("tup", (normal(pred, S), ("dict", tuple(info))))
        obt = env.get("rv_obtained", ("new", "Constant", (("support", env.get("realization_obtained", V.NONE)),)))
        K = env.get("gain", V.NONE)
        fwd = env.get("rv_forwarded", V.NONE)
        if K == V.NONE:
            K = gain
        else:
            self.sides.append(("gain handed on", K, gain))
        if fwd == V.NONE:
            fwd = normal(pred, S)
        else:
            self.sides.append(("mean of the prediction handed on", fr.attr(fwd, "mean"), pred))
            self.sides.append(("covariance of the prediction handed on", fr.attr(fwd, "cov"), S))
        new = normal(add(mean, mm(K, add(fr.attr(obt, "mean"), pred, "-"))),
                     add(cov, mm(K, add(fr.attr(obt, "cov"), S, "-"), ("T", K))))
        return ("tup", (new, ("dict", ((("c", "rv_forwarded"), fwd),))))


def run_transition(J, cls, what, case, summaries, args=None, opaque=(), realizations=False, params=None, dt=True):
    """Forward and backward obligations of a transition whose inner models are summarised."""
    base = dict(args or {})
    if dt:
        base["dt"] = ("s", "dt")
    f = cls.find("forward_rv")
    for gain in (True, False):
        S = summaries()
        ev = J.eval(opaque=opaque)
        ev.summaries = S
        vn = ev.new_vn()
        st = ev.state(cls, vn, params)
        impl, _ = ev.method(cls, "forward_rv", {**base, "rv": case.rv, "t": ("s", "t"), "compute_gain": ("c", gain)}, vn=vn, state=st)
        fr = frame(vn, f, st, cls)
        obligations_forward(J, f"{what} forward", f, impl, fr, case, ev, vn, cls, gain)
        sides(J, what, f, S, case)
    f = cls.find("backward_rv")
    env = case.env()
    for given in ("nothing", "both"):
        S = summaries()
        ev = J.eval(opaque=opaque)
        ev.summaries = S
        vn = ev.new_vn()
        st = ev.state(cls, vn, params)
        ref = lambda s, e=None: ev.text(s, f, cls, vn, {**env, **(e or {})})
        K = ref("P @ H.T @ linalg.inv(S)")
        a = {**base, "rv": case.rv, "rv_obtained": case.obt, "t": ("s", "t"), "gain": V.NONE, "rv_forwarded": V.NONE}
        if given == "both":
            a["gain"] = K
            a["rv_forwarded"] = normal(ref("H @ m + b"), case.S)
        impl, _ = ev.method(cls, "backward_rv", a, vn=vn, state=st)
        fr = frame(vn, f, st, cls)
        obligations_backward(J, f"{what} backward given {given}", f, impl, fr, case, ref, K)
        sides(J, what, f, S, case)


def sides(J, what, f, S, case):
    for n, x, y in S.sides:
        J.decide(f"{what}: {n}", f, x, [y], case)


# ------------------------------------------------------------------ integrators and LTI SDEs
TP = ("s", "T")
DT = ("s", "dt")


def precon_subst():
    return {("m", SELF, "precon", (DT,), ()): TP,
            ("m", at(SELF, "precon"), "inverse", (DT,), ()): ("inv", TP),
            ("m", SELF, "precon", (), (("step", DT),)): TP,
            ("m", at(SELF, "precon"), "inverse", (), (("step", DT),)): ("inv", TP)}


def iwp(J):
    cls = public_class(J.p, "probnum.randprocs.markov.integrator.IntegratedWienerTransition")
    X = at(SELF, "equivalent_discretisation_preconditioned")
    Abar, nz = at(X, "transition_matrix"), at(X, "noise")
    H = mm(TP, Abar, ("inv", TP))
    rv = ("s", "rv")
    d = ("s", "_diffusion")
    subst = precon_subst()
    subst[at(nz, "cov")] = ("bin", "/", mm(("inv", TP), add(("s", "S"), mm(H, at(rv, "cov"), ("T", H)), "-"), ("inv", TP)), d)
    case = Case(H, nz, elim=False, subst=subst, sym={TP}, b=mm(TP, at(nz, "mean")), R=None)
    run_transition(J, cls, "integrated Wiener process", case,
                   lambda: Summaries(J, {X: (Abar, nz)}), opaque={"precon", "equivalent_discretisation_preconditioned"})
    # discretise
    f = cls.find("discretise")
    ev = J.eval(opaque={"precon", "equivalent_discretisation_preconditioned", "forward_implementation", "backward_implementation"})
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    impl, _ = ev.method(cls, "discretise", {"dt": DT}, vn=vn, state=st)
    c2 = Case(H, nz, elim=False, subst=precon_subst(), sym={TP, at(nz, "cov")}, b=mm(TP, at(nz, "mean")))
    model_fields(J, "integrated Wiener discretise", f, impl, c2, frame(vn, f, st, cls),
                 H, None, mm(TP, at(nz, "cov"), TP), (at(SELF, "forward_implementation"), at(SELF, "backward_implementation")))
    # the preconditioned model itself
    f = cls.find("equivalent_discretisation_preconditioned")
    ev = J.eval(opaque={"forward_implementation", "backward_implementation"})
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    env = dict(st)
    env[f.self_name or "self"] = SELF
    impl = vn.body(f, env, cls)
    e = dict(NP, n=("s", "num_derivatives"), w=("s", "wiener_process_dimension"))
    ref = lambda t: ev.text(t, f, cls, vn, e)
    model_fields(J, "preconditioned integrated Wiener model", f, impl, c2, frame(vn, f, st, cls),
                 ref("np.kron(np.eye(w), np.flip(linalg.pascal(n + 1, kind='lower', exact=False)))"), ("c", 0),
                 ref("np.kron(np.eye(w), np.flip(linalg.hilbert(n + 1)))"),
                 (at(SELF, "forward_implementation"), at(SELF, "backward_implementation")))


def model_fields(J, what, f, impl, case, fr, H, b, R, impls=None):
    impl = V.strip_raise(impl)
    for leaf, asg in leaves(impl):
        if leaf is None or leaf[0] != "new":
            J.res.undecided.append(f"{what}: not a model construction")
            return
        d = dict(leaf[2])
        if "transition_matrix" not in d or "noise" not in d:
            J.res.undecided.append(f"{what}: fields not found")
            return
        J.decide(f"{what} transition matrix", f, d["transition_matrix"], [H], case)
        if b is not None:
            J.decide(f"{what} shift", f, fr.attr(d["noise"], "mean"), [b], case)
        J.decide(f"{what} noise covariance", f, fr.attr(d["noise"], "cov"), [R], case)
        J.roots(what, f, leaf, case)
        if impls:
            for k, r in zip(("forward_implementation", "backward_implementation"), impls):
                if k in d:
                    J.decide(f"{what} {k}", f, d[k], [r], case)


def leaves(t, asg=()):
    if t is None:
        return [(None, asg)]
    if t[0] == "phi":
        return leaves(t[2], asg + ((t[1], True),)) + leaves(t[3], asg + ((t[1], False),))
    return [(t, asg)]


def preconditioned_sde(J, dotted, what):
    """Integrators that discretise the preconditioned SDE."""
    cls = public_class(J.p, dotted)
    F, u, L = at(SELF, "drift_matrix"), at(SELF, "force_vector"), at(SELF, "dispersion_matrix")
    Ah, Qh, sh = ("s", "A"), ("s", "Q"), ("s", "shift")
    rv = ("s", "rv")
    Ti = ("inv", TP)
    subst = precon_subst()
    subst[Qh] = ("bin", "/", add(("s", "S"), mm(Ah, at(rv, "cov"), ("T", Ah)), "-"), ("s", "_diffusion"))
    case = Case(Ah, ("s", "noise"), elim=False, subst=subst, sym={TP, Qh}, b=sh, R=Qh)

    def make():
        S = Summaries(J)

        def disc(base, dt):
            if base[0] == "new" and base[1].split(".")[-1] == "LTISDE":
                d = dict(base[2])
                if {"drift_matrix", "force_vector", "dispersion_matrix"} <= set(d):
                    S.sides += [("drift matrix of the preconditioned equation", d["drift_matrix"], mm(Ti, F, TP)),
                                ("force vector of the preconditioned equation", d["force_vector"], mm(Ti, u)),
                                ("dispersion of the preconditioned equation", d["dispersion_matrix"], mm(Ti, L)),
                                ("step of the discretisation", dt, DT),
                                ]
                    return ("new", "LTIGaussian", (("noise", normal(mm(Ti, sh), mm(Ti, Qh, Ti))),
                                                   ("transition_matrix", mm(Ti, Ah, TP))))
            return None
        S.disc = disc
        return S
    run_transition(J, cls, what, case, make, opaque={"precon", "drift_matrix", "force_vector", "dispersion_matrix",
                                                      "forward_implementation", "backward_implementation"})


def lti_sde(J):
    cls = public_class(J.p, "probnum.randprocs.markov.continuous.LTISDE")
    Ah, Qh, sh = ("s", "A"), ("s", "Q"), ("s", "shift")
    rv = ("s", "rv")
    subst = {Qh: ("bin", "/", add(("s", "S"), mm(Ah, at(rv, "cov"), ("T", Ah)), "-"), ("s", "_diffusion"))}
    case = Case(Ah, ("s", "noise"), elim=False, subst=subst, sym={Qh}, b=sh, R=Qh)

    def make():
        S = Summaries(J)

        def disc(base, dt):
            if base == SELF:
                S.sides.append(("step of the discretisation", dt, DT))
                return ("new", "LTIGaussian", (("noise", normal(sh, Qh)), ("transition_matrix", Ah)))
            return None
        S.disc = disc
        return S
    run_transition(J, cls, "LTI SDE", case, make)


# ------------------------------------------------------------------ building blocks
def func(J, dotted):
    r = J.p.get_public(dotted)
    return r[1] if r and r[0] == "func" else None


def plain(f, J, args, opaque=(), types=None):
    ev = J.eval(opaque=opaque, types=types)
    vn = ev.new_vn()
    vn.opaque -= {f.name}
    return ev, vn, vn.func(f, f.cls, args)


def cholesky_update(J):
    f = func(J, "probnum.utils.linalg.cholesky_update")
    if f is None:
        J.res.undecided.append("cholesky_update: not found")
        return
    S1, S2 = ("s", "S1"), ("s", "S2")

    def extra(t, alg):
        # zero-padded columns do not change the Gram matrix
        if t[0] == "upd" and alg.nf(t[1]) == {} and t[2][0] == "tup" and len(t[2][1]) == 2:
            r, c = t[2][1]
            if r == ("slice", V.NONE, V.NONE, V.NONE) and c[0] == "slice" and c[1] == V.NONE and c[3] == V.NONE:
                return alg.nf(t[3])
        return None
    case = Case(("s", "H"), ("s", "noise"), elim=False, extra=extra)
    for second in (S2, V.NONE):
        ev, vn, impl = plain(f, J, {"S2": second}, types={S2: None})
        impl = V.strip_raise(impl)
        ref = mm(S1, ("T", S1)) if second == V.NONE else add(mm(S1, ("T", S1)), mm(S2, ("T", S2)))
        J.decide("updated factor squared", f, mm(impl, ("T", impl)), [ref], case)


def condition(J):
    f = func(J, "probnum.randprocs.markov.discrete.condition_state_on_rv")
    g = func(J, "probnum.randprocs.markov.discrete.condition_state_on_measurement")
    gain, rv, fw = ("s", "gain"), ("s", "rv"), ("s", "forwarded_rv")
    for h, obs, name in ((f, ("s", "attained_rv"), "attained_rv"), (g, ("s", "measurement"), "measurement")):
        if h is None:
            continue
        ev, vn, impl = plain(h, J, {})
        case = Case(("s", "H"), ("s", "noise"), elim=False)
        fr = frame(vn, h, {}, None)
        y, C = (at(obs, "mean"), at(obs, "cov")) if h is f else (obs, ("c", 0))
        J.decide("conditioned mean", h, fr.attr(impl, "mean"), [add(at(rv, "mean"), mm(gain, add(y, at(fw, "mean"), "-")))], case)
        J.decide("conditioned covariance", h, fr.attr(impl, "cov"),
                 [add(at(rv, "cov"), mm(gain, add(C, at(fw, "cov"), "-"), ("T", gain)))], case)


def mfd(J):
    """Matrix fraction decomposition and the discretisation of LTI SDEs."""
    cls = public_class(J.p, "probnum.randprocs.markov.continuous.LTISDE")
    f = func(J, "probnum.randprocs.markov.continuous._mfd.matrix_fraction_decomposition")
    if f is not None:
        ev, vn, impl = plain(f, J, {})
        F, L, dt = ("s", "drift_matrix"), ("s", "dispersion_matrix"), ("s", "dt")
        e = dict(NP, F=F, L=L, dt=dt, n=("idx", at(F, "shape"), ("c", 0)))
        case = Case(("s", "H"), ("s", "noise"), elim=False)
        for cond, LL in ((True, "L.reshape((-1, 1))"), (False, "L")):
            r = ev.text(f"linalg.expm(np.block([[F, {LL} @ ({LL}).T], [np.zeros(F.shape), -F.T]]) * dt)", f, None, vn, e)
            M = {"M": r}
            fr = frame(vn, f, {}, None)
            asg = {("cmp", "==", at(L, "ndim"), ("c", 1)): cond}
            for k, ref in ((0, "M[:n, :n]"), (1, "M[:n, n:] @ M[:n, :n].T"), (2, "M")):
                x = A.resolve(V.index(impl, ("c", k)), asg)
                J.decide(f"matrix fraction decomposition output {k}", f, x, [ev.text(ref, f, None, vn, {**e, **M})], case,
                         known={"idx", "numpy.block", "linalg.expm", "numpy.reshape"})
    d = cls.find("discretise")
    ev = J.eval(opaque={"matrix_fraction_decomposition", "forward_implementation", "backward_implementation"})
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    impl, _ = ev.method(cls, "discretise", {"dt": DT}, vn=vn, state=st)
    F, u, L = ("s", "drift_matrix"), ("s", "force_vector"), ("s", "dispersion_matrix")
    n = ("idx", at(F, "shape"), ("c", 0))
    call = lambda a, b: ("pcall", f.qual, (), (("dispersion_matrix", b), ("drift_matrix", a), ("dt", DT)))
    e = dict(NP, F=F, u=u, L=L, n=n)
    ref = lambda s, **k: ev.text(s, d, cls, vn, {**e, **k})
    F2 = ref("np.block([[F, np.eye(n)], [np.zeros((n, n)), np.zeros((n, n))]])")
    L2 = ref("np.concatenate((L, np.zeros(L.shape)))")
    big, small = call(F2, L2), call(F, L)
    case = Case(("s", "H"), ("s", "noise"), elim=False, extra=eye_blocks)
    impl = V.strip_raise(impl)
    fr = frame(vn, d, st, cls)
    conds = [c for c in A.conditions(impl) if normed(c) is not None]
    if len(conds) != 1:
        J.res.undecided.append("discretise: conditions")
        conds = []
    for c, forced in [(c, v) for c in conds for v in (True, False)]:
        leaf = A.resolve(impl, {c: normed(c)[1] != forced})
        if forced:
            P, Q = ref("np.eye(n, 2 * n)"), ref("np.eye(n, 2 * n, k=n)")
            H = ref("P @ M[0] @ P.T", P=P, M=big)
            b = ref("P @ M[0] @ Q.T @ u", P=P, Q=Q, M=big)
            R = ref("P @ M[1] @ P.T", P=P, M=big)
        else:
            H, b, R = ref("M[0]", M=small), ("c", 0), ref("M[1]", M=small)
        model_fields(J, "discretised SDE" + (" with force" if forced else ""), d, leaf, case, fr, H, b, R,
                     (("s", "forward_implementation"), ("s", "backward_implementation")))


def eye_blocks(t, alg):
    """np.eye(n, 2n) @ X @ np.eye(n, 2n).T and X[:n, :n] read the same block; the rectangular eye stays a letter."""
    return None


def preconditioner(J):
    cls = public_class(J.p, "probnum.randprocs.markov.integrator.NordsieckLikeCoordinates")
    f, g = cls.find("__call__"), cls.find("inverse")
    step = ("s", "step")
    pw, sc, dim = ("s", "powers"), ("s", "scales"), ("s", "dimension")
    case = Case(("s", "H"), ("s", "noise"), elim=False)
    ev = J.eval()
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    T, _ = ev.method(cls, "__call__", {"step": step}, vn=vn, state=st)
    e = dict(NP, step=step, p=pw, s=sc, d=dim)
    ref = lambda s_, **k: ev.text(s_, f, cls, vn, {**e, **k})
    J.decide("coordinate change", f, T, [ref("np.kron(np.eye(d), np.diag(np.abs(step) ** p / s))")], case)
    env = dict(st)
    env[g.self_name or "self"] = SELF
    inv = vn.body(g, env, cls)
    if inv[0] != "new":
        J.res.undecided.append("inverse coordinates: not a construction")
    else:
        d = dict(inv[2])
        vn2 = ev.new_vn()
        st2 = ev.state(cls, vn2, d)
        Ti, _ = ev.method(cls, "__call__", {"step": step}, vn=vn2, state=st2)
        J.decide("inverse coordinate change", g, Ti, [ref("np.kron(np.eye(d), np.diag(s * np.abs(step) ** (-p)))"), ("inv", T)], case)
    h = cls.find("from_order")
    ev2, vn3, new = plain(h, J, {})
    if new[0] == "new":
        d = dict(new[2])
        e2 = dict(NP, order=("s", "order"), sp=("ext", "scipy.special"))
        r = lambda s: ev2.text(s, h, cls, vn3, e2)
        J.decide("powers of the coordinates", h, d["powers"], [r("np.arange(order, -1, -1) + 0.5")], case)
        J.decide("scales of the coordinates", h, d["scales"], [r("sp.factorial(np.arange(order, -1, -1))")], case)
        J.decide("dimension of the coordinates", h, d["dimension"], [("s", "dimension")], case)
    # apply_precon
    a = func(J, "probnum.randprocs.markov.integrator._preconditioner.apply_precon")
    if a is not None:
        ev3, vn4, impl = plain(a, J, {})
        fr = frame(vn4, a, {}, None)
        P, rv = ("s", "precon"), ("s", "rv")
        J.decide("preconditioned mean", a, fr.attr(impl, "mean"), [mm(P, at(rv, "mean"))], case)
        J.decide("preconditioned covariance", a, fr.attr(impl, "cov"), [mm(P, at(rv, "cov"), ("T", P))], case)
        J.roots("preconditioned", a, impl, case)


def nonlinear(J):
    cls = public_class(J.p, "probnum.randprocs.markov.discrete.NonlinearGaussian")
    f = cls.find("forward_realization")
    ev = J.eval()
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    impl, _ = ev.method(cls, "forward_realization", {}, vn=vn, state=st)
    T, x, d = ("s", "t"), ("s", "realization"), ("s", "_diffusion")
    nz = ("call", ("s", "noise_fun"), (T,), ())
    case = Case(("s", "H"), nz, elim=False, rvterm=lambda t: t == nz)
    fr = frame(vn, f, st, cls)
    fx = ("call", ("s", "transition_fun"), (T, x), ())
    J.decide("nonlinear forward realization mean", f, part(fr, impl, 0, ".mean"), [add(fx, at(nz, "mean"))], case)
    J.decide("nonlinear forward realization covariance", f, part(fr, impl, 0, ".cov"), [("bin", "*", d, at(nz, "cov"))], case)


# ------------------------------------------------------------------ moment equations
def find_calls(t, name, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if not isinstance(t, tuple) or id(t) in seen:
        return out
    seen.add(id(t))
    if t and t[0] == "call" and t[1] == name and t not in out:
        out.append(t)
    for x in t:
        if isinstance(x, tuple):
            find_calls(x, name, out, seen)
    return out


def moment_equations(J):
    cls = public_class(J.p, "probnum.randprocs.markov.continuous.LinearSDE")
    for impl_ in ("classic", "sqrt"):
        for name in ("forward_rv", "backward_rv"):
            moment_equation(J, cls, impl_, name)


def moment_equation(J, cls, how, name):
    f = cls.find(name)
    ev = J.eval()
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"forward_implementation": ("c", how)})
    rv, obt, T, Y, d = ("s", "rv"), ("s", "rv_obtained"), ("s", "tau"), ("s", "y"), ("s", "_diffusion")
    args = {"rv": rv, "t": ("s", "t"), "dt": DT}
    if name == "backward_rv":
        args["rv_obtained"] = obt
    impl, _ = ev.method(cls, name, args, vn=vn, state=st)
    impl = V.strip_raise(impl)
    what = f"moment equations {how} {name}"
    calls = find_calls(impl, "scipy.integrate.solve_ivp")
    back = [c for c in calls if "args" in dict(c[3])]
    fwd = [c for c in calls if "args" not in dict(c[3])]
    if not fwd and name == "forward_rv":
        J.res.undecided.append(f"{what}: integrator call not found")
        return
    mu, Pi = ("s", "mu"), ("s", "Pi")
    dims = [("call", "builtins.len", (at(r, "mean"),), ()) for r in (rv, obt)] + [
        ("idx", at(at(r, "mean"), "shape"), ("c", 0)) for r in (rv, obt)] + [at(r, "size") for r in (rv, obt)]

    def state_sem(t, alg):
        if t[0] == "idx" and t[1] == Y and t[2][0] == "slice":
            if t[2][1] == V.NONE and t[2][2] in dims:
                return mu
        x, shp = None, None
        if t[0] == "m" and t[2] == "reshape":
            x, shp = t[1], t[3]
        elif t[0] == "call" and t[1] == "numpy.reshape" and t[2]:
            x, shp = t[2][0], t[2][1:]
        if x is not None and x[0] == "idx" and x[1] == Y and x[2][0] == "slice" and x[2][2] == V.NONE and x[2][1] in dims:
            if len(shp) == 1 and shp[0][0] == "tup":
                shp = shp[0][1]
            if len(shp) == 2 and all(z in dims or z == ("c", -1) for z in shp):
                return Pi
        return None
    lam = lambda n: ("call", ("s", n), (T,), ())
    G, u, L = lam("drift_matrix_function"), lam("force_vector_function"), lam("dispersion_matrix_function")
    e = dict(NP, G=G, u=u, L=L, m=mu, P=Pi, d=d, fm=("s", "fm"), fc=("s", "fc"), t=("s", "t"), dt=DT,
             dim=dims[0])
    fr = frame(vn, f, st, cls)
    ref = lambda s_, **k: ev.text(s_, f, cls, vn, {**e, **k})
    cases = {n: Case(("s", "H"), ("s", "noise"), elim=False, extra=state_sem,
                     sym={("s", "fc")} | ({Pi} if how == "classic" or n == "backward_rv" else set())) for n in ("forward_rv", "backward_rv")}
    chosen = fwd if name == "forward_rv" else back
    todo = [(name, c) for c in chosen]
    top, whole = name, what
    for c in back:  # the forward solution that the backward equation is given
        a = dict(c[3])["args"]
        if a[0] not in ("tup", "list") or len(a[1]) != 2:
            continue
        inner = []
        for k, g in enumerate(a[1]):
            v = V.strip_raise(fr.call(g, (T,), ()))
            if v is None:
                continue
            for x in find_calls(v, "scipy.integrate.solve_ivp"):
                if x not in inner:
                    inner.append(x)
            if len(inner) == 1:
                sol = ("m", inner[0], "sol", (T,), ())
                if k == 0:
                    J.decide(f"{whole} forward mean", f, v, [ref("s[:k]", s=sol, k=x) for x in dims], cases[name], known={"idx"})
                else:
                    fac = [ref("s[k:].reshape((k, k))", s=sol, k=x) for x in dims]
                    J.decide(f"{whole} forward covariance", f, v, [x if how == "classic" else mm(x, ("T", x)) for x in fac], cases[name], known={"idx", "reshape"})
        todo += [("forward_rv", x) for x in inner if "args" not in dict(x[3])]
    for name, c in todo:
        what = whole if name == top else whole + " forward pass"
        case = cases[name]
        fn, span, y0 = c[2][:3]
        kw = dict(c[3])
        extra = ()
        if name == "backward_rv":
            extra = (("fn0",), ("fn1",))
            sol = fwd[0] if fwd else None
            vn.summaries = lambda fr_, fn_, a_, k_: (("s", "fm") if fn_ == ("fn0",) else ("s", "fc") if fn_ == ("fn1",) else None) if a_ == (T,) else None
        out = fr.call(fn, (T, Y) + extra, ())
        vn.summaries = None
        pieces = stacked(out)
        ini = stacked(y0)
        src = rv if name == "forward_rv" else obt
        J.decide(f"{what} interval", f, span, [ref("(t, t + dt)" if name == "forward_rv" else "(t + dt, t)")], case)
        if ini is not None and len(ini) == 2:
            J.decide(f"{what} initial mean", f, ini[0], [at(src, "mean")], case)
            J.decide(f"{what} initial covariance", f, flat(ini[1]), [at(src, "cov") if how == "classic" or name == "backward_rv" else at(src, "cov_cholesky")], case)
        if pieces is None or len(pieces) != 2:
            J.res.undecided.append(f"{what}: right-hand side not understood")
            continue
        if name == "backward_rv":
            J.decide(f"{what} mean derivative", f, pieces[0], [ref("G @ m + d * L @ L.T @ linalg.inv(fc) @ (m - fm) + u")], case)
            J.decide(f"{what} covariance derivative", f, flat(pieces[1]),
                     [ref("(G + d * L @ L.T @ linalg.inv(fc)) @ P + P @ (G + d * L @ L.T @ linalg.inv(fc)).T - d * L @ L.T")], case)
        else:
            J.decide(f"{what} mean derivative", f, pieces[0], [ref("G @ m + u")], case)
            if how == "classic":
                J.decide(f"{what} covariance derivative", f, flat(pieces[1]), [ref("G @ P + P @ G.T + d * L @ L.T")], case)
            else:
                M = "(linalg.inv(P) @ G @ P + (linalg.inv(P) @ G @ P).T + d * linalg.inv(P) @ L @ L.T @ linalg.inv(P).T)"
                no_sign(J, what, f, pieces[1])
                J.decide(f"{what} factor derivative", f, flat(pieces[1]),
                         [ref(f"P @ (np.tril({M}, -1) + 0.5 * np.diag(np.diag({M})))")], case, known={"numpy.tril"})
    name, what, case = top, whole, cases[top]
    # what is returned: the end of the solution
    if chosen:
        sol = chosen[0]
        end = ref("s.y[:, -1]", s=sol)
        dim = [ref("e[:k]", e=end, k=k) for k in dims]
        J.decide(f"{what} returned mean", f, part(fr, impl, 0, ".mean"), dim, case, known={"idx"})
        J.roots(what, f, impl, case)


def no_sign(J, what, f, t):
    """The derivative of a factor may have negative diagonal entries; making them positive changes the equation."""
    hit = V.contains(t, lambda x: x and x[0] == "pcall" and str(x[1]).split(".")[-1] == "tril_to_positive_tril")
    J.res.count("obligations")
    if hit:
        J.res.add("formula", f"{f.qual}: {what} factor derivative", "the sign of the derivative of the Cholesky factor is "
                  "changed by tril_to_positive_tril, so the covariance cannot shrink", **loc(f))
    else:
        J.res.count("obligations decided")


def stacked(t):
    """Pieces of np.hstack((a, b)) / np.concatenate((a, b))."""
    if t is not None and t[0] == "call" and t[1] in ("numpy.hstack", "numpy.concatenate") and t[2] and t[2][0][0] in ("tup", "list"):
        return list(t[2][0][1])
    return None


def flat(t):
    if t[0] == "m" and t[2] in ("flatten", "ravel") and not t[3]:
        return t[1]
    if t[0] == "call" and t[1] == "numpy.ravel" and len(t[2]) == 1:
        return t[2][0]
    if (t[0] == "m" and t[2] == "reshape" and t[3] in ((("c", -1),), (("tup", (("c", -1),)),))):
        return t[1]
    return ("call", "not flattened", (t,), ())


# ------------------------------------------------------------------ linearisation
def ekf(J):
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.approx.DiscreteEKFComponent")
    f = cls.find("linearize")
    ev = J.eval()
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    M, rv, T = ("s", "non_linear_model"), ("s", "at_this_rv"), ("s", "tau")
    impl, _ = ev.method(cls, "linearize", {"t": ("s", "t"), "at_this_rv": rv}, vn=vn, state=st)
    fr = frame(vn, f, st, cls)
    meth = lambda n, *a: ("m", M, n, a, ())
    x0 = at(rv, "mean")
    nz = meth("noise_fun", T)
    case = Case(("s", "H"), nz, elim=False, rvterm=lambda t: t == nz)
    Jx, gx = meth("transition_fun_jacobian", T, x0), meth("transition_fun", T, x0)
    if impl[0] == "new":
        d = dict(impl[2])
        J.decide("linearised transition matrix", f, fr.call(d["transition_matrix_fun"], (T,), ()), [Jx], case)
        n = fr.call(d["noise_fun"], (T,), ())
        J.decide("linearised shift", f, fr.attr(n, "mean"), [add(add(gx, mm(Jx, x0), "-"), at(nz, "mean"))], case)
        J.decide("linearised noise covariance", f, fr.attr(n, "cov"), [at(nz, "cov")], case)
        for k, a in (("input_dim", at(M, "input_dim")), ("output_dim", at(M, "output_dim")),
                     ("forward_implementation", ("s", "forward_implementation")), ("backward_implementation", ("s", "backward_implementation"))):
            if k in d:
                J.decide(f"linearised {k}", f, d[k], [a], case)
    else:
        J.res.undecided.append("discrete EKF linearisation: not a construction")
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.approx.ContinuousEKFComponent")
    f = cls.find("linearize")
    ev = J.eval()
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    impl, _ = ev.method(cls, "linearize", {"t": ("s", "t"), "at_this_rv": rv}, vn=vn, state=st)
    fr = frame(vn, f, st, cls)
    if impl[0] == "new":
        d = dict(impl[2])
        Jx, gx = meth("drift_jacobian", T, x0), meth("drift_function", T, x0)
        J.decide("linearised drift matrix", f, fr.call(d["drift_matrix_function"], (T,), ()), [Jx], case)
        J.decide("linearised force", f, fr.call(d["force_vector_function"], (T,), ()), [add(gx, mm(Jx, x0), "-")], case)
        J.decide("linearised dispersion", f, fr.call(d["dispersion_matrix_function"], (T,), ()), [meth("dispersion_function", T, x0)], case)
    else:
        J.res.undecided.append("continuous EKF linearisation: not a construction")


def linearised(J):
    """Prediction and conditioning of a linearised model are those of the linear model it is replaced by, linearised at the state."""
    lin, H, nz = ("s", "lin"), ("s", "H"), ("s", "nz")
    names = ("DiscreteEKFComponent", "DiscreteUKFComponent", "ContinuousEKFComponent")
    for nm in names:
        cls = public_class(J.p, "probnum.filtsmooth.gaussian.approx." + nm)
        for point in (V.NONE, normal(("s", "point"), ("s", "spread"))):
            case = Case(H, nz)
            where = case.rv if point == V.NONE else point

            def make():
                S = Summaries(J, models={lin: (H, nz)})
                inner = S.__call__

                def summ(fr, fn, args, kwargs):
                    if fn[0] in ("at", "bound") and fn[2].split(".")[-1] == "linearize" and fn[1] == SELF:
                        b = V.bind_args(cls.find("linearize"), args, kwargs, drop_self=True)
                        if b is None:
                            return None
                        S.sides.append(("linearisation time", b[0].get("t", V.NONE), ("s", "t")))
                        w = b[0].get("at_this_rv", V.NONE)
                        S.sides.append(("linearisation point", fr.attr(w, "mean"), fr.attr(where, "mean")))
                        return lin
                    if fn[0] in ("at", "bound") and fn[1] == lin and "dt" in dict(kwargs):
                        S.sides.append(("step length", dict(kwargs)["dt"], DT))
                    return inner(fr, fn, args, kwargs)
                summ.sides = S.sides
                return summ
            run_transition(J, cls, f"linearised {nm}" + (" at a given point" if point != V.NONE else ""), case, make,
                           args={"_linearise_at": point})


def ukf(J):
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.approx.DiscreteUKFComponent")
    f = cls.find("linearize")
    ev = J.eval()
    vn = ev.new_vn()
    st = ev.state(cls, vn)
    M, rv, T = ("s", "non_linear_model"), ("s", "at_this_rv"), ("s", "tau")
    impl, _ = ev.method(cls, "linearize", {"t": ("s", "t"), "at_this_rv": rv}, vn=vn, state=st)
    fr = frame(vn, f, st, cls)
    if impl[0] != "new":
        J.res.undecided.append("UKF linearisation: not a construction")
        return
    d = dict(impl[2])
    nz = ("m", M, "noise_fun", (T,), ())
    case = Case(("s", "H"), nz, elim=False, rvterm=lambda t: t == nz)
    e = dict(NP, M=M, m=at(rv, "mean"), P=at(rv, "cov"), Lc=at(rv, "cov_cholesky"), t=("s", "t"), n=at(M, "input_dim"))

    def ref(s, **k):
        return ev.text(s, f, cls, vn, {**e, **k})
    U = ref("np.sqrt(n) * np.concatenate((np.zeros((1, n)), np.eye(n), -np.eye(n)), axis=0)")
    w = ref("np.hstack((np.ones(1) * (1.0**2 * (n + 0.0) - n) / (n + (1.0**2 * (n + 0.0) - n)), np.ones(2 * n) / (2.0 * (n + (1.0**2 * (n + 0.0) - n)))))")
    pts = ref("U @ Lc.T + m[None, :]", U=U)
    fx = ref("np.stack([M.transition_fun(t, p) for p in pts], axis=0)", pts=pts)
    fm = ref("w @ fx", w=w, fx=fx)
    outer = lambda a, b: ref('np.einsum("i,ijk->jk", w, np.einsum("ijx,ikx->ijk", a[..., None], b[..., None]))', w=w, a=a, b=b)
    xc, fc = ref("pts - m[None, :]", pts=pts), ref("fx - fm[None, :]", fx=fx, fm=fm)
    C, V_ = outer(xc, fc), outer(fc, fc)
    F = ref("linalg.solve(P + 1e-12 * np.eye(1), C).T", C=C)
    J.decide("cubature transition matrix", f, fr.call(d["transition_matrix_fun"], (T,), ()), [F], case)
    n = fr.call(d["noise_fun"], (T,), ())
    J.decide("cubature shift", f, fr.attr(n, "mean"), [add(add(fm, mm(F, at(rv, "mean")), "-"), at(nz, "mean"))], case)
    J.decide("cubature noise covariance", f, fr.attr(n, "cov"), [add(add(V_, mm(("T", C), ("T", F)), "-"), at(nz, "cov"))], case)


def check(ctx, res):
    J = Job(ctx, res)
    units = [linear_gaussian, cholesky_update, condition, mfd, preconditioner, nonlinear, moment_equations, ekf, linearised, ukf, iwp, lti_sde,
             lambda J: preconditioned_sde(J, "probnum.randprocs.markov.integrator.IntegratedOrnsteinUhlenbeckTransition", "integrated OU process"),
             lambda J: preconditioned_sde(J, "probnum.randprocs.markov.integrator.MaternTransition", "Matern process")]
    for u in units:
        try:
            u(J)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, A.TooBig, RecursionError, V.Budget) as e:
            res.undecided.append(f"unit {getattr(u, '__name__', u)}: {type(e).__name__} {e}")
