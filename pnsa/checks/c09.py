"""C09: every estimate is attached to its own time point (filtering, smoothing, dense output, sampling)."""
from __future__ import annotations

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..gauss import RECORDS, Gauss
from ..oblig import SELF, Eval, compare
from ..order import Order

LEVEL = "bounded-exhaustive over order types"
EXPLANATION = (
    "Filtering, smoothing, interpolation, dense output and sampling code is evaluated to terms by value numbering on grids of "
    "up to four symbolic time points in every relevant order type of query and grid points; loops over such a grid are "
    "unrolled, one transition step is an uninterpreted function of state, start time, step length, diffusion and "
    "linearisation point. The resulting terms are compared with the recursions that define the estimates."
)
ASSUMPTIONS = [
    "Index arithmetic that is right for grids of up to four points is right for longer grids (loops treat steps uniformly).",
    "Transitions themselves are judged by C15.",
]


def at(x, a):
    return ("at", x, a)


def sym(n):
    return ("s", n)


def syms(p, n):
    return tuple(sym(f"{p}{i}") for i in range(n))


def L(*xs):
    return ("list", tuple(xs))


def arr(xs):
    return ("arr", tuple(xs))


STEPS = ("forward_rv", "forward_realization", "backward_rv", "backward_realization")
IGNORED = {"compute_gain", "gain", "rv_forwarded"}


class Case:
    def __init__(self, J, subst=None, extra=None):
        self.J, self.subst, self.extra = J, subst or {}, extra

    def factory(self, asg):
        g = Gauss(subst=self.subst, extra=self.extra)
        return A.Alg(scalar=lambda a: a[0] == "s" and a[1][:1] in "tlqds" and a[1][1:].isdigit() or a[0] == "S" or a in self.J.scalars,
                     symmetric=lambda a: a[0] == "at" and a[2] == "cov", sem=g)

    def consistent(self, asg):
        return True


class Job:
    RULE = "time-point"

    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res
        self.trans = public_class(self.p, "probnum.randprocs.markov.Transition")
        self.sig = {}
        self.scalars = set()
        for n in STEPS:
            f = self.trans.find(n)
            if f is not None:
                a = f.node.args
                self.sig[n] = ([x.arg for x in a.posonlyargs + a.args][1:], f)

    # one step of a transition as an uninterpreted function of what it is given
    def step(self, name, obj, **kw):
        names, f = self.sig[name]
        d = f.defaults()
        vals = []
        for n in names:
            if n in IGNORED:
                continue
            if n in kw:
                vals.append(kw[n])
            elif n in d:
                vals.append(("c", getattr(d[n], "value", None)))
            else:
                vals.append(V.NONE)
        return ("call", "step." + name, (obj,) + tuple(vals), ())

    def summaries(self, fr, fn, args, kwargs):
        if fn[0] in ("at", "bound"):
            nm = fn[2].split(".")[-1]
            if nm in self.sig:
                names, f = self.sig[nm]
                d = dict(zip(names, args))
                d.update({k: v for k, v in kwargs if k})
                if len(args) <= len(names) and all(k for k, _ in kwargs):
                    t = self.step(nm, fn[1], **d)
                    return ("tup", (t, ("call", "info." + nm, t[2], ())))
        nm = str(fn[1] if fn[0] in ("class", "pfunc", "ext") else "").split(".")[-1]
        if nm == "_RandomVariableList" and len(args) == 1:
            return ("list", V.finite(args[0])) if V.finite(args[0]) is not None else args[0]
        if nm in ("asrandvar", "as_shape") and args:
            return args[0]
        return None

    def eval(self, ranks=None, types=None, opaque=(), truths=None, summaries=None):
        ev = Eval(self.p, records=RECORDS, opaque={"mean", "cov", "cov_cholesky"} | set(opaque), types=types or {})
        order = Order(ranks or {})
        J = self

        class E2(type(ev)):
            pass

        old = ev.new_vn

        def new_vn(assume=()):
            vn = old(assume)
            vn.order = order
            vn.collect = True
            chain = (summaries, J.summaries) if summaries else (J.summaries,)

            def summ(fr, fn, args, kwargs):
                for s in chain:
                    r = s(fr, fn, args, kwargs)
                    if r is not None:
                        return r
                return None

            vn.summaries = summ
            vn.oracle = lambda k: (truths or {}).get(k, none_rule(k, truths or {}))
            return vn

        ev.new_vn = new_vn
        return ev

    def decide(self, what, f, impl, refs, case=None, known=(), max_conds=0):
        res = self.res
        res.count("obligations")
        case = case or Case(self)
        try:
            v = compare(impl, refs, case.factory, max_conds=max_conds, consistent=case.consistent,
                        known_heads={"idx", "idx:const", "bin:*"} | {"step." + n for n in STEPS} | set(known))
        except (A.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
            res.undecided.append(f"{what}: {type(e).__name__}")
            return None
        res.count("branch assignments", v.leaves)
        if v.kind == "equal":
            res.count("obligations decided")
        elif v.kind == "differs":
            res.add(self.RULE, f"{f.qual}: {what}", f"{what} {v.detail}", **loc(f))
        else:
            res.undecided.append(f"{f.qual} {what}: {v.detail}")
        return v

    def decide_seq(self, what, f, impl, expected, case=None, known=()):
        """A sequence with the given items (each: list of alternatives)."""
        impl = V.strip_raise(impl) if impl is not None else None
        if impl is None:
            self.res.undecided.append(f"{f.qual} {what}: always raises")
            return
        xs = V.finite(impl)
        if xs is None:
            self.res.undecided.append(f"{f.qual} {what}: not a sequence of known length")
            return
        if any(x[0] == "unk" for x in xs):
            self.res.undecided.append(f"{f.qual} {what}: {[x for x in xs if x[0] == 'unk'][0][1:]}")
            return
        if len(xs) != len(expected):
            self.res.count("obligations")
            self.res.add(self.RULE, f"{f.qual}: {what}", f"{what}: {len(xs)} values, must be {len(expected)}", **loc(f))
            return
        for i, (x, e) in enumerate(zip(xs, expected)):
            self.decide(f"{what}, point {i}", f, x, e if isinstance(e, list) else [e], case, known)


def none_rule(k, truths):
    """Symbols of the analysis are never None."""
    if k[0] == "cmp" and k[1] == "is" and k[3] == V.NONE and k[2][0] in ("s", "arr", "list", "at", "call"):
        return False
    return None


def unit(J, name, fn):
    J.res.count("units")
    try:
        fn(J)
    except V.Budget:
        J.res.undecided.append(f"{name}: budget")
    except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
        import os
        if os.environ.get("PNSA_TRACE"):
            raise
        J.res.undecided.append(f"{name}: {type(e).__name__} {e}")


def draw(rv, z):
    return ("bin", "+", at(rv, "mean"), ("bin", "@", at(rv, "cov_cholesky"), z))


def flat(J):
    """x.reshape(-1) of a base-measure draw is the draw as a vector."""
    def extra(t, alg):
        if t[0] == "m" and t[2] in ("reshape", "ravel", "flatten") and t[1][0] == "s" and t[1][1].startswith("z"):
            return t[1]
        return None
    return Case(J, extra=extra)


# ------------------------------------------------------------------ smoothing recursions of a transition
def smooth_list(J):
    cls = J.trans
    f = cls.find("smooth_list")
    for n in (1, 2, 4):
        for prev in (False, True):
            loc_, rv, d = syms("l", n), syms("x", n), syms("d", max(n - 1, 1))
            post = sym("prev")
            ev = J.eval({l: i for i, l in enumerate(loc_)}, truths={})
            impl, _ = ev.method(cls, "smooth_list", {"rv_list": L(*rv), "locations": arr(loc_), "_diffusion_list": arr(d),
                                                     "_previous_posterior": post if prev else V.NONE}, state={})
            out = [rv[-1]]
            for i in reversed(range(1, n)):
                lin = ("call", post, (loc_[i - 1],), ()) if prev else V.NONE
                out.insert(0, J.step("backward_rv", SELF, rv_obtained=out[0], rv=rv[i - 1], t=loc_[i - 1],
                                     dt=("bin", "-", loc_[i], loc_[i - 1]), _diffusion=d[i - 1], _linearise_at=lin))
            J.decide_seq(f"smoothing of {n} states" + (" with linearisation points" if prev else ""), f, impl, out)


def joint(J):
    cls = J.trans
    for name, fwd in (("jointly_transform_base_measure_realization_list_backward", False),
                      ("jointly_transform_base_measure_realization_list_forward", True)):
        f = cls.find(name)
        for n in (1, 2, 4):
            for prev in (False, True):
                ts, rv, d, z = syms("t", n), syms("x", n), syms("d", max(n - 1, 1)), syms("z", n)
                post = sym("prev")
                ev = J.eval({l: i for i, l in enumerate(ts)})
                args = {"base_measure_realizations": L(*z), "t": arr(ts), "_diffusion_list": arr(d),
                        "_previous_posterior": post if prev else V.NONE}
                if fwd:
                    args["initrv"] = rv[0]
                else:
                    args["rv_list"] = L(*rv)
                impl, _ = ev.method(cls, name, args, state={})

                def recursion(shift):
                    lin = lambda i: ("call", post, (ts[i - 1],), ()) if prev else V.NONE
                    if fwd:
                        out = [draw(rv[0], z[0])]
                        for i in range(1, n):
                            s = J.step("forward_realization", SELF, realization=out[-1], t=ts[i - 1], dt=("bin", "-", ts[i], ts[i - 1]),
                                       _diffusion=d[i - 1], _linearise_at=lin(i))
                            out.append(draw(s, z[i - shift]))
                        return out
                    out = [draw(rv[-1], z[-1])]
                    for i in reversed(range(1, n)):
                        s = J.step("backward_realization", SELF, realization_obtained=out[0], rv=rv[i - 1], t=ts[i - 1],
                                   dt=("bin", "-", ts[i], ts[i - 1]), _diffusion=d[i - 1], _linearise_at=lin(i))
                        out.insert(0, draw(s, z[i - 1]))
                    return out

                what = f"joint {'forward' if fwd else 'backward'} sampling at {n} points" + (" with linearisation points" if prev else "")
                if fwd and n > 1 and is_known_shift(J, impl, recursion):
                    J.res.count("obligations")
                    J.res.add("time-point", f"{f.qual}: draw of the previous point",
                              "joint forward sampling reuses the base-measure draw of the previous point (the first draw twice, the last never)", **loc(f))
                    continue
                J.decide_seq(what, f, impl, recursion(0), flat(J))


def is_known_shift(J, impl, recursion):
    """The implementation matches the recursion with every draw taken from the previous point."""
    xs = V.finite(V.strip_raise(impl) or V.NONE)
    ref = recursion(1)
    if xs is None or len(xs) != len(ref):
        return False
    case = flat(J)
    try:
        return all(compare(x, [r], case.factory).kind == "equal" for x, r in zip(xs, ref))
    except (A.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError):
        return False


# ------------------------------------------------------------------ Kalman filter and smoother
def kalman(J):
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.Kalman")
    gen = cls.find("filtered_states_generator")
    prior = sym("prior_process")
    tr = at(prior, "transition")
    t0, x0 = at(prior, "initarg"), at(prior, "initrv")
    for n, first in ((1, "later"), (3, "later"), (3, "same")):
        for prev in (False, True):
            post = sym("prev")
            ls, ys, ms = syms("l", n), syms("y", n), syms("h", n)
            ranks = {l: i + 1 for i, l in enumerate(ls)}
            ranks[t0] = 0 if first == "later" else 1
            problem = L(*(("tup", z) for z in zip(ls, ys, ms)))
            state = {("@", SELF, "prior_process"): prior, ("@", problem, "locations"): arr(ls),
                     ("@", problem, "observations"): L(*ys), ("@", problem, "measurement_models"): L(*ms)}
            call = lambda t: ("call", post, (t,), ()) if prev else V.NONE
            rv, told, want = x0, t0, []
            infos = []
            for l, y, m in zip(ls, ys, ms):
                if not (first == "same" and l == ls[0]):
                    rv = J.step("forward_rv", tr, rv=rv, t=told, dt=("bin", "-", l, told), _linearise_at=call(told))
                rv = J.step("backward_realization", m, realization_obtained=y, rv=rv, t=l, _linearise_at=call(l))
                want.append((l, rv))
                told = l
            what = f"filtering of {n} observations" + (" starting at the initial time" if first == "same" else "") + (" with linearisation points" if prev else "")
            ev = J.eval(ranks)
            impl, vn = ev.method(cls, gen.name, {"regression_problem": problem, "_previous_posterior": post if prev else V.NONE}, state=state)
            xs = V.finite(V.strip_raise(impl) or V.NONE) if impl is not None else None
            if xs is None or any(x[0] != "tup" for x in xs):
                J.res.undecided.append(f"{gen.qual} {what}: yields not understood")
                continue
            J.decide_seq(what + ": times", gen, L(*(x[1][0] for x in xs)), [w[0] for w in want])
            J.decide_seq(what + ": states", gen, L(*(x[1][1] for x in xs)), [w[1] for w in want])
            # filter() stores state i at location i
            f = cls.find("filter")
            ev = J.eval(ranks)
            state2 = dict(state)
            rec = sym("posterior")
            log = []

            def s(fr, fn, args, kwargs, log=log):
                if fn[0] == "class" and fn[1].split(".")[-1] == "FilteringPosterior":
                    d = dict(kwargs)
                    if args:
                        d.setdefault("transition", args[0])
                    log.append(("new", d))
                    return rec
                if fn[0] == "at" and fn[1] == rec and fn[2] == "append":
                    d = dict(zip(("location", "state"), args))
                    d.update(dict(kwargs))
                    log.append(("append", d))
                    return V.NONE
                return None

            ev = J.eval(ranks, summaries=s)
            impl, vn = ev.method(cls, "filter", {"regression_problem": problem, "_previous_posterior": post if prev else V.NONE}, state=state2)
            apps = [d for k, d in log if k == "append"]
            if any(k == "new" for k, _ in log) and apps:
                J.decide_seq(what + ": stored locations", f, L(*(d.get("location", V.NONE) for d in apps)), [w[0] for w in want])
                J.decide_seq(what + ": stored states", f, L(*(d.get("state", V.NONE) for d in apps)), [w[1] for w in want])
            else:
                J.res.undecided.append(f"{f.qual} {what}: construction of the posterior not understood")
    # smooth()
    f = cls.find("smooth")
    n = 3
    ls, xs = syms("l", n), syms("x", n)
    fp = sym("filter_posterior")
    out = []

    def s(fr, fn, args, kwargs):
        nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
        if nm == "smooth_list":
            g = J.trans.find("smooth_list")
            names = [x.arg for x in g.node.args.args][1:]
            d = dict(zip(names, args))
            d.update(dict(kwargs))
            out.append((fn[1], d))
            return sym("smoothed")
        return None

    ev = J.eval({l: i for i, l in enumerate(ls)}, summaries=s)
    impl, vn = ev.method(cls, "smooth", {"filter_posterior": fp, "_previous_posterior": V.NONE},
                         state={("@", SELF, "prior_process"): prior, ("@", fp, "locations"): arr(ls), ("@", fp, "states"): L(*xs)})
    impl = V.strip_raise(impl)
    if len(out) != 1 or impl is None or impl[0] != "new":
        J.res.undecided.append(f"{f.qual}: smoothing call not understood")
        return
    obj, d = out[0]
    J.decide("smoothing uses the transition of the prior", f, obj, [tr])
    J.decide_seq("smoothed states come from the filtered states", f, d.get("rv_list", V.NONE), list(xs))
    J.decide_seq("smoothing locations", f, d.get("locations", V.NONE), list(ls))
    J.decide_seq("smoothing diffusions", f, d.get("_diffusion_list", V.NONE), [("c", 1)] * (n - 1))
    dd = dict(impl[2])
    J.decide("smoothing posterior: states", f, dd.get("states", V.NONE), [sym("smoothed")])
    J.decide_seq("smoothing posterior: locations", f, dd.get("locations", V.NONE), list(ls))
    J.decide("smoothing posterior: filtering posterior", f, dd.get("filtering_posterior", V.NONE), [fp])
    J.decide("smoothing posterior: transition", f, dd.get("transition", V.NONE), [tr])


# ------------------------------------------------------------------ posteriors
def interpolation(J):
    pre = "probnum.filtsmooth.gaussian."
    n = 4
    for name in ("FilteringPosterior", "SmoothingPosterior"):
        cls = public_class(J.p, pre + name)
        f = cls.find("interpolate")
        init = cls.find("__init__")
        for diffuse in (True, False):
            ls, xs, ds, fs = syms("l", n), syms("x", n), syms("d", n - 1), syms("f", n)
            tr, fpost = sym("transition"), sym("filtering_posterior")
            q = sym("q")
            J.scalars.add(q)
            prevstates = fs if name.startswith("Smooth") else xs
            params = {"transition": tr, "locations": L(*ls), "states": L(*xs),
                      "diffusion_model": L(*ds) if diffuse else V.NONE, "filtering_posterior": fpost}
            for pos in [("grid", i) for i in range(n)] + [("between", i) for i in range(n - 1)] + [("right", n - 1), ("left", 0)]:
                kind, i = pos
                ranks = {l: 2 * k for k, l in enumerate(ls)}
                ranks[q] = 2 * i if kind == "grid" else -1 if kind == "left" else 2 * i + 1
                ev = J.eval(ranks)
                vn = ev.new_vn()
                st = ev.state(cls, vn, params)
                st[("@", fpost, "states")] = L(*fs)
                st[("@", fpost, "locations")] = arr(ls)
                dq = lambda a, b: ("bin", "-", a, b)
                d = lambda k: ds[k] if diffuse else ("c", 1)
                if kind == "grid":
                    want = xs[i]
                elif kind == "right":
                    # at the last point filtering and smoothing distribution coincide
                    want = [J.step("forward_rv", tr, rv=r, t=ls[i], dt=dq(q, ls[i]), _diffusion=d(n - 2)) for r in {xs[i], fs[i] if name.startswith("Smooth") else xs[i]}]
                elif kind == "between":
                    p = J.step("forward_rv", tr, rv=prevstates[i], t=ls[i], dt=dq(q, ls[i]), _diffusion=d(i))
                    want = p
                    if name.startswith("Smooth"):
                        want = J.step("backward_rv", tr, rv_obtained=xs[i + 1], rv=p, t=q, dt=dq(ls[i + 1], q), _diffusion=d(i))
                else:
                    want = None
                impl, _ = ev.method(cls, "__call__", {"t": q}, vn=vn, state=st)
                label = f"{name} at a time " + {"grid": f"on grid point {i}", "between": f"between grid points {i} and {i + 1}", "right": "after the last grid point", "left": "before the first grid point"}[kind] + ("" if diffuse else " without diffusion model")
                g = cls.find("interpolate")
                if want is None:
                    J.res.count("obligations")
                    r = V.strip_raise(impl) if impl is not None else None
                    if r is None or V.contains(r, lambda z: z == V.RAISE):
                        J.res.count("obligations decided")
                    else:
                        J.res.undecided.append(f"{label}: value {str(r)[:80]}")
                    continue
                J.decide(label, g, impl, want if isinstance(want, list) else [want])
    # vectorised dense output
    cls = public_class(J.p, pre + "FilteringPosterior")
    f = cls.find("__call__")
    ls, xs, ds, qs = syms("l", 3), syms("x", 3), syms("d", 2), syms("q", 4)
    tr = sym("transition")
    ranks = {l: 2 * k for k, l in enumerate(ls)}
    ranks.update({qs[0]: 0, qs[1]: 1, qs[2]: 2, qs[3]: 9})
    ev = J.eval(ranks)
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"transition": tr, "locations": L(*ls), "states": L(*xs), "diffusion_model": L(*ds)})
    impl, _ = ev.method(cls, "__call__", {"t": arr(qs)}, vn=vn, state=st)
    dq = lambda a, b: ("bin", "-", a, b)
    want = [xs[0], J.step("forward_rv", tr, rv=xs[0], t=ls[0], dt=dq(qs[1], ls[0]), _diffusion=ds[0]), xs[1],
            J.step("forward_rv", tr, rv=xs[2], t=ls[2], dt=dq(qs[3], ls[2]), _diffusion=ds[1])]
    J.decide_seq("dense output at several times", f, impl, want)


def posterior_sampling(J):
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.SmoothingPosterior")
    f = cls.find("transform_base_measure_realizations")
    n = 3
    for diffuse in (True, False):
        for extra in (0, 2):
            ls, xs, ds = syms("l", n), syms("x", n), syms("d", n - 1)
            qs = syms("q", 1 + extra)
            tr, fpost = sym("transition"), sym("filtering_posterior")
            ranks = {l: 2 * k for k, l in enumerate(ls)}
            ranks[qs[0]] = 3
            ts = [ls[0], ls[1], qs[0], ls[2]]
            for k, q in enumerate(qs[1:]):
                ranks[q] = 7 + k
                ts.append(q)
            z = syms("z", len(ts))
            fstate = lambda t: ("call", "state", (t,), ())
            calls = []

            def s(fr, fn, args, kwargs):
                nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
                if nm.startswith("jointly_transform_base_measure_realization_list_"):
                    g = J.trans.find(nm)
                    if g is None:
                        return None
                    names = [x.arg for x in g.node.args.args][1:]
                    d = dict(zip(names, args))
                    d.update(dict(kwargs))
                    calls.append((nm.rsplit("_", 1)[1], d))
                    t = V.finite(d.get("t", V.NONE))
                    if t is None:
                        return None
                    return L(*(("call", "sample." + nm.rsplit("_", 1)[1], (u,), ()) for u in t))
                if fn == fpost and len(args) == 1:
                    t = V.finite(args[0])
                    return L(*(fstate(u) for u in t)) if t is not None else fstate(args[0])
                return None

            ev = J.eval(ranks, summaries=s)
            vn = ev.new_vn()
            st = ev.state(cls, vn, {"transition": tr, "locations": L(*ls), "states": L(*xs),
                                    "diffusion_model": arr(ds) if diffuse else V.NONE, "filtering_posterior": fpost})
            base = L(*z)
            shape = ("tup", (("c", len(ts)),))
            st[("@", base, "shape")] = shape
            st[("@", xs[0], "shape")] = ("tup", ())
            impl, _ = ev.method(cls, f.name, {"base_measure_realizations": base, "t": arr(ts)}, vn=vn, state=st)
            label = "posterior sampling" + (" with extrapolation" if extra else "") + ("" if diffuse else " without diffusion model")
            byd = {k: d for k, d in calls}
            if set(byd) != {"backward", "forward"} or len(calls) != 2:
                J.res.undecided.append(f"{label}: calls {[c for c, _ in calls]}")
                continue
            inter, ext = ts[:4], ts[3:]
            dif = {ls[0]: ds[0], ls[1]: ds[1], qs[0]: ds[1]}
            D = lambda t: dif.get(t, ds[-1]) if diffuse else ("c", 1)
            b = byd["backward"]
            J.decide_seq(label + ": interpolation times", f, b.get("t", V.NONE), inter)
            J.decide_seq(label + ": interpolation states", f, b.get("rv_list", V.NONE), [fstate(t) for t in inter])
            J.decide_seq(label + ": interpolation draws", f, b.get("base_measure_realizations", V.NONE), list(z[:4]))
            dl = V.finite(b.get("_diffusion_list", V.NONE))
            if dl is not None and len(dl) >= 3:
                J.decide_seq(label + ": interpolation diffusions", f, L(*dl[:3]), [D(t) for t in inter[:3]])
            e = byd["forward"]
            J.decide_seq(label + ": extrapolation times", f, e.get("t", V.NONE), ext)
            J.decide_seq(label + ": extrapolation draws", f, e.get("base_measure_realizations", V.NONE), list(z[3:]))
            J.decide(label + ": extrapolation starts at the last filtered state", f, e.get("initrv", V.NONE), [fstate(ls[2])])
            dl = V.finite(e.get("_diffusion_list", V.NONE))
            if dl is not None and len(dl) >= len(ext) - 1:
                J.decide_seq(label + ": extrapolation diffusions", f, L(*dl[:len(ext) - 1]), [D(t) for t in ext[:-1]])
            J.decide_seq(label + ": returned samples", f, impl, [("call", "sample.backward", (t,), ()) for t in inter[:3]] + [("call", "sample.forward", (t,), ()) for t in ext],
                         known={"sample.backward", "sample.forward"})
    # sample(): which points are drawn and which are returned
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.SmoothingPosterior")
    f = cls.find("sample")
    for given in (False, True):
        ls, xs, qs = syms("l", 3), syms("x", 3), syms("q", 2)
        ranks = {l: 2 * k for k, l in enumerate(ls)}
        ranks.update({qs[0]: 1, qs[1]: 3})
        got = []

        def s(fr, fn, args, kwargs):
            nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
            if nm == "transform_base_measure_realizations":
                d = dict(zip(("base_measure_realizations", "t"), args))
                d.update(dict(kwargs))
                got.append(d)
                return sym("samples")
            if fn[0] == "ext" and fn[1] == "numpy.take":
                d = dict(zip(("a", "indices", "axis"), args))
                d.update(dict(kwargs))
                got.append({"take": d})
                return ("call", "taken", (d.get("a", V.NONE), d.get("indices", V.NONE), d.get("axis", V.NONE)), ())
            return None

        ev = J.eval(ranks, summaries=s)
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"transition": sym("transition"), "locations": L(*ls), "states": L(*xs), "diffusion_model": V.NONE, "filtering_posterior": sym("fp")})
        st[("@", xs[0], "shape")] = ("tup", (("c", 2),))
        st[("@", xs[0], "ndim")] = ("c", 1)
        impl, _ = ev.method(cls, "sample", {"t": arr((qs[0], ls[1], qs[1])) if given else V.NONE, "size": ("tup", (("c", 5),)), "rng": sym("rng")}, vn=vn, state=st)
        calls = [d for d in got if "t" in d]
        label = "sampling at " + ("given times" if given else "the grid")
        pts = [ls[0], qs[0], ls[1], qs[1], ls[2]] if given else list(ls)
        if len(calls) != 1:
            J.res.undecided.append(f"{label}: {len(calls)} transformations")
            continue
        J.decide_seq(label + ": times of the joint sample", f, calls[0]["t"], pts)
        z = calls[0].get("base_measure_realizations", V.NONE)
        size = dict(z[3]).get("size") if z[0] in ("call", "m") and len(z) > 3 else dict(z[4]).get("size") if z[0] == "m" else None
        if z[0] == "m":
            size = dict(z[4]).get("size")
        if size is not None and V.finite(size) is not None:
            J.decide_seq(label + ": shape of the base draws", f, size, [("c", 5), ("c", len(pts)), ("c", 2)])
        else:
            J.res.undecided.append(f"{label}: shape of the draws")
        if given:
            J.decide(label + ": returned entries", f, impl, [("call", "taken", (sym("samples"), ix, ("c", -2)), ()) for ix in (arr((("c", 1), ("c", 2), ("c", 3))),)], known={"taken"})
        else:
            J.decide(label + ": returned entries", f, impl, [sym("samples")])


# ------------------------------------------------------------------ containers
def containers(J):
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.FilteringPosterior")
    f = cls.find("append")
    ls, xs = syms("l", 3), syms("x", 3)
    ranks = {l: i for i, l in enumerate(ls)}
    ev = J.eval(ranks)
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"transition": sym("transition"), "locations": L(*ls[:2]), "states": L(*xs[:2]), "diffusion_model": V.NONE})
    st[("@", SELF, "_locations")] = L(*ls[:2])
    st[("@", SELF, "_states")] = L(*xs[:2])
    st[("@", SELF, "_frozen")] = ("c", False)
    ev.method(cls, "append", {"location": ls[2], "state": xs[2]}, vn=vn, state=st)
    le = vn.last_env or {}
    fr = V.Frame(vn, f, dict(le), cls)
    J.decide_seq("locations after appending", f, fr.attr(SELF, "locations"), list(ls))
    J.decide_seq("states after appending", f, fr.attr(SELF, "states"), list(xs))
    st2 = {k: v for k, v in le.items() if isinstance(k, tuple)}
    for i in range(3):
        impl, _ = ev.method(cls, "__getitem__", {"idx": ("c", i)}, vn=vn, state=st2)
        J.decide(f"entry {i} of a posterior", cls.find("__getitem__"), impl, [xs[i]])
    cls = public_class(J.p, "probnum.problems.TimeSeriesRegressionProblem")
    f = cls.find("__getitem__")
    ys, ms = syms("y", 3), syms("h", 3)
    st = {("@", SELF, "locations"): arr(ls), ("@", SELF, "observations"): L(*ys), ("@", SELF, "measurement_models"): L(*ms)}
    for i in range(3):
        ev = J.eval(ranks)
        impl, _ = ev.method(cls, "__getitem__", {[x.arg for x in f.node.args.args][1]: ("c", i)}, state=st)
        J.decide_seq(f"observation {i} of a regression problem", f, impl, [ls[i], ys[i], ms[i]])
    cls = public_class(J.p, "probnum.filtsmooth.particle.ParticleFilterPosterior")


def markov_sampling(J):
    cls = public_class(J.p, "probnum.randprocs.markov.MarkovProcess")
    f = cls.find("_sample_at_input")
    ts = syms("t", 3)
    for many in (False, True):
        got = []

        def s(fr, fn, args, kwargs):
            nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
            if nm == "jointly_transform_base_measure_realization_list_forward":
                names = [x.arg for x in J.trans.find(nm).node.args.args][1:]
                d = dict(zip(names, args))
                d.update(dict(kwargs))
                got.append((fn[1], d))
                return sym(f"sample{len(got)}")
            if nm in ("rvs", "standard_normal") or (fn[0] == "ext" and fn[1].split(".")[-1] in ("rvs", "standard_normal", "normal")):
                got.append(("draw", dict(kwargs).get("size", args[0] if args else V.NONE)))
                return L(sym("z0"), sym("z1")) if many else sym("z")
            return None

        ev = J.eval({t: i for i, t in enumerate(ts)}, summaries=s)
        vn = ev.new_vn()
        x0 = sym("initrv")
        st = {("@", SELF, "initrv"): x0, ("@", SELF, "transition"): sym("transition"), ("@", x0, "shape"): ("tup", (("c", 4),))}
        size = ("tup", (("c", 2),)) if many else ("tup", ())
        impl, _ = ev.method(cls, f.name, {"rng": sym("rng"), "args": arr(ts), "size": size}, vn=vn, state=st)
        draws = [x[1] for x in got if x[0] == "draw"]
        calls = [d for o, d in got if o != "draw"]
        label = "Markov process samples" + (" (several)" if many else "")
        if len(draws) != 1 or len(calls) != (2 if many else 1):
            J.res.undecided.append(f"{label}: calls not understood")
            continue
        J.decide_seq(f"{label}: shape of the base draws", f, draws[0], ([("c", 2)] if many else []) + [("c", 3), ("c", 4)])
        for k, d in enumerate(calls):
            J.decide_seq(f"{label}: times", f, d.get("t", V.NONE), list(ts))
            J.decide(f"{label}: initial state", f, d.get("initrv", V.NONE), [x0])
            J.decide(f"{label}: draws", f, d.get("base_measure_realizations", V.NONE), [sym(f"z{k}") if many else sym("z")])
            dl = V.finite(d.get("_diffusion_list", V.NONE))
            if dl is not None and len(dl) >= 2:
                J.decide_seq(f"{label}: diffusions", f, L(*dl[:2]), [("c", 1)] * 2)


# ------------------------------------------------------------------ ODE solutions
def capture(J, names, log, result):
    """Summary hook recording constructor calls of the named classes."""
    def s(fr, fn, args, kwargs):
        if fn[0] == "class" and fn[1].split(".")[-1] in names:
            c = J.p.class_by_qual.get(fn[1])
            init = c.find("__init__") if c is not None else None
            ps = [x.arg for x in init.node.args.args][1:] if init is not None else []
            d = dict(zip(ps, args))
            d.update({k: v for k, v in kwargs if k})
            log.append((fn[1].split(".")[-1], d))
            return result(fn[1].split(".")[-1], len(log))
        return None
    return s


def ode_solutions(J):
    base = public_class(J.p, "probnum.diffeq.ODESolver")
    f = base.find("solve")
    n = 3
    ts, xs = syms("t", n), syms("x", n)
    states = syms("w", n)
    log = []

    def s(fr, fn, args, kwargs):
        nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
        if nm == "solution_generator":
            g = base.find("solution_generator")
            d = dict(zip([x.arg for x in g.node.args.args][1:], args))
            d.update(dict(kwargs))
            log.append(("gen", d))
            return L(*states)
        if nm == "rvlist_to_odesol":
            d = dict(zip(("times", "rvs"), args))
            d.update(dict(kwargs))
            log.append(("sol", d))
            return sym("odesol")
        if nm == "postprocess":
            return ("call", "postprocess", args + tuple(v for _, v in kwargs), ())
        return None

    ev = J.eval({t: i for i, t in enumerate(ts)}, summaries=s)
    st = {}
    for w, t, x in zip(states, ts, xs):
        st[("@", w, "t")] = t
        st[("@", w, "rv")] = x
    impl, _ = ev.method(base, "solve", {"ivp": sym("ivp"), "stop_at": sym("stop_at"), "callbacks": sym("callbacks")}, state=st)
    sols = [d for k, d in log if k == "sol"]
    gens = [d for k, d in log if k == "gen"]
    if len(sols) == 1 and len(gens) == 1:
        J.decide_seq("ODE solution: times", f, sols[0].get("times", V.NONE), list(ts))
        J.decide_seq("ODE solution: states", f, sols[0].get("rvs", V.NONE), list(xs))
        J.decide("ODE solution is post-processed", f, impl, [("call", "postprocess", (sym("odesol"),), ())], known={"postprocess"})
        for k in ("ivp", "stop_at", "callbacks"):
            J.decide(f"ODE solution: {k} handed to the generator", f, gens[0].get(k, V.NONE), [sym(k)])
    else:
        J.res.undecided.append("ODESolver.solve: calls not understood")
    odefilter(J)
    filter_solution(J)
    perturbed(J)


def odefilter(J):
    cls = public_class(J.p, "probnum.diffeq.odefilter.ODEFilter")
    n = 3
    ts, xs, ds = syms("t", n), syms("x", n), syms("d", n - 1)
    prior, dm = sym("prior_process"), sym("diffusion_model")
    tr = at(prior, "transition")
    f = cls.find("rvlist_to_odesol")
    log = []
    ev = J.eval({t: i for i, t in enumerate(ts)}, summaries=capture(J, {"FilteringPosterior", "ODEFilterSolution"}, log, lambda nm, k: sym(nm)))
    impl, _ = ev.method(cls, "rvlist_to_odesol", {"times": L(*ts), "rvs": L(*xs)},
                        state={("@", SELF, "prior_process"): prior, ("@", SELF, "diffusion_model"): dm})
    d = dict(log)
    if "FilteringPosterior" in d and "ODEFilterSolution" in d:
        p = d["FilteringPosterior"]
        J.decide_seq("ODE filter solution: locations", f, p.get("locations", V.NONE), list(ts))
        J.decide_seq("ODE filter solution: states", f, p.get("states", V.NONE), list(xs))
        J.decide("ODE filter solution: transition", f, p.get("transition", V.NONE), [tr])
        J.decide("ODE filter solution: diffusion model", f, p.get("diffusion_model", V.NONE), [dm])
        J.decide("ODE filter solution wraps the filtering posterior", f, d["ODEFilterSolution"].get("kalman_posterior", V.NONE), [sym("FilteringPosterior")])
    else:
        J.res.undecided.append(f"{f.qual}: construction not understood")
    f = cls.find("postprocess")
    for const in (True, False):
        for smooth in (True, False):
            log, apps, sm = [], [], []
            rec = sym("FilteringPosterior")
            odesol = sym("odesol")
            scale = sym("sigma")
            J.scalars.add(scale)
            cap = capture(J, {"FilteringPosterior", "SmoothingPosterior", "ODEFilterSolution"}, log, lambda nm, k: sym(nm))
            asked = []

            def s(fr, fn, args, kwargs):
                if fn[0] == "at" and fn[1] == rec and fn[2] == "append":
                    d = dict(zip(("location", "state"), args))
                    d.update(dict(kwargs))
                    apps.append(d)
                    key = ("@", rec, "states")
                    fr.env[key] = L(*(a.get("state", V.NONE) for a in apps))
                    fr.env[("@", rec, "locations")] = arr([a.get("location", V.NONE) for a in apps])
                    return V.NONE
                nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
                if nm == "smooth_list":
                    d = dict(zip([x.arg for x in J.trans.find("smooth_list").node.args.args][1:], args))
                    d.update(dict(kwargs))
                    sm.append(d)
                    return sym("smoothed")
                if fn == dm and len(args) == 1:
                    t = V.finite(args[0])
                    asked.append(args[0])
                    return arr([("call", "diffusion", (u,), ()) for u in t]) if t is not None else None
                return cap(fr, fn, args, kwargs)

            kp = at(odesol, "kalman_posterior")
            ev = J.eval({t: i for i, t in enumerate(ts)}, summaries=s)
            st = {("@", SELF, "prior_process"): prior, ("@", SELF, "diffusion_model"): dm, ("@", dm, "diffusion"): scale,
                  ("@", SELF, "_calibrate_all_states_post_hoc"): ("c", const), ("@", SELF, "_calibrate_at_each_step"): ("c", not const),
                  ("@", SELF, "with_smoothing"): ("c", smooth), ("@", kp, "locations"): arr(ts), ("@", kp, "states"): L(*xs)}
            impl, vn = ev.method(cls, "postprocess", {"odesol": odesol}, state=st)
            label = f"ODE filter post-processing ({'constant' if const else 'dynamic'} diffusion{', smoothing' if smooth else ''})"
            fp = [d for k, d in log if k == "FilteringPosterior"]
            if len(fp) != 1:
                J.res.undecided.append(f"{label}: not understood")
                continue
            if apps:
                locs, sts = L(*(a.get("location", V.NONE) for a in apps)), L(*(a.get("state", V.NONE) for a in apps))
            else:
                locs, sts = fp[0].get("locations", V.NONE), fp[0].get("states", V.NONE)
            J.decide_seq(label + ": locations", f, locs, list(ts))
            items = V.finite(sts)
            fr = V.Frame(vn, f, {}, cls)
            if items is None or len(items) != n:
                J.res.undecided.append(f"{label}: states not understood")
                continue
            sc = scale if const else ("c", 1)
            for i, x in enumerate(items):
                J.decide(f"{label}: mean {i}", f, fr.attr(x, "mean"), [at(xs[i], "mean")])
                J.decide(f"{label}: covariance {i}", f, fr.attr(x, "cov"), [("bin", "*", sc, at(xs[i], "cov"))])
                J.decide(f"{label}: Cholesky factor {i}", f, fr.attr(x, "cov_cholesky"), [("bin", "*", ("call", "numpy.sqrt", (sc,), ()) if const else ("c", 1), at(xs[i], "cov_cholesky"))])
            want = sym("SmoothingPosterior" if smooth else "FilteringPosterior")
            sol = [d for k, d in log if k == "ODEFilterSolution"]
            if len(sol) == 1:
                J.decide(label + ": returned posterior", f, sol[0].get("kalman_posterior", V.NONE), [want])
            if not smooth:
                continue
            if len(sm) != 1:
                J.res.undecided.append(f"{label}: smoothing not understood")
                continue
            got = V.finite(sm[0].get("rv_list", V.NONE))
            if got is not None and len(got) == n:
                for i, x in enumerate(got):
                    J.decide(f"{label}: smoothed from the calibrated filter state {i} (mean)", f, fr.attr(x, "mean"), [at(xs[i], "mean")])
                    J.decide(f"{label}: smoothed from the calibrated filter state {i} (covariance)", f, fr.attr(x, "cov"), [("bin", "*", sc, at(xs[i], "cov"))])
            J.decide_seq(label + ": smoothing locations", f, sm[0].get("locations", V.NONE), list(ts))
            J.decide_seq(label + ": smoothing diffusions", f, sm[0].get("_diffusion_list", V.NONE), [("call", "diffusion", (t,), ()) for t in ts[1:]], known={"diffusion"})
            sp = [d for k, d in log if k == "SmoothingPosterior"]
            if len(sp) == 1:
                J.decide(label + ": smoothing posterior states", f, sp[0].get("states", V.NONE), [sym("smoothed")])
                J.decide_seq(label + ": smoothing posterior locations", f, sp[0].get("locations", V.NONE), list(ts))
                J.decide(label + ": smoothing posterior keeps the filtering posterior", f, sp[0].get("filtering_posterior", V.NONE), [rec])
                J.decide(label + ": smoothing posterior diffusion model", f, sp[0].get("diffusion_model", V.NONE), [dm])


def filter_solution(J):
    cls = public_class(J.p, "probnum.diffeq.odefilter.ODEFilterSolution")
    init = cls.find("__init__")
    n = 3
    ts, xs = syms("t", n), syms("x", n)
    kp = sym("kalman_posterior")
    tr = at(kp, "transition")
    got = []

    def s(fr, fn, args, kwargs):
        nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else fn[1].split(".")[-1] if fn[0] == "pfunc" else ""
        if nm == "proj2coord":
            return ("call", "proj", (dict(kwargs).get("coord", args[0] if args else V.NONE),), ())
        if nm == "cholesky_update" and len(args) == 1:
            return ("call", "chol", args, ())
        if nm == "interpolate" and fn[1] == kp:
            d = dict(zip(("t", "previous_index", "next_index"), args))
            d.update(dict(kwargs))
            return ("call", "interpolated", tuple(d.get(k, V.NONE) for k in ("t", "previous_index", "next_index")), ())
        if nm == "sample" and fn[1] == kp:
            d = dict(zip(("rng", "t", "size"), args))
            d.update(dict(kwargs))
            return ("call", "sampled", tuple(d.get(k, V.NONE) for k in ("rng", "t", "size")), ())
        return None

    ev = J.eval({t: i for i, t in enumerate(ts)}, summaries=s)
    vn = ev.new_vn()
    env = {init.self_name: SELF, [x.arg for x in init.node.args.args][1]: kp, ("@", kp, "states"): L(*xs), ("@", kp, "locations"): arr(ts)}
    vn.body(init, env, cls)
    le = vn.last_env or {}
    fr = V.Frame(vn, init, dict(le), cls)
    J.decide_seq("ODE solution: locations of the posterior", init, fr.attr(SELF, "locations"), list(ts))
    known = {"proj", "interpolated", "sampled", "chol"}
    proj = lambda k: ("call", "proj", (("c", k),), ())
    for attr, k in (("states", 0), ("derivatives", 1)):
        v = V.finite(fr.attr(SELF, attr))
        if v is None or len(v) != n:
            J.res.undecided.append(f"ODEFilterSolution.{attr}: not understood")
            continue
        for i, x in enumerate(v):
            J.decide(f"ODE solution {attr} {i}: mean", init, fr.attr(x, "mean"), [("bin", "@", proj(k), at(xs[i], "mean"))], known=known)
            J.decide(f"ODE solution {attr} {i}: covariance", init, fr.attr(x, "cov"), [("bin", "@", ("bin", "@", proj(k), at(xs[i], "cov")), ("T", proj(k)))], known=known)
    st = {k: v for k, v in le.items() if isinstance(k, tuple)}
    f = cls.find("interpolate")
    q = sym("q")
    impl, _ = ev.method(cls, "interpolate", {"t": q, "previous_index": sym("i"), "next_index": sym("j")}, vn=vn, state=st)
    impl = V.strip_raise(impl)
    x = ("call", "interpolated", (q, sym("i"), sym("j")), ())
    J.decide("dense ODE solution: mean", f, fr.attr(impl, "mean"), [("bin", "@", proj(0), at(x, "mean"))], known=known)
    J.decide("dense ODE solution: covariance", f, fr.attr(impl, "cov"), [("bin", "@", ("bin", "@", proj(0), at(x, "cov")), ("T", proj(0)))], known=known)
    f = cls.find("sample")
    ev2 = J.eval({}, summaries=s)
    impl, vn2 = ev2.method(cls, "sample", {"rng": sym("rng"), "t": sym("t"), "size": sym("size")}, state=st)
    smp = ("call", "sampled", (sym("rng"), sym("t"), sym("size")), ())
    J.decide("ODE solution samples", f, impl, [("call", "numpy.einsum", (("c", "dq,...q->...d"), proj(0), smp), ()), ("bin", "@", smp, ("T", proj(0)))], known=known)


def perturbed(J):
    cls = public_class(J.p, "probnum.diffeq.perturbed.step.PerturbedStepSolution")
    n = 4
    ls, xs, sc, ip = syms("l", n), syms("x", n), syms("s", n - 1), syms("p", n - 1)
    q = sym("q0")
    f = cls.find("interpolate")
    for kind, i in [("grid", 0), ("grid", n - 1)] + [("between", k) for k in range(n - 1)]:
        ranks = {l: 2 * k for k, l in enumerate(ls)}
        ranks[q] = 2 * i if kind == "grid" else 2 * i + 1
        ev = J.eval(ranks)
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"scales": L(*sc), "locations": L(*ls), "states": L(*xs), "interpolants": L(*ip)})
        impl, _ = ev.method(cls, "__call__", {"t": q}, vn=vn, state=st)
        label = f"perturbed solution " + (f"at grid point {i}" if kind == "grid" else f"between grid points {i} and {i + 1}")
        if kind == "grid":
            J.decide(label, f, impl, [xs[i]])
            continue
        impl = V.strip_raise(impl)
        fr = V.Frame(vn, f, {}, cls)
        arg = ("bin", "+", ls[i], ("bin", "*", ("bin", "-", q, ls[i]), sc[i]))
        J.decide(label, f, dict(impl[2]).get("support", impl) if impl is not None and impl[0] == "new" else impl, [("call", ip[i], (arg,), ())])
    cls = public_class(J.p, "probnum.diffeq.perturbed.step.PerturbedStepSolver")
    f = cls.find("rvlist_to_odesol")
    log = []
    ev = J.eval({}, summaries=capture(J, {"PerturbedStepSolution"}, log, lambda nm, k: sym(nm)))
    inner = sym("solver")
    impl, _ = ev.method(cls, "rvlist_to_odesol", {"times": sym("times"), "rvs": sym("rvs")},
                        state={("@", SELF, "scales"): sym("scales"), ("@", SELF, "solver"): inner})
    if len(log) == 1:
        d = log[0][1]
        for k, w in (("scales", sym("scales")), ("locations", sym("times")), ("states", sym("rvs")), ("interpolants", at(inner, "interpolants"))):
            J.decide(f"perturbed solution: {k}", f, d.get(k, V.NONE), [w])
    else:
        J.res.undecided.append("PerturbedStepSolver.rvlist_to_odesol: not understood")
    f = cls.find("attempt_step")
    state, dt, ns = sym("state"), sym("dt"), sym("noisy")
    J.scalars.update({dt, ns, at(state, "t")})

    def s(fr, fn, args, kwargs):
        nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
        if nm == "perturb_step":
            return ns
        if nm == "attempt_step":
            return ("call", "attempt", args + tuple(v for _, v in kwargs), ())
        return None

    ev = J.eval({}, summaries=s)
    vn = ev.new_vn()
    impl, _ = ev.method(cls, "attempt_step", {"state": state, "dt": dt}, vn=vn, state={("@", SELF, "solver"): inner})
    impl = V.strip_raise(impl)
    fr = V.Frame(vn, f, dict(vn.last_env or {}), cls)
    a = ("call", "attempt", (state, ns), ())
    if impl is not None and impl[0] == "new":
        d = dict(impl[2])
        J.decide("perturbed step: new time", f, d.get("t", V.NONE), [("bin", "+", at(state, "t"), dt)])
        for k in ("rv", "error_estimate", "reference_state"):
            J.decide(f"perturbed step: {k}", f, d.get(k, V.NONE), [at(a, k)], known={"attempt"})
        J.decide("perturbed step: problem", f, d.get("ivp", V.NONE), [at(state, "ivp")])


# ------------------------------------------------------------------ diffusions
def diffusions(J):
    cls = public_class(J.p, "probnum.randprocs.markov.continuous.PiecewiseConstantDiffusion")
    f = cls.find("__call__")
    n = 4
    ls, ds = syms("l", n), syms("d", n - 1)
    q = sym("q0")
    pts = [("before the first location", -1, 0), ("at the first location", 0, 0)]
    for k in range(n - 1):
        pts += [(f"between locations {k} and {k + 1}", 2 * k + 1, k), (f"at location {k + 1}", 2 * k + 2, k)]
    pts.append(("after the last location", 2 * n, n - 2))
    for label, r, want in pts:
        ranks = {l: 2 * k for k, l in enumerate(ls)}
        ranks[q] = r
        for vec in (False, True):
            ev = J.eval(ranks)
            impl, _ = ev.method(cls, "__call__", {"t": arr((q,)) if vec else q},
                                state={("@", SELF, "_locations"): L(*ls), ("@", SELF, "_diffusions"): L(*ds)})
            what = f"piecewise constant diffusion {label}" + (" (vectorised)" if vec else "")
            if vec:
                J.decide_seq(what, f, impl, [ds[want]])
            else:
                J.decide(what, f, impl, [ds[want]])
    f = cls.find("update_in_place")
    ev = J.eval({})
    vn = ev.new_vn()
    ev.method(cls, "update_in_place", {"local_estimate": sym("d9"), "t": sym("t9")}, vn=vn,
              state={("@", SELF, "_locations"): L(*ls), ("@", SELF, "_diffusions"): L(*ds)})
    fr = V.Frame(vn, f, dict(vn.last_env or {}), cls)
    J.decide_seq("diffusions after an update", f, fr.attr(SELF, "diffusions"), list(ds) + [sym("d9")])
    J.decide_seq("locations after an update", f, fr.attr(SELF, "locations"), list(ls) + [sym("t9")])
    ev = J.eval({})
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"t0": sym("t0")})
    init = cls.find("__init__")
    vn.body(init, {init.self_name: SELF, "t0": sym("t0")}, cls)
    fr = V.Frame(vn, init, dict(vn.last_env or {}), cls)
    J.decide_seq("locations of a new diffusion", init, fr.attr(SELF, "locations"), [sym("t0")])


# ------------------------------------------------------------------ particle filter
def particles(J):
    cls = public_class(J.p, "probnum.filtsmooth.particle.ParticleFilter")
    gen = cls.find("filter_generator")
    prior, imp = sym("prior_process"), sym("importance")
    t0, x0 = at(prior, "initarg"), at(prior, "initrv")
    N = 2
    for same in (False, True):
        for resample, needed in ((False, False), (True, None), (True, False), (True, True)):
            n = 2
            ls, ys, ms = syms("l", n), syms("y", n), syms("h", n)
            ranks = {l: i + 1 for i, l in enumerate(ls)}
            ranks[t0] = 1 if same else 0
            if needed is not None:
                ranks[sym("ess")], ranks[sym("threshold")] = (10, 11) if needed else (11, 10)
            problem = L(*(("tup", z) for z in zip(ls, ys, ms)))
            cnt = []

            def s(fr, fn, args, kwargs):
                nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else fn[1].split(".")[-1] if fn[0] in ("pfunc", "ext") else ""
                kw = dict(kwargs)
                if fn[0] == "ext" and fn[1] in ("numpy.ones", "numpy.full"):
                    return arr([("c", 1.0)] * N)
                if nm == "sample" and fn[1] == x0 and ("size" in kw or len(args) > 1):
                    return L(*syms("init", N))
                if nm == "sample":
                    return ("call", "drawn", (fn[1],), ())
                if nm == "generate_importance_rv":
                    d = dict(zip(("particle", "data", "t", "dt", "measurement_model"), args))
                    d.update(kw)
                    k = tuple(d.get(x, V.NONE) for x in ("particle", "data", "t", "dt", "measurement_model"))
                    return ("tup", (("call", "proposal", k, ()), ("call", "dynamics", k, ()), V.NONE))
                if nm == "process_initrv_with_data":
                    d = dict(zip(("initrv", "data", "t", "measurement_model"), args))
                    d.update(kw)
                    k = tuple(d.get(x, V.NONE) for x in ("initrv", "data", "t", "measurement_model"))
                    return ("tup", (("call", "proposal0", k, ()), ("call", "dynamics0", k, ()), V.NONE))
                if nm == "logpdf":
                    return ("call", "logpdf", (fn[1],) + args, ())
                if nm == "log_correction_factor":
                    d = dict(zip(("proposal_state", "importance_rv", "dynamics_rv", "old_weight"), args))
                    d.update(kw)
                    return ("call", "correction", tuple(d.get(x, V.NONE) for x in ("proposal_state", "importance_rv", "dynamics_rv", "old_weight")), ())
                if nm == "effective_number_of_events":
                    return ("call", "ess", args, ()) if needed is None else sym("ess")
                if nm == "resample":
                    cnt.append(fn[1])
                    return ("call", "resampled", (fn[1],), ()) if needed is None else sym(f"r{len(cnt) - 1}")
                return None

            ev = J.eval(ranks, summaries=s)
            st = {("@", SELF, "prior_process"): prior, ("@", SELF, "importance_distribution"): imp, ("@", SELF, "num_particles"): ("c", N),
                  ("@", SELF, "with_resampling"): ("c", resample), ("@", SELF, "rng"): sym("rng"),
                  ("@", SELF, "min_effective_num_of_particles"): sym("threshold"),
                  ("@", problem, "locations"): arr(ls), ("@", problem, "observations"): L(*ys), ("@", problem, "measurement_models"): L(*ms)}
            for k in range(n):
                st[("@", sym(f"r{k}"), "support")] = L(*syms(f"rp{k}_", N))
                st[("@", sym(f"r{k}"), "probabilities")] = arr(syms(f"rw{k}_", N))
            impl, vn = ev.method(cls, gen.name, {"regression_problem": problem}, state=st)
            label = "particle filter" + (" starting at the initial time" if same else "") + {None: " with resampling", False: " with unneeded resampling", True: " with resampling at every step"}[needed if resample else None] * resample
            ok = V.strip_raise(impl) if impl is not None else None
            xs = V.finite(ok) if ok is not None else None
            if xs is None or len(xs) != n or any(x[0] != "tup" for x in xs):
                J.res.undecided.append(f"{label}: yields not understood")
                continue
            fr = V.Frame(vn, gen, {}, cls)
            add = lambda a, b: ("bin", "+", a, b)
            parts, w = syms("init", N), [("bin", "/", ("c", 1), ("c", N))] * N
            told = t0
            known = {"drawn", "proposal", "dynamics", "proposal0", "dynamics0", "logpdf", "correction", "exp", "numpy.exp", "ess", "resampled", "p:resample", "bin:/"}
            for i in range(n):
                newp, neww = [], []
                for p, ow in zip(parts, w):
                    if same and i == 0:
                        key = (x0, ys[i], ls[i], ms[i])
                        pr, dy = ("call", "proposal0", key, ()), ("call", "dynamics0", key, ())
                    else:
                        key = (p, ys[i], told, ("bin", "-", ls[i], told), ms[i])
                        pr, dy = ("call", "proposal", key, ()), ("call", "dynamics", key, ())
                    x = ("call", "drawn", (pr,), ())
                    ll = ("call", "logpdf", (J.step("forward_realization", ms[i], realization=x, t=ls[i]), ys[i]), ())
                    neww.append(("call", "numpy.exp", (add(ll, ("call", "correction", (x, pr, dy, ow), ())),), ()))
                    newp.append(x)
                tot = add(neww[0], neww[1])
                nw = [("bin", "/", v, tot) for v in neww]
                rv = xs[i][1][0]
                leaf = rv
                if resample and rv[0] == "phi":
                    a, b = rv[2], rv[3]
                    leaf = a if a[0] == "new" else b
                    other = b if leaf is a else a
                    J.decide(f"{label}, step {i}: resampled from the current particles", gen, other, [("call", "resampled", (leaf,), ())], known=known | {"new:probnum.randvars._categorical.Categorical"})
                if needed:
                    if len(cnt) <= i:
                        J.res.undecided.append(f"{label}, step {i}: no resampling seen")
                        break
                    J.decide(f"{label}, step {i}: resampled state is returned", gen, rv, [sym(f"r{i}")])
                    leaf = cnt[i]
                if leaf[0] != "new":
                    J.res.undecided.append(f"{label}, step {i}: state not understood")
                    break
                d = dict(leaf[2])
                J.decide_seq(f"{label}, step {i}: particles", gen, d.get("support", V.NONE), newp, known=known)
                pw = d.get("probabilities", V.NONE)
                total = ("call", "numpy.sum", (arr(neww),), ())
                J.decide_seq(f"{label}, step {i}: weights", gen, pw, [[("bin", "/", v, total), ("bin", "/", v, tot)] for v in neww], known=known | {"numpy.sum"})
                if resample and needed is None:
                    break  # afterwards the particles depend on whether resampling happened
                parts, w = (newp, list(V.finite(pw) or nw)) if not needed else (syms(f"rp{i}_", N), syms(f"rw{i}_", N))
                told = ls[i]
    # the importance distributions
    pre = "probnum.filtsmooth.particle."
    dyn = sym("dynamics_model")
    p, y, t, dt, h = sym("particle"), sym("data"), sym("t0"), sym("t1"), sym("h0")
    one = J.step("forward_realization", dyn, realization=p, t=t, dt=dt)
    for name in ("BootstrapImportanceDistribution", "LinearizationImportanceDistribution"):
        c = public_class(J.p, pre + name)
        f = c.find("generate_importance_rv")
        lin = sym("linearization_strategy")
        st = {("@", SELF, "dynamics_model"): dyn, ("@", SELF, "linearization_strategy"): lin}
        lm = ("call", lin, (h,), ())
        ev = J.eval({})
        impl, _ = ev.method(c, f.name, {"particle": p, "data": y, "t": t, "dt": dt, "measurement_model": h}, state=st)
        imp_rv = one if name.startswith("Boot") else J.step("backward_realization", lm, realization_obtained=y, rv=one, t=("bin", "+", t, dt))
        xs = V.finite(V.strip_raise(impl) or V.NONE)
        if xs is not None and len(xs) == 3:
            J.decide(f"{name}: proposal", f, xs[0], [imp_rv])
            J.decide(f"{name}: dynamics", f, xs[1], [one])
        f = c.find("process_initrv_with_data")
        ev = J.eval({})
        impl, _ = ev.method(c, f.name, {"initrv": x0, "data": y, "t": t, "measurement_model": h}, state=st)
        xs = V.finite(V.strip_raise(impl) or V.NONE)
        if xs is not None and len(xs) == 3:
            J.decide(f"{name}: initial proposal", f, xs[0], [x0 if name.startswith("Boot") else J.step("backward_realization", lm, realization_obtained=y, rv=x0, t=t)])
            J.decide(f"{name}: initial distribution", f, xs[1], [x0])
        f = c.find("log_correction_factor")
        x, iv, dv, w = sym("proposal_state"), sym("importance_rv"), sym("dynamics_rv"), sym("w0")
        ev = J.eval({})
        impl, _ = ev.method(c, f.name, {"proposal_state": x, "importance_rv": iv, "dynamics_rv": dv, "old_weight": w}, state=st)
        lg = [("call", "numpy.log", (("bin", "+", w, ("c", 1e-14)),), ()), ("call", "numpy.log", (w,), ())]
        lp = lambda r: ("m", r, "logpdf", (x,), ())
        refs = [l if name.startswith("Boot") else ("bin", "+", ("bin", "-", lp(dv), lp(iv)), l) for l in lg]
        J.decide(f"{name}: log correction of the weight", f, impl, refs, known={".logpdf", "log", "numpy.log"})



# ------------------------------------------------------------------ iterated smoothing
def iterated(J):
    cls = public_class(J.p, "probnum.filtsmooth.gaussian.Kalman")
    f = cls.find("iterated_filtsmooth_posterior_generator")
    stop, prob, init = sym("stopcrit"), sym("problem"), sym("initial_posterior")
    for given in (False, True):
        runs, tests = [], []

        def s(fr, fn, args, kwargs):
            nm = fn[2].split(".")[-1] if fn[0] in ("at", "bound") else ""
            d = dict(kwargs)
            if nm == "filtsmooth":
                d.update(zip(("regression_problem", "_previous_posterior"), args))
                runs.append(d)
                return ("tup", (sym(f"post{len(runs)}"), sym(f"info{len(runs)}")))
            if fn == stop:
                d.update(zip(("error", "reference"), args))
                tests.append(d)
                return ("c", len(tests) >= 3)
            return None

        ev = J.eval({}, summaries=s)
        vn = ev.new_vn()
        vn.collect = True
        impl, _ = ev.method(cls, f.name, {"regression_problem": prob, "init_posterior": init if given else V.NONE, "stopcrit": stop}, vn=vn)
        label = "iterated smoothing" + (" from a given posterior" if given else "")
        ok = V.strip_raise(impl) if impl is not None else None
        xs = V.finite(ok) if ok is not None else None
        if xs is None or any(x[0] != "tup" for x in xs):
            J.res.undecided.append(f"{label}: yields not understood")
            continue
        posts = ([init] if given else []) + list(syms("post", 4)[1:])
        k = 3
        J.decide_seq(f"{label}: posteriors", f, L(*(x[1][0] for x in xs)), posts[:k])
        J.decide_seq(f"{label}: linearisation posteriors", f, L(*(d.get("_previous_posterior", V.NONE) for d in runs)),
                     ([] if given else [V.NONE]) + posts[:k - 1])
        for d in runs:
            J.decide(f"{label}: problem", f, d.get("regression_problem", V.NONE), [prob])
        mean = lambda x: at(at(x, "states"), "mean")
        for i, d in enumerate(tests):
            J.decide(f"{label}: reference of test {i}", f, d.get("reference", V.NONE), [mean(posts[i])])
            if i:
                J.decide(f"{label}: change in test {i}", f, d.get("error", V.NONE), [("bin", "-", mean(posts[i]), mean(posts[i - 1])), ("bin", "-", mean(posts[i - 1]), mean(posts[i]))])


UNITS = [("iterated smoothing", iterated), ("smooth_list", smooth_list), ("joint sampling", joint), ("kalman", kalman), ("interpolation", interpolation),
         ("posterior sampling", posterior_sampling), ("containers", containers), ("Markov process sampling", markov_sampling),
         ("ODE solutions", ode_solutions), ("diffusions", diffusions), ("particle filter", particles)]


def check(ctx, res):
    J = Job(ctx, res)
    for name, fn in UNITS:
        unit(J, name, fn)
