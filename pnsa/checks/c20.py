"""C20: Bayesian quadrature (belief updates, kernel embeddings, acquisition, policies, designs, stopping, iteration)."""
from __future__ import annotations

import itertools
import math
import os
from fractions import Fraction

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..oblig import SELF, Eval
from . import c18
from .c18 import NP, Job as Base, Sem as Vectors, at, new, sym

LEVEL = "proof-of-formula"
EXPLANATION = (
    "Beliefs, kernel embeddings, acquisition values, new nodes, stopping decisions and the state handed from one iteration to the next are "
    "computed as dataflow terms by value numbering and compared in normal form with Gaussian conditioning, with exact integrals of the "
    "kernels (computed from their definition by repeated integration) and with the documented rules."
)
ASSUMPTIONS = [
    "Kernels compute what C16 decides; NumPy and SciPy primitives compute what they document.",
    "Floating-point rounding is not modelled; values at a batch of points are decided for one point of it.",
    "Embeddings are decided for one to three input dimensions and for the smoothness values that are available.",
]
Q = "probnum.quad."
ST = sym("bq_state")
KER, MEA = at(ST, "kernel"), at(ST, "measure")
N, Y = at(ST, "nodes"), at(ST, "fun_evals")
M, Z, X = sym("new_nodes"), sym("new_fun_evals"), sym("x")
ALL, ALLY = sym("all nodes"), sym("all evaluations")
PTS = {N: "old", M: "new", X: "x", ALL: "all"}


def K(a, b):
    return sym(f"K[{PTS[a]},{PTS[b]}]")


def mean_of(a):
    return sym(f"kernel mean[{PTS[a]}]")


KEPT = {("@", ST, "gram"): K(N, N), ("@", ST, "kernel_means"): mean_of(N)}
KVAR = sym("kernel variance")
SCALARS = {KVAR, sym("jitter"), at(ST, "scale_sq"), sym("kernel mean[x]"), sym("k(x,x)"), sym("density(x)"), sym("n"), sym("n old"), at(ST, "integral_belief", "cov"), at(ST, "integral_belief", "var"),
           at(ST, "integral_belief", "mean")}
VECTORS = {Y, Z, ALLY, sym("kernel mean[old]"), sym("kernel mean[new]"), sym("kernel mean[all]"), sym("K[old,x]")}
SYMMETRIC = {sym("K[all,all]"), sym("K[old,old]"), sym("K[new,new]"), sym("gram inverse")}


def both(args, kwargs, names):
    """Arguments by name."""
    d = dict(zip(names, args))
    d.update(kwargs)
    return d


def cells(t):
    """Block structure of a term: list of rows of cells, or None."""
    if t[0] == "grid":
        return [list(r) for r in t[1]]
    if t[0] == "T":
        g = cells(t[1])
        return None if g is None else [[tr(g[i][j]) for i in range(len(g))] for j in range(len(g[0]))]
    if t[0] == "s" and t[1].startswith("K["):
        a, b = (("old", "new") if x == "all" else (x,) for x in t[1][2:-1].split(","))
        return [[sym(f"K[{i},{j}]") for j in b] for i in a]
    return None


def tr(c):
    """Transpose of a kernel matrix of a symmetric kernel."""
    if c[0] == "s" and c[1].startswith("K["):
        a, b = c[1][2:-1].split(",")
        return sym(f"K[{b},{a}]")
    return ("T", c)


def joined(parts, axis):
    gs = [cells(p) for p in parts]
    if any(g is None for g in gs):
        return None
    if axis == 0:
        if len({len(g[0]) for g in gs}) != 1:
            return None
        rows = [r for g in gs for r in g]
    else:
        if len({len(g) for g in gs}) != 1:
            return None
        rows = [sum((g[i] for g in gs), []) for i in range(len(gs[0]))]
    return whole(rows)


def whole(rows):
    if rows == [[K(N, N), K(N, M)], [K(M, N), K(M, M)]]:
        return K(ALL, ALL)
    return ("grid", tuple(tuple(r) for r in rows))


VEC = {(N, M): ALL, (Y, Z): ALLY, (mean_of(N), mean_of(M)): mean_of(ALL)}


def axis_of(args, kwargs, k, default):
    a = dict(kwargs).get("axis", args[k] if len(args) > k else ("c", default))
    return a[1] if a[0] == "c" else "?"


def summaries(extra=None, kernels=(KER,), measures=(MEA,)):
    def s(fr, fn, args, kwargs):
        if extra is not None:
            r = extra(fr, fn, args, kwargs)
            if r is not None:
                return r
        if fn[0] == "new":
            c = fr.type_of(fn)
            m = c.find("__call__") if c is not None else None
            return None if m is None else fr.call_func(m, fn, args, kwargs, c)
        name = fn[1] if fn[0] in ("pfunc", "ext") else fn[2] if fn[0] in ("at", "bound") else ""
        name = str(name)
        short = name.split(".")[-1]
        if name.startswith("numpy.") or fn[0] == "ext":
            if short == "append" and len(args) == 2:
                return VEC.get((args[0], args[1])) if axis_of(args, kwargs, 2, None) in (None, 0) else None
            if short in ("concatenate", "hstack", "vstack", "row_stack", "column_stack", "r_") and args:
                xs = V.finite(args[0])
                if xs is None:
                    return None
                ax = {"concatenate": axis_of(args, kwargs, 1, 0), "hstack": 1, "column_stack": 1}.get(short, 0)
                v = VEC.get(tuple(xs))
                if v is not None and (v == ALL) == (short in ("vstack", "row_stack")) or v is not None and short == "concatenate" and ax == 0:
                    return v
                if v is not None and v != ALL and short == "hstack":
                    return v
                return joined(xs, ax)
            if short == "block" and args:
                rows = V.finite(args[0])
                rows = None if rows is None else [V.finite(r) for r in rows]
                if rows is None or any(r is None for r in rows):
                    return None
                rs = [joined(r, 1) for r in rows]
                return None if any(r is None for r in rs) else joined(rs, 0)
            if short == "transpose" and len(args) == 1 and cells(args[0]) is not None:
                return whole(cells(("T", args[0])))
            if short == "cho_solve" and len(args) >= 2 and args[0] == at(ST, "gram_cho_factor"):
                return ("bin", "@", sym("gram inverse"), args[1])
            if short == "size" and len(args) == 1 and args[0] in (ALLY, Y):
                return sym("n") if args[0] == ALLY else sym("n old")
        if short == "len" and len(args) == 1 and args[0] in (Y, ALLY, N, ALL):
            return sym("n") if args[0] in (ALL, ALLY) else sym("n old")
        base = fn[1] if fn[0] in ("at", "bound") else None
        if base in kernels and short == "matrix":
            d = both(args, kwargs, ("x0", "x1"))
            a = d.get("x0")
            b = d.get("x1", V.NONE)
            b = a if b == V.NONE else b
            return K(a, b) if a in PTS and b in PTS else None
        if fn in kernels or base in kernels and short == "__call__":
            xs = tuple(args) + tuple(v for _, v in kwargs)
            return sym("k(x,x)") if xs in ((X, X), (X, V.NONE)) else None
        if fn in measures or base in measures and short == "__call__":
            xs = tuple(args) + tuple(v for _, v in kwargs)
            return sym("density(x)") if xs == (X,) else None
        if short in ("kernel_mean", "kernel_variance"):
            if base is None and args:
                base, args = args[0], args[1:]
            e = new(base, "KernelEmbedding") if base is not None else None
            if base == at(ST, "kernel_embedding") or e is not None and e.get("kernel") in kernels and e.get("measure") in measures:
                if short == "kernel_variance":
                    return KVAR
                xs = tuple(args) + tuple(v for _, v in kwargs)
                return mean_of(xs[0]) if len(xs) == 1 and xs[0] in PTS else None
        return None
    return s


def counts(empty, extra=None):
    """Whether there are evaluations already."""
    def size(t):
        if t in (sym("n old"),):
            return True
        if t[0] == "idx" and t[2] == ("c", 0) and t[1][0] == "at" and t[1][2] == "shape" and t[1][1] in (N, Y):
            return True
        return t[0] == "at" and t[2] == "size" and t[1] in (N, Y)

    def o(c):
        if extra is not None:
            r = extra(c)
            if r is not None:
                return r
        if size(c):
            return not empty
        if c[0] == "cmp" and len(c) == 4:
            op, x, y = c[1], c[2], c[3]
            if size(y) and x[0] == "c":
                x, y, op = y, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if size(x) and y[0] == "c" and isinstance(y[1], (int, float)) and y[1] in (0, 1):
                n, k = 0 if empty else 7, y[1]
                return {"<": n < k, "<=": n <= k, ">": n > k, ">=": n >= k, "==": n == k, "!=": n != k}.get(op)
        return c18.notnone(c)
    return o


class Sem(Vectors):
    """Sums over products of columns are inner products; counts of evaluations."""

    def __call__(self, t, alg):
        h = t[0]
        if h == "idx" and t[2] == ("c", 0) and t[1][0] == "at" and t[1][2] == "shape" and t[1][1] in (N, Y, ALL, ALLY):
            return alg.nf(sym("n") if t[1][1] in (ALL, ALLY) else sym("n old"))
        if h == "at" and t[2] == "size" and t[1] in (Y, ALLY):
            return alg.nf(sym("n") if t[1] == ALLY else sym("n old"))
        if h == "s" and t[1].startswith("K["):
            a, b = t[1][2:-1].split(",")
            if a > b:
                return alg.T(alg.nf(sym(f"K[{b},{a}]")))
        if h == "grid":
            return alg.atom(("grid", t[1]))
        arg = None
        if h == "call" and t[1] == "numpy.sum" and t[2]:
            arg = t[2][0]
        elif h == "m" and t[2] == "sum":
            arg = t[1]
        if arg is not None and arg[0] == "bin" and arg[1] == "*":
            a, b = alg.nf(arg[2]), alg.nf(arg[3])
            if alg.kind(a) == alg.kind(b) == "c":
                return alg.mm(a, b)
        if h == "call" and t[1] == "numpy.log1p" and len(t[2]) == 1:
            return alg.nf(("call", "numpy.log", (("bin", "+", ("c", 1), t[2][0]),), ()))
        return super().__call__(t, alg)


def case(**kw):
    return c18.Case(VECTORS, scalars=SCALARS | set(kw.pop("scalars", ())), symmetric=SYMMETRIC, sem=Sem())


class Job(Base):
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res
        self.state = public_class(self.p, Q + "solvers.BQState")

    def eval(self, oracle=None, opaque=(), summ=None, types=None):
        ev = super().eval(oracle, opaque, summ)
        ev.types = {ST: self.state, **(types or {})}
        return ev

    def text(self, vn, src, env):
        return c18.text(vn, self, src, env)

    def decide(self, what, f, impl, refs, case, known=(), max_conds=8):
        if getattr(case, "straight", False) and impl is not None and V.contains(value(V.strip_raise(impl)), lambda n: n[0] == "phi"):
            self.fact(what, f, None, "depends on a condition that is not decided")
            return
        super().decide(what, f, impl, refs, case, known, max_conds)


def value(t):
    """The entries of a reshaped array."""
    while True:
        if t[0] == "call" and t[1] in ("numpy.reshape", "numpy.squeeze", "numpy.full") and t[2]:
            t = t[2][-1] if t[1] == "numpy.full" else t[2][0]
        elif t[0] == "m" and t[2] in ("reshape", "squeeze"):
            t = t[1]
        else:
            return t


def belief_update(J):
    cls = public_class(J.p, Q + "solvers.belief_updates.BQStandardBeliefUpdate")
    f = cls.find("__call__")
    for empty, scale in itertools.product((True, False), (V.NONE, ("c", "mle"))):
        ev = J.eval(counts(empty), summ=summaries())
        vn = ev.new_vn()
        st = {**ev.state(cls, vn, {"scale_estimation": scale}), **KEPT}
        out, _ = ev.method(cls, "__call__", {"bq_state": ST, "new_nodes": M, "new_fun_evals": Z}, vn=vn, state=st)
        out = V.strip_raise(out)
        what = ("first update" if empty else "later update") + ("" if scale == V.NONE else ", estimated scale")
        xs = V.finite(out) if out is not None else None
        if xs is None or len(xs) != 2:
            J.fact(what, f, None, "result not understood")
            continue
        bel, s = new(xs[0], "Normal"), new(xs[1], "BQState")
        if bel is None or s is None:
            J.fact(what, f, None, "belief or state not understood")
            continue
        env = {"K": K(ALL, ALL), "j": sym("jitter"), "n": sym("n"), "km": mean_of(ALL), "y": ALLY, "kv": KVAR, "s0": at(ST, "scale_sq")}
        G = "np.linalg.inv(K + j * np.eye(n))"
        sc = "s0" if scale == V.NONE else f"(y @ {G} @ y / n)"
        for which, b in (("", bel), (" kept in the state", new(s.get("integral_belief", V.NONE), "Normal") or {})):
            J.decide(f"{what}: mean{which}", f, b.get("mean"), [J.text(vn, f"km @ {G} @ y", env)], case())
            J.decide(f"{what}: variance{which}", f, b.get("cov"), [J.text(vn, f"{sc} * (kv - km @ {G} @ km)", env)], case())
        J.decide(f"{what}: scale in the state", f, s.get("scale_sq"), [J.text(vn, sc, env)], case())
        J.decide(f"{what}: Gram matrix", f, s.get("gram"), [K(ALL, ALL)], case())
        J.decide(f"{what}: kernel means", f, s.get("kernel_means"), [mean_of(ALL)], case())
        J.decide(f"{what}: function evaluations", f, s.get("fun_evals"), [ALLY], case())
        J.decide(f"{what}: nodes", f, s.get("nodes"), [ALL], case())
        cf = s.get("gram_cho_factor")
        J.decide(f"{what}: factor of the Gram matrix", f, None if cf is None else ("call", "linalg.cho_solve", (cf, sym("v")), ()), [J.text(vn, G + " @ v", {**env, "v": sym("v")})],
                 c18.Case(VECTORS | {sym("v")}, scalars=SCALARS, symmetric=SYMMETRIC, sem=Sem()))
        exact(J, f"{what}: kernel", f, s.get("kernel"), KER)
        exact(J, f"{what}: measure", f, s.get("measure"), MEA)
        past = s.get("previous_integral_beliefs")
        exact(J, f"{what}: earlier beliefs", f, past if past is None else V.subst(past, lambda t: sym("new belief") if t == xs[0] else t),
              ("bin", "+", at(ST, "previous_integral_beliefs"), ("tup", (at(ST, "integral_belief"),))),
              ("tup", (("star", at(ST, "previous_integral_beliefs")), at(ST, "integral_belief"))))


PLAIN = {"s", "at", "c", "bin", "tup", "list", "new", "idx", "slice", "star"}


def exact(J, what, f, t, *wants):
    """The value is one of the given terms; any other term built from plain constructs is wrong."""
    t = V.strip_raise(t) if t is not None else None
    if t in wants:
        J.fact(what, f, True)
    elif t is None or any(h not in PLAIN for h in tags(t)):
        J.fact(what, f, None, "value not understood")
    else:
        J.fact(what, f, False, f"is {show(t)}, must be {show(wants[0])}")


def tags(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] not in ("axis",):
            out.add(t[0])
        if t and t[0] in ("s", "c"):
            return out
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and len(x) == 2 and t[0] == "new":
                    tags(x[1], out)
                elif x and isinstance(x[0], tuple):
                    for y in x:
                        tags(y[1] if t[0] == "new" and len(y) == 2 and isinstance(y[0], str) else y, out)
                else:
                    tags(x, out)
    return out


def show(t):
    if t[0] == "s":
        return t[1]
    if t[0] == "c":
        return repr(t[1])
    if t[0] == "at":
        return show(t[1]) + "." + t[2]
    if t[0] == "bin":
        return f"{show(t[2])} {t[1]} {show(t[3])}"
    if t[0] in ("tup", "list"):
        return "(" + ", ".join(show(x) for x in t[1]) + ")"
    return repr(t)[:120]


def prediction(J):
    cls = public_class(J.p, Q + "solvers.belief_updates.BQStandardBeliefUpdate")
    f = cls.find("predict_integrand")
    acq = Q + "solvers.acquisition_functions."
    env = {"k": sym("k(x,x)"), "G": sym("gram inverse"), "kx": K(N, X), "y": Y, "s0": at(ST, "scale_sq"), "km": mean_of(N), "kmx": mean_of(X),
           "v": at(ST, "integral_belief", "cov"), "w": sym("density(x)")}
    for empty in (True, False):
        ev = J.eval(counts(empty), summ=summaries())
        vn = ev.new_vn()
        names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
        given = {n: (ST if "state" in n else X) for n in names}
        out, _ = ev.method(cls, "predict_integrand", given, vn=vn, state=dict(KEPT))
        xs = V.finite(V.strip_raise(out)) if out is not None else None
        what = "prediction of the integrand" + (" without data" if empty else "")
        if xs is None or len(xs) != 2:
            J.fact(what, f, None, "result not understood")
            continue
        mean = "0 * s0" if empty else "kx @ G @ y"
        var = "s0 * k" if empty else "s0 * (k - kx @ G @ kx)"
        J.decide(what + ": mean", f, xs[0], [J.text(vn, mean, env)], case())
        J.decide(what + ": variance", f, xs[1], [J.text(vn, var, env)], case())
        red = "kmx" if empty else "(kmx - km @ G @ kx)"
        rho = f"((s0 * {red})**2 / (v * {var}))"
        for name, ref in (("IntegralVarianceReduction", rho), ("MutualInformation", f"-0.5 * np.log(1 - {rho})"), ("WeightedPredictiveVariance", f"({var}) / s0 * w**2")):
            c = public_class(J.p, acq + name)
            g = c.find("__call__")
            ev = J.eval(counts(empty), summ=summaries())
            vn = ev.new_vn()
            names = [a.arg for a in g.node.args.args if a.arg != g.self_name]
            out, _ = ev.method(c, "__call__", {names[0]: X, names[1]: ST}, vn=vn, state={**ev.state(c, vn, {}), **KEPT})
            out = V.strip_raise(out) if out is not None else None
            v = V.finite(out) if out is not None else None
            J.decide(f"{name}" + (" without data" if empty else ""), g, v[0] if v else None, [J.text(vn, ref, env)], case(scalars={at(ST, "integral_belief", "cov")}))


# ------------------------------------------------------------------ kernel embeddings
KN, ME, ELL, D0, D1, XC = sym("kernel"), sym("measure"), sym("lengthscale"), sym("lower"), sym("upper"), sym("point")
NORM, MU, COV = sym("normalization"), sym("mean"), sym("cov")
PERDIM = {D0, D1, XC, MU, sym("variances")}


def mentions(x, what):
    return x in what or isinstance(x, tuple) and any(mentions(y, what) for y in x if isinstance(y, tuple))


class Dims:
    """Arrays over the input dimensions as scalars; products and sums over the dimensions are explicit."""

    def __init__(self, dim, vectors=False):
        self.dim, self.vectors = dim, vectors

    def product(self, p, alg):
        if self.dim == 1:
            return p
        if len(p) == 1:
            (m, c), = p.items()
            r = alg.const(Fraction(c) ** self.dim)
            for w, e in m:
                one = {((w, Fraction(1)),): Fraction(1)}
                if not mentions(w, PERDIM):
                    q = alg.epow(one, Fraction(e) * self.dim)
                elif len(w) == 1 and w[0][0][0] in ("S", "P", "sum") and not w[0][1] and not w[0][2]:
                    q = alg.epow(self.product(dict(w[0][0][1]), alg), Fraction(e))
                else:
                    q = alg.epow(alg.atom(("f", "product over the dimensions", (alg.key(one),), ())), Fraction(e))
                r = alg.mul(r, q)
            return r
        # divide by what the dimensions share in one of the terms
        glob = lambda m: [(w, e) for w, e in m if not mentions(w, PERDIM)]
        own = lambda m: repr([(w, e) for w, e in m if mentions(w, PERDIM)])
        lead = min(p, key=lambda m: (own(m), repr(m)))
        r, inv = alg.const(Fraction(p[lead]) ** self.dim), alg.const(1 / Fraction(p[lead]))
        for w, e in glob(lead):
            one = {((w, Fraction(1)),): Fraction(1)}
            r = alg.mul(r, alg.epow(one, Fraction(e) * self.dim))
            inv = alg.mul(inv, alg.epow(one, -Fraction(e)))
        return alg.mul(r, alg.atom(("f", "product over the dimensions", (alg.key(alg.mul(p, inv)),), ())))

    def total(self, p, alg):
        if self.dim == 1:
            return p
        r = {}
        for m, c in p.items():
            inner = [(w, e) for w, e in m if mentions(w, PERDIM)]
            outer = [(w, e) for w, e in m if (w, e) not in inner]
            k = alg.key({alg.mono(inner): Fraction(1)}) if inner else None
            f = alg.atom(("f", "sum over the dimensions", (k,), ())) if inner else alg.const(Fraction(self.dim))
            r = alg.add(r, alg.mul({alg.mono(outer): c}, f))
        return r

    def __call__(self, t, alg):
        h = t[0]
        if h == "call" and isinstance(t[1], str):
            if t[1] in ("numpy.diag", "numpy.diagonal") and t[2] == (COV,):
                return alg.nf(sym("variances"))
            if t[1] in ("numpy.prod", "numpy.product") and t[2]:
                return self.product(alg.nf(t[2][0]), alg)
            if t[1] == "numpy.sum" and t[2]:
                return self.total(alg.nf(t[2][0]), alg)
            if t[1] == "numpy.square" and len(t[2]) == 1:
                return alg.nf(("bin", "**", t[2][0], ("c", 2)))
            if t[1] in ("numpy.ones", "numpy.ones_like"):
                return alg.const(Fraction(1))
            if t[1] == "scipy.special.erf" and len(t[2]) == 1 or t[1] == "math.erf":
                p = alg.nf(t[2][0])
                neg = p and p[min(p, key=repr)] < 0
                if neg:
                    p = alg.mul(p, alg.const(Fraction(-1)))
                a = alg.atom(("f", "scipy.special.erf", (alg.key(p),), ()))
                return alg.mul(a, alg.const(Fraction(-1))) if neg else a
            if t[1] == "scipy.special.erfc" and len(t[2]) == 1:
                return alg.nf(("bin", "-", ("c", 1), ("call", "scipy.special.erf", t[2], ())))
            if t[1] == "numpy.expm1" and len(t[2]) == 1:
                return alg.nf(("bin", "-", ("call", "numpy.exp", t[2], ()), ("c", 1)))
            if t[1] in ("numpy.squeeze", "numpy.asarray", "numpy.array", "builtins.float") and len(t[2]) == 1:
                return alg.nf(t[2][0])
        if h == "m" and t[2] == "prod":
            return self.product(alg.nf(t[1]), alg)
        if h == "m" and t[2] == "sum":
            return self.total(alg.nf(t[1]), alg)
        if h == "idx" and t[1] == XC:
            return alg.nf(XC) if self.dim == 1 else None
        return None


class DimCase:
    def __init__(self, dim):
        self.sem = Dims(dim)

    def factory(self, asg):
        return A.Alg(scalar=lambda a: True, symmetric=lambda a: True, sem=self.sem)

    def consistent(self, asg):
        return True


def embedding(J, kernel, measure, d, oracle=None, summ=None, heap=None):
    """Values of the kernel mean at a point and of the kernel variance."""
    emb = public_class(J.p, Q + "kernel_embeddings.KernelEmbedding")
    kcls = public_class(J.p, "probnum.randprocs.kernels." + kernel)
    mcls = public_class(J.p, Q + "integration_measures." + measure)
    shape = ("tup", (("c", d),))
    st = {("@", KN, "input_shape"): shape, ("@", KN, "lengthscale"): ELL, ("@", ME, "domain"): ("tup", (D0, D1)), ("@", ME, "normalization_constant"): NORM,
          ("@", ME, "mean"): MU, ("@", ME, "cov"): COV, ("@", ME, "input_dim"): ("c", d), **(heap or {})}
    out = []
    for name in ("kernel_mean", "kernel_variance"):
        ev = J.eval(oracle, summ=summ, types={KN: kcls, ME: mcls})
        ev.written_elsewhere = lambda c: set()
        vn = ev.new_vn()
        f = emb.find(name)
        init = emb.find("__init__")
        env = {**st, init.self_name: SELF, "kernel": KN, "measure": ME}
        vn.body(init, env, emb)
        env = {k: v for k, v in (vn.last_env or {}).items() if isinstance(k, tuple)}
        names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
        r, _ = ev.method(emb, name, {n: XC for n in names}, vn=vn, state={**env, **st})
        out.append((f, V.strip_raise(r) if r is not None else None, vn))
    return out


def expquad(J):
    for d in (1, 2, 3):
        env = {"ell": ELL, "a": D0, "b": D1, "x": XC, "d": ("c", d), "c": NORM, "m": MU, "s2": sym("variances"), "erf": ("ext", "scipy.special.erf")}
        (f, km, vn), (g, kv, vn2) = embedding(J, "ExpQuad", "LebesgueMeasure", d)
        ref = "c * np.prod(ell * np.sqrt(np.pi / 2) * (erf((b - x) / (ell * np.sqrt(2))) - erf((a - x) / (ell * np.sqrt(2)))))"
        J.decide(f"exponentiated quadratic, Lebesgue, {d}d: kernel mean", f, km, [J.text(vn, ref, env)], DimCase(d))
        ref = "c**2 * np.prod(2 * ell**2 * (np.exp(-(b - a)**2 / (2 * ell**2)) - 1) + np.sqrt(2 * np.pi) * ell * (b - a) * erf((b - a) / (ell * np.sqrt(2))))"
        J.decide(f"exponentiated quadratic, Lebesgue, {d}d: kernel variance", g, kv, [J.text(vn2, ref, env)], DimCase(d))
        (f, km, vn), (g, kv, vn2) = embedding(J, "ExpQuad", "GaussianMeasure", d, heap={("@", ME, "diagonal_covariance"): ("c", True)})
        ref = "np.prod(ell / np.sqrt(ell**2 + s2)) * np.exp(-np.sum((x - m)**2 / (2 * (ell**2 + s2))))"
        J.decide(f"exponentiated quadratic, Gaussian, {d}d: kernel mean", f, km, [J.text(vn, ref, env)], DimCase(d))
        ref = "np.prod(ell / np.sqrt(ell**2 + 2 * s2))"
        J.decide(f"exponentiated quadratic, Gaussian, {d}d: kernel variance", g, kv, [J.text(vn2, ref, env)], DimCase(d))


class Determinants(Sem):
    """Determinants from Cholesky factors."""

    def det(self, c, alg):
        return alg.atom(("f", "determinant", (alg.key(alg.nf(c)),), ()))

    def __call__(self, t, alg):
        if t[0] == "call" and t[1] in ("linalg.det", "numpy.linalg.det") and len(t[2]) == 1:
            return self.det(t[2][0], alg)
        arg = t[1] if t[0] == "m" and t[2] == "prod" else t[2][0] if t[0] == "call" and t[1] == "numpy.prod" and t[2] else None
        if arg is not None:
            sq = Fraction(1)
            while arg[0] == "bin" and arg[1] == "**" and arg[3][0] == "c":
                arg, sq = arg[2], sq * Fraction(arg[3][1])
            if arg[0] == "call" and arg[1] in ("numpy.diag", "numpy.diagonal") and len(arg[2]) == 1:
                x = arg[2][0]
                if x[0] == "idx" and x[2] == ("c", 0) and x[1][0] == "call" and x[1][1] == "linalg.cho_factor":
                    return alg.epow(self.det(x[1][2][0], alg), sq / 2)
                if x[0] == "call" and x[1] in ("linalg.cholesky", "numpy.linalg.cholesky"):
                    return alg.epow(self.det(x[2][0], alg), sq / 2)
        return super().__call__(t, alg)


class DetCase(c18.Case):
    def factory(self, asg):
        a = super().factory(asg)
        plain = a.scalar_fn
        a.scalar_fn = lambda x: x[0] == "f" and x[1] in ("determinant", "numpy.exp") or plain(x)
        return a


def half(p):
    """Coefficients of the half-integer Matern kernel: k = exp(-s) * sum_j alpha_j s^j."""
    F = math.factorial
    return {p - i: Fraction(F(p), F(2 * p)) * Fraction(F(p + i), F(i) * F(p - i)) * Fraction(2) ** (p - i) for i in range(p + 1)}


def gamma(n, S):
    """Integral of s^n exp(-s) from 0 to S."""
    F = math.factorial(n)
    return f"{F} * (1 - np.exp(-({S})) * ({' + '.join(f'({S})**{i} / {math.factorial(i)}' for i in range(n + 1))}))"


def integral(p, R, ell):
    """Integral of the kernel from 0 to R, and of t * kernel."""
    c = f"(np.sqrt({2 * p + 1}) / {ell})"
    S = f"({c} * ({R}))"
    k0 = " + ".join(f"({a.numerator} / {a.denominator}) * {gamma(j, S)}" for j, a in half(p).items())
    k1 = " + ".join(f"({a.numerator} / {a.denominator}) * {gamma(j + 1, S)}" for j, a in half(p).items())
    return f"(({k0}) / {c})", f"(({k1}) / {c}**2)"


def correlated(J):
    """Gaussian measure with a full covariance matrix."""
    cs = DetCase({XC, MU}, scalars={ELL}, symmetric={COV}, sem=Determinants())
    for d in (2, 3):
        env = {"ell": ELL, "x": XC, "d": ("c", d), "m": MU, "C": COV}
        (f, km, vn), (g, kv, vn2) = embedding(J, "ExpQuad", "GaussianMeasure", d, heap={("@", ME, "diagonal_covariance"): ("c", False)})
        S = "(ell**2 * np.eye(d) + C)"
        ref = f"ell**d * np.linalg.det({S})**(-1/2) * np.exp(-0.5 * ((x - m) @ np.linalg.inv({S}) @ (x - m)))"
        J.decide(f"exponentiated quadratic, Gaussian with correlations, {d}d: kernel mean", f, km, [J.text(vn, ref, env)], cs)
        ref = "ell**d * np.linalg.det(ell**2 * np.eye(d) + 2 * C)**(-1/2)"
        J.decide(f"exponentiated quadratic, Gaussian with correlations, {d}d: kernel variance", g, kv, [J.text(vn2, ref, env)], cs)


class Parts(Dims):
    """Entries of points and limits."""

    def __call__(self, t, alg):
        if t[0] == "idx" and t[1] in (XC, D0, D1):
            k = t[2]
            if t[1] == XC and k[0] == "tup" and len(k[1]) == 2 and (k[1][0] == ("...",) or k[1][0][0] == "slice" and all(y == V.NONE for y in k[1][0][1:])):
                k = k[1][1]
            if k[0] == "c" and isinstance(k[1], int):
                return alg.atom(sym(f"{t[1][1]}{k[1] % self.dim}"))
        if t[0] == "call" and t[1] == "numpy.exp" and len(t[2]) == 1 and alg.nf(t[2][0]) == {}:
            return alg.const(Fraction(1))
        if t[0] == "call" and t[1] in ("numpy.ones", "numpy.ones_like"):
            return alg.const(Fraction(1))
        return None


class PartCase(DimCase):
    def __init__(self, d):
        self.sem = Parts(d)


def matern(J):
    """Products of exact one-dimensional integrals."""
    pm = "ProductMatern"
    cases = [(("Matern"), (p,)) for p in range(4)] + [(pm, (p,)) for p in range(4)] + [(pm, (0, 1)), (pm, (2, 3)), (pm, (1, 0, 2))]
    for name, ps in cases:
        d = len(ps)
        uni = tuple(sym(f"kernel{i}") for i in range(d))
        heap = {("@", KN, "univariate_materns"): ("tup", uni)}
        if name == "Matern":
            heap.update({("@", KN, "nu"): ("c", ps[0] + 0.5), ("@", KN, "lengthscale"): sym("ell0")})
        for i, p in enumerate(ps):
            heap.update({("@", uni[i], "nu"): ("c", p + 0.5), ("@", uni[i], "lengthscale"): sym(f"ell{i}")})

        other = []

        def summ(fr, fn, args, kwargs, ps=ps, other=other):
            if fn[0] == "class" and fn[1].split(".")[-1] == pm:
                d_ = both(args, kwargs, ("input_shape", "lengthscales", "nus"))
                if d_.get("lengthscales") == sym("ell0") and d_.get("nus") == ("c", ps[0] + 0.5):
                    return KN
                other.append((d_.get("lengthscales"), d_.get("nus")))
                return sym("kernel with other parameters")
            if fn[0] == "ext" and fn[1].split(".")[-1] == "range" and len(args) == 1 and args[0][0] == "c":
                return ("tup", tuple(("c", i) for i in range(args[0][1])))
            return None
        label = f"{name} with orders {', '.join(str(p + 0.5) for p in ps)}"
        env = {"c": NORM}
        for i in range(d):
            env.update({f"x{i}": sym(f"point{i}"), f"a{i}": sym(f"lower{i}"), f"b{i}": sym(f"upper{i}"), f"l{i}": sym(f"ell{i}")})
        ms, vs = [], []
        for i, p in enumerate(ps):
            ms.append("(" + integral(p, f"x{i} - a{i}", f"l{i}")[0] + " + " + integral(p, f"b{i} - x{i}", f"l{i}")[0] + ")")
            k0, k1 = integral(p, f"b{i} - a{i}", f"l{i}")
            vs.append(f"(2 * ((b{i} - a{i}) * {k0} - {k1}))")
        (f, km, vn), (g, kv, vn2) = embedding(J, name, "LebesgueMeasure", d, summ=summ, heap=heap)
        if other:
            wrong = [(l, n) for l, n in other if l != sym("ell0") and l is not None and not tags(l) - PLAIN or n is not None and n[0] == "c" and n[1] != ps[0] + 0.5]
            J.fact(label + ": parameters", f, False if wrong else None, f"of the product kernel are {', '.join(show(x) for x in wrong[0] if x is not None) if wrong else ''}")
        J.decide(label + ": kernel mean", f, km, [J.text(vn, "c * " + " * ".join(ms), env)], PartCase(d))
        J.decide(label + ": kernel variance", g, kv, [J.text(vn2, "c**2 * " + " * ".join(vs), env)], PartCase(d))


# ------------------------------------------------------------------ stopping, iteration, front ends
INFO = sym("info")


def criteria(J):
    SC = Q + "solvers.stopping_criteria."
    bel, prev = at(ST, "integral_belief"), sym("previous belief")
    table = [
        ("IntegralVarianceTolerance", {"var_tol": sym("tol")}, {}, "v <= tol"),
        ("MaxNevals", {"max_nevals": sym("tol")}, {}, "n >= tol"),
        ("ImmediateStop", {}, {}, "True"),
        ("RelativeMeanChange", {"rel_tol": sym("tol")}, {("@", ST, "previous_integral_beliefs"): ("tup", ())}, "False"),
        ("RelativeMeanChange", {"rel_tol": sym("tol")}, {("@", ST, "previous_integral_beliefs"): ("tup", (sym("first belief"), prev))}, "np.abs((m - q) / m) <= tol"),
    ]
    for name, params, heap, ref in table:
        cls = public_class(J.p, SC + name)
        f = cls.find("__call__")

        def summ(fr, fn, args, kwargs):
            if fn[0] == "ext" and fn[1].split(".")[-1] in ("int", "float") and len(args) == 1 and args[0] == sym("tol"):
                return args[0]
            if fn[0] == "ext" and fn[1].split(".")[-1] in ("len", "bool") and len(args) == 1 and V.finite(args[0]) is not None:
                n = len(V.finite(args[0]))
                return ("c", n if fn[1].endswith("len") else n > 0)
            return None

        def orc(c):
            if c[0] in ("tup", "list"):
                return bool(c[1])
            if c[0] == "cmp" and c[1] in ("==", "!=") and c[2][0] in ("tup", "list") and c[3][0] in ("tup", "list"):
                return (c[2][1] == c[3][1]) == (c[1] == "==")
            return c18.notnone(c)
        ev = J.eval(orc, summ=summ)
        vn = ev.new_vn()
        st = {**ev.state(cls, vn, params), **heap}
        names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
        out, _ = ev.method(cls, "__call__", dict(zip(names, (ST, INFO))), vn=vn, state=st)
        env = {"v": at(bel, "var"), "tol": sym("tol"), "n": at(INFO, "nevals"), "m": at(bel, "mean"), "q": at(prev, "mean")}
        cs = c18.Case((), scalars={at(bel, "var"), at(bel, "cov"), at(bel, "std"), sym("tol"), at(INFO, "nevals"), at(INFO, "iteration"), at(bel, "mean"), at(prev, "mean")}, sem=Spread())
        what = name + ("" if not heap else " without earlier beliefs" if ref == "False" else " with earlier beliefs")
        J.truth(what, f, out if out is None else V.subst(out, quotient), V.subst(J.text(vn, ref, env), quotient), cs)


ABS = ("numpy.abs", "abs", "builtins.abs", "numpy.absolute", "numpy.fabs")


def quotient(t):
    """|x / y| <= z is |x| <= z |y|."""
    if t[:1] == ("cmp",) and len(t) == 4 and t[1] in ("<", "<=", ">", ">="):
        for i in (2, 3):
            x = t[i]
            if x[0] == "call" and x[1] in ABS and len(x[2]) == 1 and x[2][0][0] == "bin" and x[2][0][1] == "/":
                a, b = x[2][0][2:4]
            elif x[0] == "bin" and x[1] == "/" and all(y[0] == "call" and y[1] in ABS and len(y[2]) == 1 for y in x[2:4]):
                a, b = x[2][2][0], x[3][2][0]
            else:
                continue
            a, b = (("call", "numpy.abs", (y,), ()) for y in (a, b))
            z = ("bin", "*", t[5 - i], b)
            return ("cmp", t[1], a, z) if i == 2 else ("cmp", t[1], z, a)
    return t


class Spread(Vectors):
    """Variance and covariance of a scalar belief are the same; absolute values of quotients."""

    def __call__(self, t, alg):
        if t[0] == "at" and t[2] == "cov" and t[1] == at(ST, "integral_belief"):
            return alg.nf(at(t[1], "var"))
        if t[0] == "at" and t[2] == "std" and t[1] == at(ST, "integral_belief"):
            return alg.epow(alg.nf(at(t[1], "var")), Fraction(1, 2))
        if t[0] == "bin" and t[1] == "/" and all(x[0] == "call" and x[1] in ("numpy.abs", "abs", "builtins.abs") for x in t[2:4]):
            return alg.nf(("call", "numpy.abs", (("bin", "/", t[2][2][0], t[3][2][0]),), ()))
        if t[0] == "call" and t[1] in ("numpy.abs", "abs", "builtins.abs", "numpy.absolute") and len(t[2]) == 1:
            p = alg.nf(t[2][0])
            q = alg.mul(p, alg.const(Fraction(-1)))
            return alg.atom(("f", "numpy.abs", (min(alg.key(p), alg.key(q), key=repr),), ()))
        return super().__call__(t, alg)


def combined(J):
    """Logical combinations of stopping criteria."""
    cls = public_class(J.p, "probnum.StoppingCriterion")
    lam = public_class(J.p, "probnum.LambdaStoppingCriterion")
    other, a, b = sym("other"), sym("first decision"), sym("second decision")
    for name, ref in (("__and__", ("and", a, b)), ("__or__", ("or", a, b)), ("__invert__", ("not", a))):
        f = cls.find(name)

        def summ(fr, fn, args, kwargs):
            who = fn if fn in (SELF, other) else fn[1] if fn[0] in ("at", "bound") and fn[1] in (SELF, other) and str(fn[2]).split(".")[-1] == "__call__" else None
            if who is None:
                return None
            if tuple(args) + tuple(v for k, v in kwargs if k is not None or v != ("dict", ())) != (sym("state"), sym("more")):
                return sym("decision on something else")
            return a if who == SELF else b
        ev = J.eval(None, summ=summ)
        vn = ev.new_vn()
        out, _ = ev.method(cls, name, {"other": other}, vn=vn, state={})
        d = new(out, "LambdaStoppingCriterion")
        if d is None:
            J.fact(f"combination {name}", f, None, "result not understood")
            continue
        st = ev.state(lam, vn, d)
        g = lam.find("__call__")
        va = g.node.args.vararg
        if va is None:
            J.fact(f"combination {name}", f, None, "signature not understood")
            continue
        env = {**st, g.self_name: SELF, va.arg: ("tup", (sym("state"), sym("more")))}
        if g.node.args.kwarg is not None:
            env[g.node.args.kwarg.arg] = ("dict", ())
        r = V.strip_raise(vn.body(g, env, lam))
        decision(J, f"combination {name}", f, r, ref, (a, b))


def decision(J, what, f, t, ref, atoms):
    """Boolean functions of the same decisions."""
    def val(t, asg):
        if t in asg:
            return asg[t]
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "truth":
            return val(t[1], asg)
        if t[0] == "not":
            return not val(t[1], asg)
        if t[0] in ("and", "or"):
            vs = [val(x, asg) for x in t[1:]]
            return all(vs) if t[0] == "and" else any(vs)
        if t[0] == "phi":
            return val(t[2] if val(t[1], asg) else t[3], asg)
        if t[0] == "call" and str(t[1]).split(".")[-1] == "bool" and len(t[2]) == 1:
            return val(t[2][0], asg)
        if t[0] == "bin" and t[1] in "&|^":
            x, y = val(t[2], asg), val(t[3], asg)
            return x and y if t[1] == "&" else x or y if t[1] == "|" else x != y
        if t[0] == "s":
            raise LookupError("other decision " + t[1])
        raise ValueError(t[0])
    try:
        bad = [bits for bits in itertools.product((True, False), repeat=len(atoms)) if val(t, dict(zip(atoms, bits))) != val(ref, dict(zip(atoms, bits)))]
        J.fact(what, f, not bad, f"wrong for decisions {bad[:1]}")
    except LookupError as e:
        J.fact(what, f, False if isinstance(e, LookupError) and not isinstance(e, (KeyError, IndexError)) else None, str(e))
    except (ValueError, TypeError):
        J.fact(what, f, None, "value not understood")


def infos(J):
    """Counters of the iteration."""
    cls = public_class(J.p, Q + "solvers.BQIterInfo")
    for name, args, want in (
        ("from_bq_state", {"bq_state": ST}, {"iteration": "0", "nevals": "n", "has_converged": "False"}),
        ("from_iteration", {"info": INFO, "dnevals": sym("new evaluations")}, {"iteration": "i + 1", "nevals": "e + d", "has_converged": "h"}),
        ("from_stopping_decision", {"info": INFO, "has_converged": sym("decision")}, {"iteration": "i", "nevals": "e", "has_converged": "s"}),
    ):
        f = cls.find(name)
        ev = J.eval(None, summ=summaries())
        vn = ev.new_vn()
        e = J.run(vn, f"value_ = BQIterInfo.{name}({', '.join(k + '=' + k for k in args)})", args)
        d = new(V.strip_raise(e["value_"]), "BQIterInfo")
        if d is None:
            J.fact(f"iteration info {name}", f, None, "result not understood")
            continue
        env = {"n": sym("n old"), "i": at(INFO, "iteration"), "e": at(INFO, "nevals"), "h": at(INFO, "has_converged"), "s": sym("decision"), "d": sym("new evaluations")}
        for k, ref in want.items():
            if k not in d:
                d[k] = ("c", {"iteration": 0, "nevals": 0, "has_converged": False}[k])
            if k == "has_converged":
                exact(J, f"iteration info {name}: {k}", f, d[k], J.text(vn, ref, env))
            else:
                J.decide(f"iteration info {name}: {k}", f, d[k], [J.text(vn, ref, env)], c18.Case((), scalars=set(env.values()), sem=Sem()))


def loop(J):
    """Order of operations of the iteration and what is handed from one step to the next."""
    cls = public_class(J.p, Q + "solvers.BayesianQuadrature")
    f = cls.find("bq_iterator")
    pol, upd, crit, fun, rng = (sym(x) for x in ("policy", "belief_update", "stopping_criterion", "fun", "rng"))
    for stop in (0, 1, 2):
        log = []

        def s(fr, fn, args, kwargs):
            who = {pol: "policy", upd: "update", crit: "criterion", fun: "function"}.get(fn)
            if who is None:
                if fn[0] in ("pfunc", "bound", "at") and str(fn[1] if fn[0] == "pfunc" else fn[2]).split(".")[-1] == "from_bq_state":
                    return None
                return None
            n = sum(1 for x in log if x[0] == who)
            log.append((who, tuple(args) + tuple(v for _, v in kwargs), dict(kwargs)))
            if who == "criterion":
                return ("c", n >= stop)
            return {"policy": sym(f"nodes{n}"), "function": sym(f"evaluations{n}"), "update": ("tup", (sym(f"belief{n + 1}"), sym(f"state{n + 1}")))}[who]
        ev = J.eval(c18.notnone, summ=s)
        vn = ev.new_vn()
        vn.collect = True
        st = {("@", SELF, "policy"): pol, ("@", SELF, "belief_update"): upd, ("@", SELF, "stopping_criterion"): crit}
        out, _ = ev.method(cls, "bq_iterator", {"bq_state": sym("state0"), "info": INFO, "fun": fun, "rng": rng}, vn=vn, state=st)
        label = f"iteration that stops after {stop} steps"
        if out is None or out[0] != "list" or any(x[0] == "unk" for x in out[1]):
            J.fact(label, f, None, "loop not understood")
            continue
        kinds = [x[0] for x in log]
        want = ["criterion", "policy", "function", "update"] * stop + ["criterion"]
        J.fact(f"{label}: order of operations", f, kinds == want, f"{kinds} instead of {want}")
        if kinds != want:
            continue
        J.fact(f"{label}: results handed out", f, len(out[1]) == stop + 1, f"{len(out[1])} instead of {stop + 1}")
        for k in range(stop):
            c, p, e, u = log[4 * k: 4 * k + 4]
            state = sym(f"state{k}")
            J.fact(f"{label}: criterion of step {k} judges the current state", f, state in c[1], show_all(c[1]))
            J.fact(f"{label}: policy of step {k} uses the current state", f, state in p[1] and rng in p[1], show_all(p[1]))
            J.fact(f"{label}: integrand of step {k} is evaluated at the new nodes", f, e[1] == (sym(f"nodes{k}"),), show_all(e[1]))
            kw = {**dict(zip(("bq_state", "new_nodes", "new_fun_evals"), u[1])), **u[2]}
            ok = (kw.get("bq_state"), kw.get("new_nodes"), kw.get("new_fun_evals")) == (state, sym(f"nodes{k}"), sym(f"evaluations{k}"))
            J.fact(f"{label}: update of step {k} gets the state, the new nodes and their evaluations", f, ok, show_all(u[1]))
        for k, y in enumerate(out[1]):
            xs = V.finite(y)
            if xs is None or len(xs) != 3:
                J.fact(f"{label}: result {k}", f, None, "not understood")
                continue
            exact(J, f"{label}: belief handed out in step {k}", f, xs[0], at(sym(f"state{k}"), "integral_belief"), *((sym(f"belief{k}"),) if k else ()))
            exact(J, f"{label}: state handed out in step {k}", f, xs[1], sym(f"state{k}"))
            d = new(xs[2], "BQIterInfo")
            if d is None:
                J.fact(f"{label}: counters handed out in step {k}", f, None, "not understood")
                continue
            b = at(pol, "batch_size")
            cs = c18.Case((), scalars={at(INFO, "iteration"), at(INFO, "nevals"), b} | {x for j in range(3) for x in (("call", "builtins.len", (sym(f"nodes{j}"),), ()),
                          ("idx", at(sym(f"nodes{j}"), "shape"), ("c", 0)), ("idx", at(sym(f"evaluations{j}"), "shape"), ("c", 0)), at(sym(f"evaluations{j}"), "size"))}, sem=Batch(b))
            env = {"i": at(INFO, "iteration"), "e": at(INFO, "nevals"), "b": b, "k": ("c", k)}
            J.decide(f"{label}: iteration number in step {k}", f, d.get("iteration"), [J.text(vn, "i + k", env)], cs)
            J.decide(f"{label}: number of evaluations in step {k}", f, d.get("nevals"), [J.text(vn, "e + k * b", env)], cs)
            exact(J, f"{label}: convergence flag in step {k}", f, d.get("has_converged"), ("c", k == stop))


def show_all(xs):
    return ", ".join(show(x) for x in xs)


class Batch(Sem):
    """The number of nodes of a batch, however it is obtained."""

    def __init__(self, b):
        self.b = b

    def __call__(self, t, alg):
        if t[0] == "idx" and t[2] == ("c", 0) and t[1][0] == "at" and t[1][2] == "shape" and t[1][1][0] == "s" and t[1][1][1].startswith(("nodes", "evaluations")):
            return alg.nf(self.b)
        if t[0] == "at" and t[2] == "size" and t[1][0] == "s" and t[1][1].startswith("evaluations"):
            return alg.nf(self.b)
        if t[0] == "call" and str(t[1]).split(".")[-1] in ("len", "size") and len(t[2]) == 1 and t[2][0][0] == "s" and t[2][0][1].startswith(("nodes", "evaluations") if str(t[1]).endswith("len") else "evaluations"):
            return alg.nf(self.b)
        return super().__call__(t, alg)


def integrate(J):
    """Data the iteration starts from."""
    cls = public_class(J.p, Q + "solvers.BayesianQuadrature")
    f = cls.find("integrate")
    pol, upd, crit, fun, rng, des = (sym(x) for x in ("policy", "belief_update", "stopping_criterion", "fun", "rng", "initial_design"))
    nodes, evals = sym("nodes"), sym("fun_evals")
    for policy, design, data in itertools.product((True, False), (True, False), ("none", "nodes", "both")):
        if not policy and (design or data == "none"):
            continue
        first = []

        def s(fr, fn, args, kwargs):
            name = str(fn[1] if fn[0] in ("ext", "pfunc") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
            xs = tuple(args) + tuple(v for _, v in kwargs)
            if fn == fun:
                return sym(f"f({show(xs[0])})") if len(xs) == 1 else None
            if fn == des:
                return sym("design") if xs == (rng,) else sym("design without generator")
            if fn == upd:
                first.append({**dict(zip(("bq_state", "new_nodes", "new_fun_evals"), args)), **dict(kwargs)})
                return ("tup", (sym("belief1"), sym("state1")))
            if name == "bq_iterator":
                d = {**dict(zip(("bq_state", "info", "fun", "rng"), args)), **dict(kwargs)}
                first.append(d)
                return ("list", tuple(("tup", (sym(f"belief at {k}"), sym(f"state at {k}"), sym(f"info at {k}"))) for k in range(3)))
            if name == "concatenate" and args and V.finite(args[0]) is not None or name in ("vstack", "hstack", "append") and args:
                parts = V.finite(args[0]) if name != "append" else args[:2]
                if parts is not None and all(x[0] == "s" for x in parts):
                    return sym(" and ".join(x[1] for x in parts))
            if name == "warn":
                return V.NONE
            return summaries(kernels=(sym("kernel"),), measures=(sym("measure"),))(fr, fn, args, kwargs)

        def orc(c):
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2][0] == "s":
                return False
            if c[0] == "cmp" and c[1] in ("!=", "==", "<", ">") and ("ndim" in repr(c) or "shape" in repr(c)):
                return c[1] == "=="  # nodes and evaluations fit
            if c[0] == "at" and c[2] == "requires_rng":
                return True
            return None
        ev = J.eval(orc, summ=s)
        ev.types = {}
        vn = ev.new_vn()
        st = {("@", SELF, "policy"): pol if policy else V.NONE, ("@", SELF, "belief_update"): upd, ("@", SELF, "stopping_criterion"): crit,
              ("@", SELF, "initial_design"): des if design else V.NONE, ("@", SELF, "kernel"): sym("kernel"), ("@", SELF, "measure"): sym("measure")}
        given = {"fun": fun if policy or data == "nodes" else V.NONE, "nodes": V.NONE if data == "none" else nodes, "fun_evals": evals if data == "both" else V.NONE, "rng": rng}
        out, _ = ev.method(cls, "integrate", given, vn=vn, state=st)
        out = V.strip_raise(out) if out is not None else None
        label = f"integration {'with' if policy else 'without'} policy, {'with' if design else 'without'} initial design, " + {"none": "no data", "nodes": "nodes given", "both": "data given"}[data]
        start = [x for x in first if "info" in x or "fun" in x]
        data_ = [x for x in first if "new_nodes" in x]
        if len(start) != 1 or out is None:
            J.fact(label, f, None, "start of the iteration not found")
            continue
        want_nodes = [] if data == "none" else ["nodes"]
        want_evals = [] if data == "none" else ["fun_evals" if data == "both" else "f(nodes)"]
        if design:
            want_nodes.append("design")
            want_evals.append("f(design)")
        if want_nodes:
            if len(data_) != 1:
                J.fact(f"{label}: data", f, False if not data_ and all(x[0] == "s" for x in start[0].values()) else None, "given data or design are not used")
            else:
                exact(J, f"{label}: nodes", f, data_[0].get("new_nodes"), sym(" and ".join(want_nodes)))
                exact(J, f"{label}: evaluations", f, data_[0].get("new_fun_evals"), sym(" and ".join(want_evals)))
                prior(J, f"{label}: prior", f, data_[0].get("bq_state"))
                exact(J, f"{label}: first state", f, start[0].get("bq_state"), sym("state1"))
        else:
            prior(J, f"{label}: prior", f, start[0].get("bq_state"))
        if policy:
            exact(J, f"{label}: integrand", f, start[0].get("fun"), fun)
            exact(J, f"{label}: generator", f, start[0].get("rng"), rng)
        exact(J, f"{label}: result", f, out, ("tup", (at(sym("state at 2"), "integral_belief"), sym("state at 2"), sym("info at 2"))),
              ("tup", (sym("belief at 2"), sym("state at 2"), sym("info at 2"))))


def prior(J, what, f, t):
    """Zero mean, prior variance of the integral."""
    d = new(t, "BQState") if t is not None else None
    b = new(d.get("integral_belief", V.NONE), "Normal") if d is not None else None
    if b is None:
        J.fact(what, f, None, "state not understood")
        return
    exact(J, what + ": mean", f, b.get("mean"), ("c", 0.0), ("c", 0))
    exact(J, what + ": variance", f, b.get("cov"), KVAR)
    exact(J, what + ": kernel", f, d.get("kernel"), sym("kernel"))
    exact(J, what + ": measure", f, d.get("measure"), sym("measure"))


# ------------------------------------------------------------------ measures, designs, policies
class Plain:
    """Array constructors as scalars."""

    def __init__(self, names=()):
        self.names = names

    def __call__(self, t, alg):
        if t[0] == "call" and isinstance(t[1], str):
            kw = dict(t[3]) if all(isinstance(x[0], str) for x in t[3]) else {}
            if t[1] == "numpy.full":
                v = t[2][1] if len(t[2]) > 1 else kw.get("fill_value")
                return None if v is None else alg.mul(alg.nf(v), self.ones(t[2][0] if t[2] else kw["shape"], alg))
            if t[1] == "numpy.ones" and (t[2] or "shape" in kw):
                return self.ones(t[2][0] if t[2] else kw["shape"], alg)
            if t[1] in ("numpy.atleast_1d", "numpy.asarray", "numpy.array", "numpy.squeeze") and len(t[2]) == 1:
                return alg.nf(t[2][0])
            if t[1] == "numpy.reshape" and t[2]:
                return alg.nf(t[2][0])
        if t[0] == "m" and t[2] == "reshape":
            return alg.nf(t[1])
        return None

    def ones(self, shape, alg):
        if shape[0] in ("tup", "list") and len(shape[1]) == 1:
            shape = shape[1][0]
        return alg.atom(("f", "full", (alg.canon(shape),), ()))


class PlainCase(DimCase):
    straight = True

    def __init__(self):
        self.sem = Plain()


def named(fr, fn, args, kwargs):
    """int() and float() of parameters."""
    if fn[0] == "ext" and fn[1].split(".")[-1] in ("int", "float") and len(args) == 1 and (args[0][0] == "s" or args[0][0] == "c" and isinstance(args[0][1], (int, float))):
        return args[0]
    if fn[0] == "ext" and fn[1].split(".")[-1] == "warn":
        return V.NONE
    return None


def measures(J):
    M_ = Q + "integration_measures."
    leb, gau = public_class(J.p, M_ + "LebesgueMeasure"), public_class(J.p, M_ + "GaussianMeasure")
    lo, hi, d = sym("lower"), sym("upper"), sym("input_dim")
    init = leb.find("__init__")

    def sizes(dim):
        def o(c):
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2] == d:
                return False
            if c[0] == "cmp" and c[2] in (d, V.NONE) and c[3] == ("c", 1):
                return c[1] in (">", ">=", "!=")
            if c[0] == "cmp" and len(c) == 4:
                def val(t):
                    if t[0] == "c" and isinstance(t[1], (int, float)):
                        return t[1]
                    return 1 if t[0] == "at" and t[2] == "ndim" else dim if "numpy.size" in repr(t) or t == d and dim > 1 else None
                x, y = val(c[2]), val(c[3])
                if x is not None and y is not None:
                    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}.get(c[1])
            if c[0] == "call" and c[1] == "numpy.all":
                return True
            if c[0] == "cmp" and c[1] in ("in", "not in"):
                return c[1] == "not in"
            return None
        return o
    for dim, given in ((1, True), (2, True), (1, False), (2, False)):
        for normalized in (True, False):
            ev = J.eval(sizes(dim), summ=named)
            vn = ev.new_vn()
            vn.oracle = ev.oracle
            st = ev.state(leb, vn, {"domain": ("tup", (lo, hi)), "input_dim": d if given else V.NONE, "normalized": ("c", normalized)})
            what = f"Lebesgue measure, limits of size {dim}, {'dimension given' if given else 'dimension inferred'}"
            env = {"a": lo, "b": hi, "d": d}
            dom = V.finite(st.get(("@", SELF, "domain"), V.NONE))
            fa, fb = ("np.full((d,), a)", "np.full((d,), b)") if dim == 1 and given else ("a", "b")
            if dom is None or len(dom) != 2:
                J.fact(what + ": domain", init, None, "not understood")
                continue
            if normalized:
                for x, ref, w in ((dom[0], fa, "lower"), (dom[1], fb, "upper")):
                    J.decide(f"{what}: {w} limit", init, x, [J.text(vn, ref, env)], PlainCase())
                if given:
                    exact(J, what + ": dimension", init, st.get(("@", SELF, "input_dim")), d)
            ref = f"1 / np.prod({fb} - {fa})" if normalized else "1.0"
            c = st.get(("@", SELF, "normalization_constant"))
            J.decide(f"{what}: {'' if normalized else 'no '}normalization", init, c, [J.text(vn, ref, env)], PlainCase())
            rv = st.get(("@", SELF, "random_variable"))
            if rv is None or rv[0] != "call" or not str(rv[1]).endswith("uniform"):
                J.fact(what + ": samples", init, None, "distribution not understood")
            else:
                kw = both(rv[2], rv[3], ("loc", "scale"))
                J.decide(what + ": lower limit of samples", init, kw.get("loc", ("c", 0)), [J.text(vn, fa, env)], PlainCase())
                J.decide(what + ": width of samples", init, kw.get("scale", ("c", 1)), [J.text(vn, f"{fb} - {fa}", env)], PlainCase())
    heap = {("@", SELF, "normalization_constant"): NORM, ("@", SELF, "random_variable"): sym("rv"), ("@", SELF, "input_dim"): d}
    pts = sym("points")
    ev = J.eval(None)
    out, vn = ev.method(leb, "__call__", {"points": pts}, state=heap)
    J.decide("density of the Lebesgue measure", leb.find("__call__"), out, [J.text(vn, "np.full((p.shape[0],), c)", {"p": pts, "c": NORM})], PlainCase())
    f = leb.find("sample")
    out, vn = ev.method(leb, "sample", {"n_sample": sym("n"), "rng": sym("rng")}, state=heap)
    want = ("m", sym("rv"), "rvs", (), (("random_state", sym("rng")), ("size", ("tup", (sym("n"), d)))))
    got = V.strip_raise(out)
    if got is not None and got[0] == "m":
        got = got[:4] + (tuple(sorted(got[4])),)
    J.fact("samples of the Lebesgue measure", f, True if got == want else False if got is not None and got[0] == "m" and got[2] == "rvs" and not got[3] and got[1] == sym("rv") and set(dict(got[4])) == {"random_state", "size"}
           and dict(got[4])["size"][0] == "tup" and all(x in (sym("n"), d) for x in dict(got[4])["size"][1]) else None, "shape or generator")
    # Gaussian measure
    m, C = sym("mean"), sym("cov")
    init = gau.find("__init__")
    for given, multi in ((True, False), (False, True)):
        def orc(c, multi=multi):
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2] == d:
                return False
            if c[0] == "truth":
                return orc(c[1])
            if c[0] in ("or", "and"):
                vs = [orc(x) for x in c[1:]]
                return None if None in vs else any(vs) if c[0] == "or" else all(vs)
            if c[0] == "phi":
                k = orc(c[1])
                return None if k is None else orc(c[2] if k else c[3])
            if c[0] == "not":
                k = orc(c[1])
                return None if k is None else not k
            if c[0] == "call" and str(c[1]).endswith("isscalar"):
                return not multi and c[2][0] in (m, C)
            if c[0] == "cmp" and c[2] in (at(m, "size"), at(C, "size")) and c[3] == ("c", 1):
                return (not multi) == (c[1] == "==")
            if c[0] == "cmp" and c[1] in ("==", "!=") and c[2] == d:
                return c[1] == "!="
            return sizes(2)(c)
        ev = J.eval(orc, summ=named)
        ev.records = {"Normal": {"mean": "mean", "cov": "cov"}}
        vn = ev.new_vn()
        st = ev.state(gau, vn, {"mean": m, "cov": C, "input_dim": d if given else V.NONE})
        what = "Gaussian measure from " + ("vectors" if multi else "scalars")
        env = {"m": m, "C": C, "d": d}
        if not multi:
            J.decide(what + ": mean", init, st.get(("@", SELF, "mean")), [J.text(vn, "np.full((d,), m)", env)], PlainCase())
            J.decide(what + ": covariance", init, st.get(("@", SELF, "cov")), [J.text(vn, "C * np.eye(d)", env)], PlainCase())
        else:
            J.decide(what + ": mean", init, st.get(("@", SELF, "mean")), [m], PlainCase())
            J.decide(what + ": covariance", init, st.get(("@", SELF, "cov")), [C], PlainCase())
            flag = st.get(("@", SELF, "diagonal_covariance"))
            if flag is not None:
                soft = V.contains(flag, lambda t: t[0] == "call" and len(t) > 1 and str(t[1]).split(".")[-1] in ("allclose", "isclose"))
                diag = V.contains(flag, lambda t: t[0] == "call" and len(t) > 1 and str(t[1]).split(".")[-1] in ("diag", "diagonal", "triu", "tril", "eye", "tril_indices", "triu_indices"))
                J.fact(what + ": correlations are dropped only if they are zero", init, False if soft or flag == ("c", True) else True if diag else None, "the covariance counts as diagonal up to a tolerance")
        rv = new(st.get(("@", SELF, "random_variable"), V.NONE), "Normal")
        if rv is None:
            J.fact(what + ": distribution", init, None, "not understood")
        else:
            J.decide(what + ": mean of samples", init, rv.get("mean"), [J.text(vn, "m" if multi else "np.full((d,), m)", env)], PlainCase())
            J.decide(what + ": covariance of samples", init, rv.get("cov"), [J.text(vn, "C" if multi else "C * np.eye(d)", env)], PlainCase())
    for cls in (gau,):
        f = cls.find("__call__")
        ev = J.eval(None)
        out, vn = ev.method(cls, "__call__", {"points": pts}, state=heap)
        J.decide("density of the Gaussian measure", f, out, [("m", sym("rv"), "pdf", (pts,), ())], PlainCase())
        f = cls.find("sample")
        out, vn = ev.method(cls, "sample", {"n_sample": sym("n"), "rng": sym("rng")}, state=heap)
        out = V.strip_raise(out)
        ok = None
        if out is not None and (out[0] == "call" and out[1] == "numpy.reshape" or out[0] == "m" and out[2] == "reshape"):
            inner = out[2][0] if out[0] == "call" else out[1]
            rest = [v for v in (out[2][1:] if out[0] == "call" else out[3]) + tuple(v for _, v in (out[3] if out[0] == "call" else out[4]))]
            shape = rest[0] if len(rest) == 1 else ("tup", tuple(rest))
            good = inner[0] == "m" and inner[1] == sym("rv") and inner[2] == "sample" and set(inner[3]) | {v for _, v in inner[4]} == {sym("n"), sym("rng")}
            if good and shape[0] == "tup" and len(shape[1]) == 2:
                ok = True if shape[1] == (sym("n"), d) or shape[1] == (("c", -1), d) else False if set(shape[1]) <= {sym("n"), d} else None
        J.fact("samples of the Gaussian measure", f, ok, "shape of the samples")


def policies(J):
    P_ = Q + "solvers.policies."
    rng = sym("rng")
    # random nodes
    cls = public_class(J.p, P_ + "RandomPolicy")
    f = cls.find("__call__")
    fun = sym("sample_func")
    b = sym("batch_size")
    got = []

    def s(fr, fn, args, kwargs):
        if fn == fun:
            got.append(both(args, kwargs, ("n_sample", "rng")))
            return sym("samples")
        return named(fr, fn, args, kwargs)
    ev = J.eval(None, summ=s)
    vn = ev.new_vn()
    out, _ = ev.method(cls, "__call__", {"bq_state": ST, "rng": rng}, vn=vn, state=ev.state(cls, vn, {"batch_size": b, "sample_func": fun}))
    J.fact("random policy", f, None if len(got) != 1 else V.strip_raise(out) == sym("samples") and sorted(map(repr, got[0].values())) == sorted(map(repr, (b, rng))), "number of samples or generator")
    # low-discrepancy sequence
    cls = public_class(J.p, P_ + "VanDerCorputPolicy")
    f = cls.find("__call__")
    seq = []

    def s2(fr, fn, args, kwargs):
        name = str(fn[1] if fn[0] in ("pfunc", "ext") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
        if name == "van_der_corput_sequence":
            seq.append(both(args, kwargs, ("n_start", "n_end")))
            return sym("sequence")
        return named(fr, fn, args, kwargs)
    mea = sym("measure")

    def bounded(c):
        if c[0] == "cmp" and c[1] in ("in", "not in"):
            return c[1] == "not in"
        if c[0] == "cmp" and "input_dim" in repr(c):
            return False
        if c[0] == "call" and str(c[1]).endswith(("any", "isinf")):
            return False
        return None
    ev = J.eval(bounded, summ=s2)
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"batch_size": b, "measure": mea})
    out, _ = ev.method(cls, "__call__", {"bq_state": ST, "rng": rng}, vn=vn, state=st)
    env = {"a": ("idx", at(mea, "domain"), ("c", 0)), "b": ("idx", at(mea, "domain"), ("c", 1)), "u": sym("sequence"), "n": ("idx", at(N, "shape"), ("c", 0)), "k": b}
    J.decide("van der Corput policy: nodes", f, out, [J.text(vn, "a + u * (b - a)", env)], PlainCase())
    if len(seq) != 1:
        J.fact("van der Corput policy: part of the sequence", f, None, "sequence not found")
    else:
        J.decide("van der Corput policy: start of the sequence", f, seq[0].get("n_start"), [J.text(vn, "n + 1", env)], PlainCase())
        J.decide("van der Corput policy: end of the sequence", f, seq[0].get("n_end"), [J.text(vn, "n + 1 + k", env)], PlainCase())
    radical_inverse(J, cls)
    # best of random candidates
    acq = sym("acquisition_func")
    cls = public_class(J.p, P_ + "RandomMaxAcquisitionPolicy")
    f = cls.find("__call__")

    def s3(fr, fn, args, kwargs):
        xs = tuple(args) + tuple(v for _, v in kwargs)
        if fn == acq or fn[0] == "at" and fn[1] == acq and fn[2] == "__call__":
            return ("tup", (sym("acquisition values"), V.NONE)) if xs == (sym("candidates"), ST) else sym("acquisition of other points")
        if fn[0] in ("at", "bound") and fn[1] in (MEA, at(ST, "measure")) and str(fn[2]).split(".")[-1] == "sample":
            return sym("candidates") if set(xs) == {sym("n_candidates"), rng} else sym("other candidates")
        return named(fr, fn, args, kwargs)
    ev = J.eval(lambda c: False if c[0] == "cmp" else None, summ=s3)
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"batch_size": ("c", 1), "acquisition_func": acq, "n_candidates": sym("n_candidates")})
    out, _ = ev.method(cls, "__call__", {"bq_state": ST, "rng": rng}, vn=vn, state=st)
    env = {"c": sym("candidates"), "v": sym("acquisition values")}
    J.decide("best of random candidates", f, out, [J.text(vn, "c[np.argmax(v), :][None, :]", env)], PickCase(), known={"numpy.argmin", "numpy.max"})
    # optimised acquisition
    cls = public_class(J.p, P_ + "MaxAcquisitionPolicy")
    f = cls.find("__call__")
    for ok, better in itertools.product(((True, True), (True, False), (False, True)), (True, False)):
        runs = []

        def s4(fr, fn, args, kwargs):
            xs = tuple(args) + tuple(v for _, v in kwargs)
            name = str(fn[1] if fn[0] in ("pfunc", "ext") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
            if fn == acq:
                return ("tup", (("tup", (("call", "acquisition", xs, ()),)), V.NONE))
            if fn[0] in ("at", "bound") and fn[1] in (MEA, at(ST, "measure")) and name == "sample":
                return ("tup", (sym("start0"), sym("start1"))) if set(xs) == {sym("n_restarts"), rng} else None
            if name == "minimize":
                d = both(args, kwargs, ("fun", "x0"))
                k = len(runs)
                g = d.get("fun", V.NONE)
                runs.append((d, fr.call(g, (sym("candidate"),), ()) if g[0] in ("fn", "bound", "pfunc") else None))
                return sym(f"optimum{k}")
            return named(fr, fn, args, kwargs)

        def orc(c, ok=ok, better=better):
            for k in range(2):
                r = sym(f"optimum{k}")
                if c in (("idx", r, ("c", "success")), at(r, "success")):
                    return ok[k]
            if c[0] == "cmp" and c[1] in ("<", "<=", ">", ">="):
                def val(t):
                    for k in range(2):
                        r = sym(f"optimum{k}")
                        if t in (("idx", r, ("c", "fun")), at(r, "fun")):
                            return (1, 0 if better else 2)[k]
                    return 9 if "inf" in repr(t) else None
                x, y = val(c[2]), val(c[3])
                if x is not None and y is not None:
                    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[c[1]]
            if c[0] == "at" and c[2] == "has_gradients":
                return False
            if c[0] == "cmp" and c[1] in ("<", "!=") and "n_restarts" in repr(c):
                return False
            return c18.notnone(c)
        ev = J.eval(orc, summ=s4)
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"batch_size": ("c", 1), "acquisition_func": acq, "n_restarts": sym("n_restarts")})
        out, _ = ev.method(cls, "__call__", {"bq_state": ST, "rng": rng}, vn=vn, state=st)
        out = V.strip_raise(out) if out is not None else None
        what = f"optimised acquisition, restarts {'/'.join('successful' if x else 'failed' for x in ok)}, {'second' if better else 'first'} one better"
        k = 0 if ok == (True, False) else 1 if ok == (False, True) else int(better)
        if len(runs) != 2 or out is None:
            J.fact(what, f, None, "restarts not found")
            continue
        names = {x[1] for x in leaves(out) if x[1].startswith("optimum")}
        J.fact(what, f, True if names == {f"optimum{k}"} else False if len(names) == 1 and len(out) == 3 and out[0] == "idx" else None, f"node is taken from {sorted(names)}, must be from optimum{k}")
        if ok == (True, True) and better:
            for i, (d, val_) in enumerate(runs):
                exact(J, f"optimised acquisition: start {i}", f, d.get("x0"), sym(f"start{i}"))
                cand = J.text(vn, "x[None, :]", {"x": sym("candidate")})
                ref = ("bin", "*", ("c", -1), ("call", "acquisition", (cand, ST), ()))
                J.decide(f"optimised acquisition: objective of start {i}", f, val_, [ref], PickCase())
                bounds(J, f"optimised acquisition: limits of start {i}", f, d.get("bounds"))


def bounds(J, what, f, t):
    dom = at(ST, "measure", "domain")
    lim = (("idx", dom, ("c", 0)), ("idx", dom, ("c", 1)))
    while t is not None and t[0] == "call" and str(t[1]).split(".")[-1] in ("list", "tuple") and len(t[2]) == 1:
        t = t[2][0]
    if t is not None and t[0] == "call" and str(t[1]).split(".")[-1] == "zip":
        J.fact(what, f, True if t[2] == lim else False if set(t[2]) <= set(lim) else None, "limits of the domain")
    elif t is not None and t[0] == "zip":
        J.fact(what, f, True if tuple(t[1]) == lim else False if set(t[1]) <= set(lim) else None, "limits of the domain")
    else:
        J.fact(what, f, False if t in (None, V.NONE) else None, "the search is not limited to the domain")


def leaves(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "s":
            yield t
        else:
            for x in t:
                yield from leaves(x)


class PickCase(DimCase):
    straight = True

    def __init__(self):
        self.sem = Pick()


class Pick:
    """Selecting one row."""

    def __call__(self, t, alg):
        if t[0] == "call" and str(t[1]).split(".")[-1] == "int" and len(t[2]) == 1:
            return alg.nf(t[2][0])
        if t[0] == "idx":
            k = t[2]
            if t[1][0] == "s" and t[1][1] == "candidates":
                xs = list(k[1]) if k[0] == "tup" else [k]
                while xs and xs[-1][0] == "slice" and all(y == V.NONE for y in xs[-1][1:]):
                    xs.pop()
                xs = [x[1][0] if x[0] == "list" and len(x[1]) == 1 else x for x in xs]
                xs = [x[1] if x[0] == "slice" and x[3] in (V.NONE, ("c", 1)) and x[2] in (("bin", "+", x[1], ("c", 1)), ("bin", "+", ("c", 1), x[1])) else x for x in xs]
                if len(xs) == 1:
                    return alg.atom(("f", "row", (alg.canon(t[1]), alg.canon(xs[0])), ()))
                if len(xs) == 2 and xs[0] == V.NONE:
                    return alg.atom(("f", "row", (alg.canon(t[1]), alg.canon(xs[1])), ()))
            if k[0] == "tup" and k[1] and k[1][0] == V.NONE and all(x[0] == "slice" for x in k[1][1:]) and t[1] != sym("candidate"):
                return alg.nf(t[1])
            if k == V.NONE and t[1] != sym("candidate"):
                return alg.nf(t[1])
            if k == V.NONE:
                return alg.nf(("idx", t[1], ("tup", (V.NONE, ("slice", V.NONE, V.NONE, V.NONE)))))
        if t[0] == "call" and t[1] == "numpy.atleast_2d" and len(t[2]) == 1:
            if t[2][0] == sym("candidate"):
                return alg.nf(("idx", t[2][0], ("tup", (V.NONE, ("slice", V.NONE, V.NONE, V.NONE)))))
            return alg.nf(t[2][0])
        return None


def designs(J):
    D_ = Q + "solvers.initial_designs."
    mea, n, rng = sym("measure"), sym("n_nodes"), sym("rng")
    cls = public_class(J.p, D_ + "MCDesign")
    f = cls.find("__call__")
    got = []

    def s(fr, fn, args, kwargs):
        name = str(fn[1] if fn[0] in ("pfunc", "ext") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
        if fn[0] in ("at", "bound") and name == "sample" and fn[1] == mea:
            got.append(both(args, kwargs, ("n_sample", "rng")))
            return sym("samples")
        return named(fr, fn, args, kwargs)
    ev = J.eval(None, summ=s)
    vn = ev.new_vn()
    out, _ = ev.method(cls, "__call__", {"rng": rng}, vn=vn, state=ev.state(cls, vn, {"n_nodes": n, "measure": mea}))
    J.fact("Monte-Carlo design", f, None if len(got) != 1 else V.strip_raise(out) == sym("samples") and got[0].get("n_sample") == n and got[0].get("rng") == rng, "number of nodes or generator")
    cls = public_class(J.p, D_ + "LatinDesign")
    f = cls.find("__call__")
    ev = J.eval(lambda c: (c[1] == "not in") if c[0] == "cmp" and c[1] in ("in", "not in") else None, summ=named)
    vn = ev.new_vn()
    out, _ = ev.method(cls, "__call__", {"rng": rng}, vn=vn, state=ev.state(cls, vn, {"n_nodes": n, "measure": mea}))
    out = V.strip_raise(out)
    if out is not None and out[0] == "call" and str(out[1]).endswith("qmc.scale"):
        kw = both(out[2], out[3], ("sample", "l_bounds", "u_bounds"))
        lim = [("idx", at(mea, "domain"), ("c", k)) for k in (0, 1)]
        J.fact("Latin design: limits", f, [kw.get("l_bounds"), kw.get("u_bounds")] == lim, "limits of the domain")
        x = kw.get("sample")
        ok = None
        if x is not None and x[0] == "m" and x[2] == "random":
            ok = set(x[3]) | {v for _, v in x[4]} == {n}
        J.fact("Latin design: number of nodes", f, ok, "number of nodes")
        src = x[1] if x is not None and x[0] == "m" else V.NONE
        if src[0] == "call" and str(src[1]).endswith("LatinHypercube"):
            kw = both(src[2], src[3], ("d",))
            exact(J, "Latin design: dimension", f, kw.get("d"), at(mea, "input_dim"))
    else:
        unit = lambda t: len(t) > 3 and t[0] == "m" and t[2] == "random" and V.contains(t[1], lambda x: x[0] == "call" and str(x[1]).endswith("LatinHypercube"))
        if out is not None and V.contains(out, unit):
            lo, hi = (("idx", at(mea, "domain"), ("c", k)) for k in (0, 1))
            J.decide("Latin design", f, V.subst(out, lambda t: sym("unit sample") if unit(t) else t), [J.text(vn, "a + u * (b - a)", {"a": lo, "b": hi, "u": sym("unit sample")})], PlainCase())
        else:
            J.fact("Latin design", f, None, "not understood")


def radical_inverse(J, cls):
    """Van der Corput numbers: binary digits of the index, mirrored at the point."""
    f = cls.find("van_der_corput_sequence")
    m = sym("m")
    if f is None:
        J.fact("van der Corput numbers", cls.find("__call__"), None, "not found")
        return

    def halvings(t):
        if t == m:
            return 0
        if t[0] == "bin" and (t[1], t[3]) in (("//", ("c", 2)), (">>", ("c", 1))):
            k = halvings(t[2])
            return None if k is None else k + 1
        return None
    for digits in (1, 2, 3):
        def orc(c, digits=digits):
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE:
                return c[2] == V.NONE
            pos = c[0] == "cmp" and c[1] in ("!=", ">") and c[3] == ("c", 0) and c[2] or c[0] == "cmp" and c[1] == "<" and c[2] == ("c", 0) and c[3] or c[0] == "truth" and c[1]
            neg = c[0] == "cmp" and c[1] == "==" and (c[2] if c[3] == ("c", 0) else c[3] if c[2] == ("c", 0) else None)
            one = c[0] == "cmp" and (c[1] == ">=" and c[3] == ("c", 1) and c[2] or c[1] == "<=" and c[2] == ("c", 1) and c[3])
            more = c[0] == "cmp" and (c[1] == ">" and c[3] == ("c", 1) and c[2] or c[1] == "<" and c[2] == ("c", 1) and c[3])
            for t, v in ((pos, lambda k: k < digits), (neg, lambda k: k >= digits), (one, lambda k: k < digits), (more, lambda k: k < digits - 1)):
                k = halvings(t) if t else None
                if k is not None:
                    return v(k)
            return None

        def s(fr, fn, args, kwargs):
            if fn[0] == "ext" and fn[1].split(".")[-1] == "range":
                return ("tup", (m,))
            if fn[0] == "ext" and fn[1].split(".")[-1] == "enumerate" and args[:1] == (("tup", (m,)),):
                return ("tup", (("tup", (("c", 0), m)),))
            if fn[0] == "ext" and fn[1].split(".")[-1] in ("divmod",) and len(args) == 2:
                return ("tup", (("bin", "//", args[0], args[1]), ("bin", "%", args[0], args[1])))
            return named(fr, fn, args, kwargs)
        ev = J.eval(orc, summ=s)
        vn = ev.new_vn()
        out = vn.func(f, cls, {"n_start": m, "n_end": sym("m_end")})
        out = V.strip_raise(out)
        while out is not None and out[0] == "call" and str(out[1]).split(".")[-1] in ("array", "asarray") and out[2]:
            out = out[2][0]
        if out is not None and out[0] == "upd" and out[2] == ("c", 0):
            out = out[3]
        elif out is not None and V.finite(out) is not None and len(V.finite(out)) == 1:
            out = V.finite(out)[0]
        else:
            out = None
        what = f"van der Corput number of an index with {digits} binary digits"
        if out is None:
            J.fact(what, f, None, "result not understood")
            continue
        ref = " + ".join(f"((m{' // 2' * k}) % 2) / {2 ** (k + 1)}" for k in range(digits))
        J.decide(what, f, out, [J.text(vn, ref, {"m": m})], PlainCase())


# ------------------------------------------------------------------ front ends
def fronts(J):
    """What the functions of the user interface hand to the solver, and what they return."""
    mod = None
    fs = {n: J.p.public_function(Q + n) if hasattr(J.p, "public_function") else None for n in ("bayesquad", "bayesquad_from_data", "multilevel_bayesquad_from_data")}
    for m in J.p.modules.values():
        for n in fs:
            if m.name.startswith("probnum.quad") and n in m.functions:
                fs[n] = m.functions[n]
    given = {n: sym(n) for n in ("fun", "input_dim", "kernel", "policy", "initial_design", "rng", "options", "nodes", "fun_evals")}
    for name in ("bayesquad", "bayesquad_from_data"):
        f = fs[name]
        if f is None:
            continue
        for how in ("measure", "domain", "both"):
            made, run = [], []

            def s(fr, fn, args, kwargs):
                nm = str(fn[1] if fn[0] in ("pfunc", "ext", "class") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
                if nm == "from_problem":
                    made.append(both(args, kwargs, ("input_dim", "kernel", "measure", "domain", "policy", "initial_design", "options")))
                    return sym("method")
                if nm == "integrate" and fn[0] in ("at", "bound") and fn[1] == sym("method"):
                    run.append(both(args, kwargs, ("fun", "nodes", "fun_evals", "rng")))
                    return ("tup", (sym("belief"), sym("state"), sym("information")))
                if nm == "LebesgueMeasure" and fn[0] == "class":
                    d = both(args, kwargs, ("domain", "input_dim"))
                    return sym("Lebesgue measure") if (d.get("domain"), d.get("input_dim")) == (sym("domain"), dim) and len(d) == 2 else sym("other measure")
                return named(fr, fn, args, kwargs)

            def orc(c):
                if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2][0] == "s":
                    return False
                if c[0] == "cmp" and "ndim" in repr(c):
                    return c[1] == "=="
                return None
            dim = sym("input_dim") if name == "bayesquad" else ("idx", at(sym("nodes"), "shape"), ("c", 1))
            ev = J.eval(orc, summ=lambda fr, fn, a, k: dim if fn[0] == "ext" and fn[1].split(".")[-1] == "int" and a == (dim,) else s(fr, fn, a, k))
            ev.types = {}
            vn = ev.new_vn()
            params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
            env = {p: given.get(p, sym(p)) for p in params}
            env["measure"] = V.NONE if how == "domain" else sym("measure")
            env["domain"] = V.NONE if how == "measure" else sym("domain")
            out = V.strip_raise(vn.body(f, env, None))
            label = f"{name} with {'measure and domain' if how == 'both' else how}"
            if len(made) != 1 or len(run) != 1:
                J.fact(label, f, None, "construction of the method not found")
                continue
            m, r = made[0], run[0]
            exact(J, f"{label}: input dimension", f, m.get("input_dim"), dim)
            exact(J, f"{label}: measure", f, m.get("measure", V.NONE), sym("Lebesgue measure" if how == "domain" else "measure"), *((V.NONE,) if how == "domain" and m.get("domain") == sym("domain") else ()))
            for k in ("kernel", "options"):
                exact(J, f"{label}: {k}", f, m.get(k, V.NONE), given[k])
            if name == "bayesquad":
                for k in ("policy", "initial_design"):
                    exact(J, f"{label}: {k}", f, m.get(k, V.NONE), given[k])
                exact(J, f"{label}: integrand", f, r.get("fun", V.NONE), given["fun"])
                exact(J, f"{label}: generator", f, r.get("rng", V.NONE), given["rng"])
                exact(J, f"{label}: no data", f, r.get("nodes", V.NONE), V.NONE)
            else:
                exact(J, f"{label}: no policy", f, m.get("policy", sym("default policy")), V.NONE)
                exact(J, f"{label}: nodes", f, r.get("nodes", V.NONE), given["nodes"])
                exact(J, f"{label}: evaluations", f, r.get("fun_evals", V.NONE), given["fun_evals"])
            exact(J, f"{label}: result", f, out, ("tup", (sym("belief"), sym("information"))))
    f = fs["multilevel_bayesquad_from_data"]
    if f is None:
        return
    for shared, kers, size in itertools.product((False, True), (False, True), (1, 2, 20)):
        calls = []

        def s2(fr, fn, args, kwargs):
            nm = str(fn[1] if fn[0] in ("pfunc", "ext", "class") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
            if nm == "bayesquad_from_data":
                k = len(calls)
                calls.append(both(args, kwargs, ("nodes", "fun_evals", "kernel", "measure", "domain", "options")))
                return ("tup", (sym(f"belief{k}"), sym(f"info{k}")))
            if nm == "len" and len(args) == 1 and V.finite(args[0]) is not None:
                return ("c", len(V.finite(args[0])))
            if nm == "len" and len(args) == 1 and args[0][0] == "s" and args[0][1][:5] in ("nodes", "evals"):
                return ("c", size)
            if nm in ("min", "max") and fn[0] == "ext" and len(args) > 1 and all(a[0] == "c" for a in args):
                return ("c", (min if nm == "min" else max)(a[1] for a in args))
            if nm == "range" and len(args) == 1 and args[0][0] == "c":
                return ("tup", tuple(("c", i) for i in range(args[0][1])))
            if nm == "Normal" and fn[0] == "class":
                d = both(args, kwargs, ("mean", "cov"))
                return sym("zero") if all(d.get(k, V.NONE) in (("c", 0), ("c", 0.0)) for k in ("mean", "cov")) else sym("nonzero start")
            return None
        ev = J.eval(None, summ=s2)
        ev.types = {}
        vn = ev.new_vn()
        env = {"nodes": ("tup", (sym("nodes0"),) if shared else tuple(sym(f"nodes{k}") for k in range(3))), "fun_diff_evals": ("tup", tuple(sym(f"evals{k}") for k in range(3))),
               "kernels": ("tup", tuple(sym(f"kernel{k}") for k in range(3))) if kers else V.NONE, "measure": sym("measure"), "domain": sym("domain"), "options": sym("options")}
        out = V.strip_raise(vn.body(f, env, None))
        label = f"multilevel quadrature of {size} nodes each with {'one set' if shared else 'sets'} of nodes, {'given' if kers else 'default'} kernels"
        xs = V.finite(out) if out is not None else None
        if len(calls) != 3 or xs is None or len(xs) != 2:
            J.fact(label, f, None, "levels not understood")
            continue
        for k, c in enumerate(calls):
            want = {"nodes": sym("nodes0" if shared else f"nodes{k}"), "fun_evals": sym(f"evals{k}"), "kernel": sym(f"kernel{k}") if kers else V.NONE,
                    "measure": sym("measure"), "domain": sym("domain"), "options": sym("options")}
            for n, w in want.items():
                exact(J, f"{label}: {n} of level {k}", f, c.get(n, V.NONE), w)
        exact(J, f"{label}: information", f, xs[1], ("tup", tuple(sym(f"info{k}") for k in range(3))), ("list", tuple(sym(f"info{k}") for k in range(3))))
        J.decide(f"{label}: sum of the levels", f, xs[0], [("bin", "+", ("bin", "+", sym("belief0"), sym("belief1")), sym("belief2"))], ZeroCase())


class ZeroCase(DimCase):
    def __init__(self):
        self.sem = lambda t, alg: {} if t == sym("zero") else None


STOP = {"max_evals": "MaxNevals", "var_tol": "IntegralVarianceTolerance", "rel_tol": "RelativeMeanChange"}
POLICY = {"bmc": "RandomPolicy", "vdc": "VanDerCorputPolicy", "us": "MaxAcquisitionPolicy", "mi": "MaxAcquisitionPolicy", "ivr": "MaxAcquisitionPolicy",
          "us_rand": "RandomMaxAcquisitionPolicy", "mi_rand": "RandomMaxAcquisitionPolicy", "ivr_rand": "RandomMaxAcquisitionPolicy", None: None}
ACQ = {"us": "WeightedPredictiveVariance", "mi": "MutualInformation", "ivr": "IntegralVarianceReduction"}


def assembly(J):
    """The parts that names and options stand for."""
    cls = public_class(J.p, Q + "solvers.BayesianQuadrature")
    f = cls.find("from_problem")

    def build(policy, options, design=None):
        def s(fr, fn, args, kwargs):
            nm = str(fn[1] if fn[0] in ("pfunc", "ext", "class") else fn[2] if fn[0] in ("at", "bound") else "").split(".")[-1]
            if fn[0] in ("at", "bound", "m") and nm == "get" and fn[1] in (sym("options"), ("dict", ())):
                d = both(args, kwargs, ("key", "default"))
                k = d.get("key", V.NONE)
                return sym("option " + k[1]) if k[0] == "c" and k[1] in options and fn[1][0] == "s" else d.get("default", V.NONE)
            if nm == "dict" and fn[0] == "ext" and not args:
                return ("dict", tuple((("c", k), v) for k, v in kwargs))
            if fn == ("class", cls.qual):
                return ("new", cls.qual, tuple(sorted(both(args, kwargs, ("kernel", "measure", "policy", "belief_update", "stopping_criterion", "initial_design")).items())))
            if nm == "__or__":
                return None
            return named(fr, fn, args, kwargs)

        def orc(c):
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE:
                return c[2] == V.NONE
            if c[0] == "cmp" and c[2][0] == "c" and c[1] in ("==", "!=") and c[3][0] == "c":
                return (c[2] == c[3]) == (c[1] == "==")
            if c[0] == "cmp" and c[2][0] == "c" and c[1] in ("in", "not in") and V.finite(c[3]) is not None:
                return (c[2] in V.finite(c[3])) == (c[1] == "in")
            return None
        ev = J.eval(orc, summ=s)
        ev.types = {}
        vn = ev.new_vn()
        env = {a.arg: sym(a.arg) for a in f.node.args.args}
        env[f.node.args.args[0].arg] = ("class", cls.qual)
        env.update({"policy": ("c", policy), "initial_design": ("c", design), "domain": V.NONE, "options": sym("options") if options else V.NONE})
        return new(V.strip_raise(vn.body(f, env, cls)), "BayesianQuadrature"), vn
    for pol, want in POLICY.items():
        d, vn = build(pol, ())
        what = f"policy {pol}"
        if d is None:
            J.fact(what, f, None, "result not understood")
            continue
        exact(J, f"{what}: kernel", f, d.get("kernel"), sym("kernel"))
        exact(J, f"{what}: measure", f, d.get("measure"), sym("measure"))
        p = d.get("policy", V.NONE)
        if want is None:
            exact(J, what, f, p, V.NONE)
            kind(J, "criterion without policy", f, d.get("stopping_criterion"), "ImmediateStop")
            continue
        if kind(J, what, f, p, want) and pol.split("_")[0] in ACQ:
            kind(J, what + ": acquisition", f, dict(p[2]).get("acquisition_func", V.NONE), ACQ[pol.split("_")[0]])
    for pol in ("bmc", "vdc"):
        d, vn = build(pol, ("batch_size", "jitter", "scale_estimation"))
        p = d.get("policy", V.NONE) if d else V.NONE
        if p[0] == "new":
            exact(J, f"policy {pol}: batch size", f, dict(p[2]).get("batch_size"), sym("option batch_size"))
        u = d.get("belief_update", V.NONE) if d else V.NONE
        if u[0] == "new":
            exact(J, f"policy {pol}: jitter", f, dict(u[2]).get("jitter"), sym("option jitter"))
            exact(J, f"policy {pol}: scale estimation", f, dict(u[2]).get("scale_estimation"), sym("option scale_estimation"))
    for pol, o in (("us", "n_restarts"), ("us_rand", "n_candidates")):
        d, vn = build(pol, (o,))
        p = d.get("policy", V.NONE) if d else V.NONE
        if p[0] == "new":
            exact(J, f"policy {pol}: {o}", f, dict(p[2]).get(o), sym("option " + o))
    for des, want in (("mc", "MCDesign"), ("latin", "LatinDesign")):
        d, vn = build("bmc", ("n_initial_design_nodes",), des)
        p = d.get("initial_design", V.NONE) if d else V.NONE
        if kind(J, f"initial design {des}", f, p, want):
            exact(J, f"initial design {des}: measure", f, dict(p[2]).get("measure"), sym("measure"))
            exact(J, f"initial design {des}: nodes", f, dict(p[2]).get("n_nodes"), sym("option n_initial_design_nodes"))
    for r in range(1, 4):
        for opts in itertools.combinations(STOP, r):
            d, vn = build("bmc", opts)
            t = d.get("stopping_criterion") if d else None
            what = "criterion from " + ", ".join(opts)
            parts = alternatives(J, vn, t)
            if parts is None:
                J.fact(what, f, None, "criterion not understood")
                continue
            want = sorted((STOP[o], sym("option " + o)) for o in opts)
            J.fact(what, f, sorted(parts) == want, f"is {sorted(parts)}, must be {want}")
    d, vn = build("bmc", ())
    parts = alternatives(J, vn, d.get("stopping_criterion") if d else None)
    J.fact("criterion without options stops eventually", f, None if parts is None else any(n == "MaxNevals" for n, _ in parts), f"{parts}")


def kind(J, what, f, t, want):
    if t is None or t[0] != "new":
        J.fact(what, f, None, "not understood")
        return False
    J.fact(what, f, t[1].split(".")[-1] == want, f"is {t[1].split('.')[-1]}, must be {want}")
    return t[1].split(".")[-1] == want


def alternatives(J, vn, t):
    """Criteria of a disjunction."""
    if t is not None and t[0] == "bin" and t[1] in ("|", "&"):
        a, b = alternatives(J, vn, t[2]), alternatives(J, vn, t[3])
        return None if a is None or b is None else a + b if t[1] == "|" else [("both", ("tup", tuple(sorted(a + b))))]
    if t is None or t[0] != "new":
        return None
    name = t[1].split(".")[-1]
    if name != "LambdaStoppingCriterion":
        xs = [v for _, v in t[2]]
        return [(name, xs[0] if len(xs) == 1 else ("tup", tuple(xs)))]
    fn = dict(t[2]).get("stopcrit")
    if fn is None or fn[0] != "fn":
        return None
    f, fr = vn.fns[fn[1]]
    lam = public_class(J.p, "probnum.StoppingCriterion").find("__or__")
    host = f
    while host.parent is not None:
        host = host.parent
    if host is not lam:
        return None
    out = []
    for n in (lam.self_name, [a.arg for a in lam.node.args.args if a.arg != lam.self_name][0]):
        r = alternatives(J, vn, fr.env.get(n))
        if r is None:
            return None
        out += r
    return out



UNITS = [belief_update, prediction, expquad, correlated, matern, criteria, combined, infos, loop, integrate, measures, policies, designs, fronts, assembly]


def check(ctx, res):
    J = Job(ctx, res)
    for u in UNITS:
        try:
            u(J)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, A.TooBig, RecursionError, V.Budget) as e:
            if os.environ.get("PNSA_TRACE"):
                raise
            res.undecided.append(f"unit {u.__name__}: {type(e).__name__} {e}")
