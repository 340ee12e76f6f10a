"""C16: covariance functions, functions and Gaussian processes evaluate to the function they denote."""
from __future__ import annotations

import ast
from fractions import Fraction
from math import factorial

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..oblig import SELF, Eval, compare

LEVEL = "proof-of-formula"
EXPLANATION = (
    "The value of every covariance function (dense and KeOps path, scalar and vector inputs, with and without second argument), of "
    "their sums, products and scalings, of the kernel matrix and operator, of mean functions and of Gaussian processes is computed as "
    "a term by value numbering and compared in normal form with the documented kernel; the layout of kernel matrices is decided by "
    "tracking axis labels."
)
ASSUMPTIONS = [
    "NumPy, SciPy and KeOps primitives compute what they document; floating-point rounding is not modelled.",
    "The half-integer Matern family is decided for the orders 1/2 to 9/2 (one code path for all orders), other orders through the Bessel form.",
]
CF = "probnum.randprocs.covfuncs."
FN = "probnum.functions."
NP = {"np": ("ext", "numpy"), "scipy": ("ext", "scipy")}
X0, X1, LS, D = ("s", "x0"), ("s", "x1"), ("s", "lengthscales"), ("s", "d")
LIKE = {"numpy.ones_like": 1, "numpy.zeros_like": 0, "numpy.ones": 1, "numpy.zeros": 0}
OTHERS = {"scipy.special." + x for x in ("kve", "kn", "iv", "ive", "jv", "yv", "gammaln", "loggamma", "rgamma", "digamma", "factorial")} | {
    "numpy." + x for x in ("exp", "sqrt", "log", "log1p", "expm1", "exp2", "abs", "square", "cbrt")}
KEOPS = {"exp": "numpy.exp", "sqrt": "numpy.sqrt", "abs": "numpy.abs", "square": "numpy.square", "log": "numpy.log"}


def at(x, a):
    return ("at", x, a)


def call(name, *a):
    return ("call", name, a, ())


def mentions(x, what):
    if x in what:
        return True
    return isinstance(x, tuple) and any(mentions(y, what) for y in x if isinstance(y, tuple))


class Sem:
    """Elementwise algebra: all values commute; a sum over the input axis is linear and identity for scalar inputs."""

    def __init__(self, vector, ndim):
        self.vector, self.ndim = vector, ndim

    def axes(self, t, alg):
        if t is None:
            return None
        c = alg.canon(t)
        if c[0] == "tup":
            v = [x[1] for x in c[1] if x[0] == "c"]
            return tuple(v) if len(v) == len(c[1]) else None
        return (c[1],) if c[0] == "c" else None

    def total(self, arg, alg):
        p = alg.nf(arg)
        if self.ndim == 0:
            return p
        r = {}
        for m, c in p.items():
            inner = [(w, e) for w, e in m if mentions(w, self.vector) or mentions(w, {("f",)})]
            outer = [(w, e) for w, e in m if (w, e) not in inner]
            k = alg.key({alg.mono(inner): Fraction(1)}) if inner else alg.key({(): Fraction(1)})
            r = alg.add(r, alg.mul({alg.mono(outer): c} if outer else {(): c}, alg.atom(("f", "sum over the input", (k,), ()))))
        return r

    def __call__(self, t, alg):
        h = t[0]
        if h == "call" and isinstance(t[1], str):
            kw = dict(t[3]) if all(isinstance(x[0], str) for x in t[3]) else {}
            if t[1] in LIKE:
                return alg.const(Fraction(LIKE[t[1]]))
            if t[1] in ("numpy.full_like", "numpy.full"):
                v = t[2][1] if len(t[2]) > 1 else kw.get("fill_value")
                return None if v is None else alg.nf(v)
            if t[1] == "numpy.sum" and len(t[2]) >= 1:
                ax = self.axes(kw.get("axis", t[2][1] if len(t[2]) > 1 else None), alg)
                if (ax == () and self.ndim == 0) or (ax == (-1,) and self.ndim == 1):
                    return self.total(t[2][0], alg)
            if t[1] in ("numpy.linalg.norm", "linalg.norm") and len(t[2]) == 1:
                ax = self.axes(kw.get("axis"), alg)
                if ax == (-1,) and self.ndim == 1 and set(kw) == {"axis"}:
                    return alg.epow(self.total(("bin", "*", t[2][0], t[2][0]), alg), Fraction(1, 2))
            if t[1] == "numpy.exp" and len(t[2]) == 1 and alg.nf(t[2][0]) == {}:
                return alg.const(Fraction(1))
            if t[1] == "numpy.power" and len(t[2]) == 2:
                return alg.nf(("bin", "**") + t[2])
            if t[1] in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide", "numpy.true_divide") and len(t[2]) == 2:
                return alg.nf(("bin", {"m": "*", "a": "+", "s": "-", "d": "/", "t": "/"}[t[1].split(".")[-1][0]]) + t[2])
            if t[1].split(".")[-1] in ("Pm", "asarray", "array") and len(t[2]) == 1:
                return alg.nf(t[2][0])
        if h == "lat" and t[1] == "max":  # lower bound by the machine precision, away from a singularity
            rest = [x for x in t[2] if "finfo" not in repr(x)]
            return alg.nf(rest[0]) if len(rest) == 1 and len(t[2]) == 2 else None
        if h == "m":
            if t[2] in KEOPS and not t[3]:
                return alg.nf(call(KEOPS[t[2]], t[1]))
            if t[2] == "sum" and not t[3] and not t[4]:
                return Sem(self.vector, 1).total(t[1], alg)
            if t[2] == "sum":
                return alg.nf(("call", "numpy.sum", (t[1],) + t[3], t[4]))
            if t[2] in ("reshape", "astype", "copy"):
                return alg.nf(t[1])
        return None


def const(t):
    """Number a constant term stands for, or None."""
    if t[0] == "c" and not isinstance(t[1], (str, bool)) and isinstance(t[1], (int, float, Fraction)):
        return t[1]
    if t[0] == "un" and t[1] == "-":
        v = const(t[2])
        return None if v is None else -v
    if t[0] == "bin" and t[1] in "+-*/":
        a, b = const(t[2]), const(t[3])
        if a is None or b is None or (t[1] == "/" and b == 0):
            return None
        if t[1] == "/" and (isinstance(a, Fraction) or isinstance(b, Fraction)):
            return Fraction(a) / Fraction(b)
        return a + b if t[1] == "+" else a - b if t[1] == "-" else a * b if t[1] == "*" else a / b
    return None


def fold(fr, fn, args, kwargs):
    """Sequences and numbers that are known from the shapes and parameters of the case."""
    nm = fn[1] if fn[0] in ("ext", "pfunc") else None
    if nm is None:
        return None
    last = nm.split(".")[-1]
    if last in ("as_shape", "as_numpy_scalar") and len(args) + len(kwargs) == 1:
        return args[0] if args else kwargs[0][1]
    if kwargs or fn[0] != "ext":
        return None
    if last == "len" and len(args) == 1 and args[0][0] in ("tup", "list"):
        return ("c", len(args[0][1]))
    vals = [const(a) for a in args]
    if None in vals:
        return None
    if last == "int" and len(vals) == 1:
        return ("c", int(vals[0]))
    if last == "range" and vals and all(v == int(v) for v in vals):
        r = range(*map(int, vals))
        return ("tup", tuple(("c", i) for i in r)) if len(r) <= 12 else None
    if nm == "fractions.Fraction" and all(v == int(v) for v in vals):
        return ("c", Fraction(*map(int, vals)))
    return None


class Case:
    def __init__(self, vector=(), ndim=1, sem=None):
        self.sem = sem or Sem(set(vector), ndim)

    def factory(self, asg):
        return A.Alg(scalar=lambda a: True, symmetric=lambda a: True, sem=self.sem)

    def consistent(self, asg):
        return True


class Job:
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res

    def eval(self, oracle=None, opaque=(), summaries=None, types=None):
        ev = Eval(self.p, opaque=set(opaque), types=types or {})
        def summ(fr, fn, args, kwargs):
            r = fold(fr, fn, args, kwargs)
            return r if r is not None or summaries is None else summaries(fr, fn, args, kwargs)

        def orc(c):
            if c[0] == "cmp":
                a, b = const(c[2]), const(c[3])
                if a is not None and b is not None and c[1] in ("==", "<"):
                    return a == b if c[1] == "==" else a < b
                if c[1] == "==" and c[2][0] == "tup" and c[3][0] == "tup":
                    if len(c[2][1]) != len(c[3][1]):
                        return False
                    if c[2][1] == c[3][1] and not c[2][1]:
                        return True
                if c[1] == "is" and c[3] == V.NONE and (a is not None or c[2][0] in ("tup", "new")):
                    return False
            return oracle(c) if oracle is not None else None
        ev.oracle, ev.summaries = orc, summ
        return ev

    def decide(self, what, f, impl, refs, case, known=(), max_conds=8):
        res = self.res
        res.count("obligations")
        impl = V.strip_raise(impl) if impl is not None else None
        if impl is None:
            res.undecided.append(f"{what}: no value")
            return
        try:
            v = compare(impl, refs, case.factory, max_conds=max_conds, consistent=case.consistent, known_heads=set(known))
        except (A.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
            res.undecided.append(f"{what}: {type(e).__name__}")
            return
        res.count("branch assignments", v.leaves)
        if v.kind == "equal":
            res.count("obligations decided")
        elif v.kind == "differs":
            res.add("formula", f"{f.qual}: {what}", f"{what} {v.detail}", **loc(f))
        else:
            res.undecided.append(f"{f.qual} {what}: {v.detail}")


# ------------------------------------------------------------------ kernels
def sumsq(scaled):
    """Squared distance of the inputs, each coordinate divided by its lengthscale."""
    return "np.sum(((x0 - x1) / ls) ** 2, axis=AX)" if scaled else "np.sum((x0 - x1) ** 2, axis=AX)"


def matern_half(p):
    """Half-integer Matern kernel in terms of s = sqrt(2 nu) r."""
    nu = Fraction(2 * p + 1, 2)
    terms = []
    for i in range(p + 1):
        c = Fraction(factorial(p), factorial(2 * p)) * Fraction(factorial(p + i), factorial(i) * factorial(p - i)) * Fraction(2) ** (p - i)
        terms.append(f"({c.numerator} / {c.denominator}) * s ** {p - i}")
    return float(nu), "(" + " + ".join(terms) + ") * np.exp(-s)"


KERNELS = [  # class, parameters of the constructor, formula, scalar parameters
    ("ExpQuad", {"lengthscales": LS}, "np.exp(-%s / 2)" % sumsq(True)),
    ("RatQuad", {}, "(1 + %s / (2 * alpha * lengthscale ** 2)) ** (-alpha)" % sumsq(False)),
    ("Linear", {}, "np.sum(x0 * x1, axis=AX) + constant"),
    ("Polynomial", {}, "(np.sum(x0 * x1, axis=AX) + constant) ** exponent"),
]


def kernels(J):
    work = [(c, p, f, {}) for c, p, f in KERNELS]
    for p in range(5):
        nu, text = matern_half(p)
        work.append(("Matern", {"lengthscales": LS, "nu": ("c", nu)}, text.replace("s", "S"), {"S": f"np.sqrt({2 * nu} * {sumsq(True)})"}))
    bessel = "2 ** (1 - 0.7) / scipy.special.gamma(0.7) * (S) ** 0.7 * scipy.special.kv(0.7, S)"
    work.append(("Matern", {"lengthscales": LS, "nu": ("c", 0.7)}, bessel, {"S": f"np.sqrt(1.4 * {sumsq(True)})"}))
    for cname, params, formula, subs in work:
        cls = public_class(J.p, CF + cname)
        for ndim in (0, 1):
            shape = ("tup", (D,) if ndim else ())
            ax = ("tup", (("c", -1),) if ndim else ())
            for how in ("two arguments", "one argument", "KeOps"):
                name = "_keops_lazy_tensor" if how == "KeOps" else "_evaluate"
                f = cls.find(name)
                if f is None or (how == "KeOps" and (f.cls is None or f.cls.name == "CovarianceFunction")):
                    continue
                if how == "KeOps" and (ndim == 0 or params.get("nu") == ("c", 0.7)):
                    continue
                ev = J.eval(oracle=oracle)
                vn = ev.new_vn()
                st = ev.state(cls, vn, {**params, "input_shape": shape})
                args = {"x0": X0, "x1": V.NONE if how == "one argument" else X1}
                names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
                impl, _ = ev.method(cls, name, dict(zip(names, args.values())), vn=vn, state=st)
                a, b = X0, (X0 if how == "one argument" else X1)
                if how == "KeOps":
                    a, b = call("pykeops.numpy.Vi", X0), call("pykeops.numpy.Vj", X1)
                env = {**NP, "x0": a, "x1": b, "ls": LS, "AX": ax, "alpha": ("s", "alpha"), "lengthscale": ("s", "lengthscale"),
                       "constant": ("s", "constant"), "exponent": ("s", "exponent")}
                for k, s in subs.items():
                    env[k] = ev.text(s, f, cls, vn, env)
                ref = ev.text(formula.replace("S.", "S."), f, cls, vn, env)
                label = f"{cname}" + (f" with nu={params['nu'][1]}" if "nu" in params else "") + f", {'vector' if ndim else 'scalar'} inputs, {how}"
                if how == "one argument" and params.get("nu") == ("c", 0.7):
                    continue  # the limit of the Bessel form at zero
                J.decide(label, f, impl, [ref], Case({X0, X1, LS}, ndim), known={"f:" + b for b in OTHERS} | OTHERS)
    for ndim in (0, 1):
        white(J, ndim)


def oracle(c):
    """Facts about the inputs: KeOps is available, inputs of the lazy path are two-dimensional, parameters are valid."""
    if c[0] in ("s", "global") and "KEOPS" in str(c[1]).upper():
        return True
    if c[0] == "cmp" and c[1] == "<" and "shape" in repr(c[2]) and c[3] == ("c", 2):
        return False
    if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2] in (LS, X0, X1):
        return False
    if c[0] == "call" and c[1] in ("numpy.any",):
        return False
    return None


def white(J, ndim):
    cls = public_class(J.p, CF + "WhiteNoise")
    f = cls.find("_evaluate")
    shape = ("tup", (D,) if ndim else ())
    for one in (False, True):
        ev = J.eval(oracle=oracle)
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"input_shape": shape})
        impl, _ = ev.method(cls, "_evaluate", {"x0": X0, "x1": V.NONE if one else X1}, vn=vn, state=st)
        env = {**NP, "x0": X0, "x1": X1, "s": ("s", "sigma_sq")}
        text = "s" if one else "s * np.all(x0 == x1, axis=-1)" if ndim else "s * (x0 == x1)"
        J.decide(f"WhiteNoise, {'vector' if ndim else 'scalar'} inputs, {'one argument' if one else 'two arguments'}", f, impl,
                 [ev.text(text, f, cls, vn, env)], Case({X0, X1}, ndim))


def entry(v):
    """An entry of an array filled with one value is the value."""
    if v[0] == "idx" and v[1][0] == "call" and v[1][1] == "numpy.full" and len(v[1][2]) >= 2:
        return v[1][2][1]
    return v


def product_matern(J):
    cls = public_class(J.p, CF + "ProductMatern")
    f = cls.find("_evaluate")
    mat = public_class(J.p, CF + "Matern")
    for one, scalars in ((False, ()), (True, ()), (False, (LS,)), (False, (("s", "nus"),)), (False, (LS, ("s", "nus")))):
        def summ(fr, fn, args, kwargs):
            if fn[0] == "new" and fn[1].split(".")[-1] == "Matern":
                d = {k: entry(v) for k, v in fn[2]}
                a = list(args) + [v for k, v in kwargs if k == "x1"]
                return ("call", "Matern", (d.get("lengthscales", V.NONE), d.get("nu", V.NONE)) + tuple(a), ())
            if fn[0] == "class" or fn[0] == "ext":
                return None
            return None

        def orc(c):
            if c[0] == "isinstance":
                return c[1] not in scalars
            if c[0] == "call" and c[1] == "numpy.isscalar":
                return c[2][0] in scalars
            if c[0] == "cmp" and c[1] == "==" and "shape" in repr(c[2:]):
                return False
            return oracle(c)
        ev = J.eval(oracle=orc, summaries=summ)
        ev.records = {"Matern": {"lengthscales": "lengthscales", "nu": "nu"}}
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"input_shape": ("tup", (("c", 3),))})
        impl, _ = ev.method(cls, "_evaluate", {"x0": X0, "x1": V.NONE if one else X1}, vn=vn, state=st)
        env = {**NP, "x0": X0, "x1": X1, "l": LS, "n": ("s", "nus")}
        fr = V.Frame(vn, f, env, cls)
        refs = None
        for d in range(3):
            i = ev.text(f"x0[..., {d}]", f, cls, vn, env)
            j = V.NONE if one else ev.text(f"x1[..., {d}]", f, cls, vn, env)
            t = ("call", "Matern", (LS if LS in scalars else ("idx", LS, ("c", d)), ("s", "nus") if ("s", "nus") in scalars else ("idx", ("s", "nus"), ("c", d)), i, j), ())
            refs = t if refs is None else ("bin", "*", refs, t)
        J.decide(f"ProductMatern, {'one argument' if one else 'two arguments'}" + (", scalar " + " and ".join(x[1] for x in scalars) if scalars else ""), f, impl, [refs], Case({X0, X1}, 1))


# ------------------------------------------------------------------ sums, products, scalings
A1, A2, A3 = ("s", "k1"), ("s", "k2"), ("s", "k3")


def combinations(J):
    calls = lambda k, *a: ("call", k, a, ())
    for cname, op in (("SumCovarianceFunction", "+"), ("ProductCovarianceFunction", "*")):
        cls = find_class(J, CF, cname)
        if cls is None:
            J.res.undecided.append(f"{cname} not found")
            continue
        for n in (2, 3):
            ops = (A1, A2, A3)[:n]
            for name in ("_evaluate", "linop"):
                f = cls.methods.get(name)
                if f is None:
                    continue
                ev = J.eval(oracle=lambda c: kind(c, {}))
                vn = ev.new_vn()
                st = ev.state(cls, vn, {cls.find("__init__").node.args.vararg.arg: ("tup", ops)}) if cls.find("__init__").node.args.vararg else {}
                impl, _ = ev.method(cls, name, {"x0": X0, "x1": X1}, vn=vn, state=st)
                ref = None
                for k in ops:
                    t = calls(k, X0, X1) if name == "_evaluate" else ("m", k, "linop", (X0, X1), ())
                    ref = t if ref is None else ("bin", op, ref, t)
                J.decide(f"{cname} of {n}: {name.strip('_')}", f, impl, [ref], Case(sem=Calls()))
    cls = find_class(J, CF, "ScaledCovarianceFunction")
    if cls is not None:
        for name in ("_evaluate", "linop"):
            f = cls.methods.get(name)
            if f is None:
                continue
            ev = J.eval(oracle=lambda c: kind(c, {}))
            vn = ev.new_vn()
            st = ev.state(cls, vn, {"covfunc": A1, "scalar": ("s", "scalar")})
            impl, _ = ev.method(cls, name, {"x0": X0, "x1": X1}, vn=vn, state=st)
            t = calls(A1, X0, X1) if name == "_evaluate" else ("m", A1, "linop", (X0, X1), ())
            J.decide(f"scaled covariance function: {name.strip('_')}", f, impl, [("bin", "*", ("s", "scalar"), t)], Case(sem=Calls()))
    nested(J)
    operators(J)


B = tuple(("s", f"b{i}") for i in range(3))
NEST = {"SumCovarianceFunction": "+", "ProductCovarianceFunction": "*", "ScaledCovarianceFunction": "s"}


def kind(c, what):
    """isinstance of operands that are plain covariance functions, except for those listed in `what`."""
    if c[0] == "cmp" and c[1] in ("in", "not in") and V.finite(c[3]) is not None and c[2][0] == "s" and all(x[0] == "s" for x in V.finite(c[3])):
        return (c[2] in V.finite(c[3])) == (c[1] == "in")  # different symbols are different objects
    if c[0] != "isinstance":
        return None
    names = {w.strip("'\" ),(").split(".")[-1] for w in repr(c[2]).split(",")}
    return "CovarianceFunction" in names or what.get(c[1]) in names


def nested(J):
    """Combinations of combinations: the inner one may be opened, its value stays."""
    for inner, op1 in NEST.items():
        icls = find_class(J, CF, inner)
        for outer, op2, first in [(o, p, None) for o, p in NEST.items()] + [(o, p, B[0]) for o, p in NEST.items() if p != "s"]:
            # first: the outer combination has an operand that the inner one has, too
            cls = find_class(J, CF, outer)
            if cls is None or icls is None:
                continue
            sc = ("s", "inner scalar")

            def value(how, vals):
                if how == "s":
                    return ("bin", "*", sc, vals[0])
                r = None
                for v in vals:
                    r = v if r is None else ("bin", how, r, v)
                return r

            def orc(c):
                return kind(c, {A1: inner})

            class Open(Calls):
                def __call__(self, t, alg):
                    if t[0] == "call" and t[1] == A1:
                        a = t[2] + tuple(v for _, v in t[3])
                        return alg.nf(value(op1, [("call", b, a, ()) for b in B]))
                    return Calls.__call__(self, t, alg)
            ev = J.eval(oracle=orc)
            vn = ev.new_vn()
            init, f = cls.find("__init__"), cls.find("_evaluate")
            env = {init.self_name: SELF}
            for a in ("_summands", "_factors", "_covfunc", "_scalar"):
                if inner in ("SumCovarianceFunction", "ProductCovarianceFunction"):
                    if a in ("_summands", "_factors"):
                        env[("@", A1, a)] = ("tup", B)
                elif a in ("_covfunc", "_scalar"):
                    env[("@", A1, a)] = B[0] if a == "_covfunc" else sc
            if init.node.args.vararg:
                env[init.node.args.vararg.arg] = ("tup", (A1, A2) if first is None else (first, A1))
            else:
                names = [a.arg for a in init.node.args.args if a.arg != init.self_name]
                if set(names) != {"covfunc", "scalar"}:
                    continue
                env.update({"covfunc": A1, "scalar": ("s", "scalar")})
            keep = {k: v for k, v in env.items() if isinstance(k, tuple)}
            vn.body(init, env, cls)
            st = {k: v for k, v in (vn.last_env or {}).items() if isinstance(k, tuple) and k[1] == SELF}
            impl, _ = ev.method(cls, "_evaluate", {"x0": X0, "x1": X1}, vn=vn, state={**keep, **st})
            calls = [("call", b, (X0, X1), ()) for b in B]
            i = value(op1, calls)
            ref = ("bin", "*", ("s", "scalar"), i) if op2 == "s" else ("bin", op2, i, ("call", first or A2, (X0, X1), ()))
            J.decide(f"{outer} of a {inner}" + (" with a repeated operand" if first else ""), f, impl, [ref], Case(sem=Open()))


class Calls:
    """Calls of the same function with positional or keyword arguments are the same value."""

    def __call__(self, t, alg):
        if t[0] == "call" and not isinstance(t[1], str) and t[3]:
            return alg.nf(("call", t[1], t[2] + tuple(v for _, v in t[3]), ()))
        if t[0] == "m" and t[2] in ("linop", "matrix") and t[4]:
            return alg.nf(("m", t[1], t[2], t[3] + tuple(v for _, v in t[4]), ()))
        return None


def find_class(J, pre, name):
    c = public_class(J.p, pre + name)
    if c is not None:
        return c
    for m in J.p.modules.values():
        if m.name.startswith(pre.rstrip(".")) and name in m.classes:
            return m.classes[name]
    return None


def operators(J):
    """k1 op k2 and scalar * k build the matching combination of exactly the operands."""
    cls = public_class(J.p, CF + "CovarianceFunction")
    other, sc = ("s", "other"), ("s", "scalar")
    scen = [("__add__", other, "SumCovarianceFunction"), ("__radd__", other, "SumCovarianceFunction"),
            ("__mul__", other, "ProductCovarianceFunction"), ("__rmul__", other, "ProductCovarianceFunction"),
            ("__mul__", sc, "ScaledCovarianceFunction"), ("__rmul__", sc, "ScaledCovarianceFunction")]
    for name, arg, want in scen:
        f = cls.find(name)
        if f is None:
            continue

        def orc(c, arg=arg):
            if c[0] == "isinstance":
                return c[1] != sc
            if c[0] == "cmp" and c[1] == "==" and "ndim" in repr(c):
                return True
            return None
        ev = J.eval(oracle=orc)
        ev.types = {SELF: cls, other: cls}
        vn = ev.new_vn()
        names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
        impl = V.strip_raise(vn.body(f, {f.self_name: SELF, names[0]: arg}, cls))
        J.res.count("obligations")
        if impl is None or impl[0] != "new":
            J.res.undecided.append(f"{f.qual}: not a construction")
            continue
        got = impl[1].split(".")[-1]
        known = {"SumCovarianceFunction", "ProductCovarianceFunction", "ScaledCovarianceFunction"}
        if got not in known:
            J.res.undecided.append(f"{f.qual}: builds {got}")
            continue
        if got != want:
            J.res.add("formula", f"{f.qual}: {want}", f"{f.qual} builds a {got} instead of a {want}", **loc(f))
            continue
        miss = [x for x in (SELF, arg) if not mentions(impl[2], {x})]
        if miss:
            J.res.add("formula", f"{f.qual}: {want}", f"{f.qual} loses an operand ({miss[0][1]})", **loc(f))
        else:
            J.res.count("obligations decided")


# ------------------------------------------------------------------ matrices and operators of kernels
class Axes:
    """Which label each axis of an array term carries."""

    def __init__(self, base, labels):
        self.base, self.labels = base, labels

    def const(self, t):
        if t[0] == "c" and isinstance(t[1], int):
            return t[1]
        if t[0] == "un" and t[1] == "-":
            v = self.const(t[2])
            return None if v is None else -v
        if t[0] == "bin" and t[1] in "+-":
            a, b = self.const(t[2]), self.const(t[3])
            return None if a is None or b is None else a + b if t[1] == "+" else a - b
        return None

    def seq(self, t):
        if t[0] in ("tup", "list"):
            v = [self.const(x) for x in t[1]]
            return None if None in v else v
        v = self.const(t)
        return None if v is None else [v]

    def of(self, t):
        if t == getattr(self, "base", None):
            return list(self.labels)
        name, args, kw = None, (), {}
        if t[0] == "call" and isinstance(t[1], str) and t[1].startswith("numpy."):
            name, args, kw = t[1][6:], t[2], dict(t[3])
        elif t[0] == "m":
            name, args, kw = t[2], (t[1],) + t[3], dict(t[4])
        elif t[0] == "T":
            l = self.of(t[1])
            return None if l is None else l[::-1]
        if name is None or not args:
            return None
        l = self.of(args[0])
        if l is None:
            return None
        n = len(l)
        if name == "moveaxis":
            s = self.seq(args[1] if len(args) > 1 else kw.get("source", V.NONE))
            d = self.seq(args[2] if len(args) > 2 else kw.get("destination", V.NONE))
            if s is None or d is None or len(s) != len(d):
                return None
            s, d = [x % n for x in s], [x % n for x in d]
            order = [i for i in range(n) if i not in s]
            for dest, src in sorted(zip(d, s)):
                order.insert(dest, src)
            return [l[i] for i in order]
        if name == "swapaxes" and len(args) == 3:
            a, b = self.const(args[1]), self.const(args[2])
            if a is None or b is None:
                return None
            l[a], l[b] = l[b], l[a]
            return l
        if name == "transpose":
            if len(args) == 1 and not kw:
                return l[::-1]
            ax = self.seq(args[1]) if len(args) == 2 else self.seq(("tup", args[1:])) if len(args) > 2 else self.seq(kw.get("axes", V.NONE))
            return None if ax is None or len(ax) != n else [l[i] for i in ax]
        if name == "rollaxis" and 2 <= len(args) <= 3:
            a = self.const(args[1])
            s = self.const(args[2]) if len(args) == 3 else 0
            if a is None or s is None:
                return None
            a %= n
            s = s % (n + 1) if s >= 0 else s + n
            x = l.pop(a)
            l.insert(s - 1 if a < s else s, x)
            return l
        return None


class Blocks(Axes):
    """Axes of a block matrix: reshaping it to four axes separates blocks and entries, reshaping it back joins them."""

    def __init__(self, bases, labels):
        self.bases, self.labels = bases, labels

    def of(self, t):
        if t in self.bases:
            return list(self.labels)
        inner = None
        if t[0] == "m" and t[2] == "reshape":
            inner, order = t[1], dict(t[4]).get("order", ("c", "C"))
        elif t[0] == "call" and t[1] == "numpy.reshape":
            inner, order = t[2][0], dict(t[3]).get("order", ("c", "C"))
        if inner is not None:
            return self.of(inner) if order == ("c", "C") else None
        return super().of(t) if t[0] in ("m", "call") else None


def matrices(J):
    cls = public_class(J.p, CF + "CovarianceFunction")
    f = cls.find("_evaluate_matrix") or cls.find("matrix")
    K = ("s", "K")
    for o0, o1 in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)):
        for given in (True, False):
            called = []

            def summ(fr, fn, args, kwargs):
                if fn == SELF or (fn[0] in ("at", "bound") and fn[1] == SELF and fn[2].split(".")[-1] in ("__call__", "_evaluate")):
                    called.append((args + tuple(v for _, v in kwargs)))
                    return K
                return None

            def orc(c):
                if c[0] == "cmp" and c[1] == "is" and c[2] == X1 and c[3] == V.NONE:
                    return not given
                return None
            sh = lambda p, n: ("tup", tuple(("s", f"{p}{i}") for i in range(n)))
            ev = J.eval(oracle=orc, summaries=summ)
            vn = ev.new_vn()
            st = ev.state(cls, vn, {"input_shape": V.NONE, "input_shape_0": sh("a", 1), "input_shape_1": sh("b", 1),
                                    "output_shape_0": sh("p", o0), "output_shape_1": sh("q", o1)})
            env = {**st, f.self_name: SELF}
            names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
            env.update(zip(names, (X0, X1 if given else V.NONE)))
            impl = V.strip_raise(vn.body(f, env, cls))
            what = f"kernel matrix with outputs of dimension {o0} and {o1}" + ("" if given else ", one set of points")
            J.res.count("obligations", 2)
            if len(set(called)) != 1 or len(called[0]) < 2:
                J.res.undecided.append(f"{what}: evaluation not found")
                continue
            a, b = called[0][:2]
            r, c = spread(a), spread(b)
            other = X1 if given else X0
            if r is None or c is None:
                J.res.undecided.append(f"{what}: arguments of the evaluation")
            elif r != (X0, 0) or c != (other, 1):
                J.res.add("formula", f"{f.qual}: {what}: points",
                          f"{f.qual} must evaluate the kernel with the first points along the rows and the second along the columns", **loc(f))
            else:
                J.res.count("obligations decided")
            lay = Axes(K, ["row", "col"] + [f"p{i}" for i in range(o0)] + [f"q{i}" for i in range(o1)])
            order = None
            if impl is not None and impl[0] == "m" and impl[2] == "reshape":
                order = joined(lay.of(impl[1]), dict(impl[4]).get("order", ("c", "C")), o0)
            elif impl is not None and impl[0] == "call" and impl[1] == "numpy.reshape":
                order = joined(lay.of(impl[2][0]), dict(impl[3]).get("order", ("c", "C")), o0)
            elif impl is not None and o0 == o1 == 0:
                order = lay.of(impl)
            want = [f"p{i}" for i in range(o0)] + ["row"] + [f"q{i}" for i in range(o1)] + ["col"]
            if order is None:
                J.res.undecided.append(f"{what}: layout")
            elif order != want:
                J.res.add("formula", f"{f.qual}: {what}: layout", f"{f.qual} orders the matrix by {order} instead of {want}", **loc(f))
            else:
                J.res.count("obligations decided")


def joined(labels, order, o0):
    """Order in which a reshape to a matrix runs through the axes (rows: the first o0 + 1 axes)."""
    if labels is None or order == ("c", "C"):
        return labels
    if order == ("c", "F"):
        return labels[: o0 + 1][::-1] + labels[o0 + 1:][::-1]
    return None


def spread(t):
    """(points, axis they run along) of x[:, None, ...] / x[None, :, ...] / expand_dims."""
    if t[0] == "idx" and t[2][0] == "tup":
        kinds = []
        for x in t[2][1]:
            if x == V.NONE:
                kinds.append("n")
            elif x[0] == "slice" and all(y == V.NONE for y in x[1:]):
                kinds.append(":")
            elif x == ("c", Ellipsis) or "Ellipsis" in repr(x):
                kinds.append("...")
            else:
                return None
        k = [x for x in kinds if x != "..."]
        if k in ([":", "n"],):
            return t[1], 0
        if k in (["n", ":"], ["n"]):
            return t[1], 1
    if t[0] == "call" and t[1] == "numpy.expand_dims":
        ax = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("axis")
        if ax == ("c", 1):
            return t[2][0], 0
        if ax == ("c", 0):
            return t[2][0], 1
    return None


def kernel_operator(J):
    """The operator form holds the matrix of the same points; its product uses the dense matrix or the lazy tensor of them."""
    cls = find_class(J, CF, "CovarianceLinearOperator")
    if cls is None:
        J.res.undecided.append("operator of a covariance function not found")
        return
    e, lazy = ("s", "evaluate_dense_matrix"), ("s", "keops_lazy_tensor")
    dense = ("call", e, (X0, X1), ())

    class S:
        def __call__(self, t, alg):
            if t == lazy:
                return alg.nf(dense)
            if t[0] == "m" and t[2] == "todense" and t[1] == SELF:
                return alg.nf(dense)
            if t[0] == "pcall" and str(t[1]).split(".")[-1] == "todense" and t[2] and t[2][0] == SELF:
                return alg.nf(dense)
            return None
    for name in ("_todense", "_matmul", "_transpose"):
        f = cls.methods.get(name)
        if f is None:
            continue
        ev = J.eval(oracle=lambda c: False if c == ("cmp", "is", lazy, V.NONE) else True if c[0] in ("s", "global") and "KEOPS" in str(c[1]).upper() else None, opaque={"todense"})
        vn = ev.new_vn()
        st = ev.state(cls, vn, {})
        x = ("s", "x")
        impl, _ = ev.method(cls, name, {"x": x}, vn=vn, state=st)
        case = OpCase(S())
        if name == "_todense":
            J.decide("operator of a covariance function: dense form", f, impl, [dense], case)
        elif name == "_matmul":
            J.decide("operator of a covariance function: product", f, impl, [("bin", "@", dense, x)], case)
        else:
            impl = V.strip_raise(impl)
            if impl is None or impl[0] != "new":
                J.res.undecided.append("operator of a covariance function: transpose is not a construction")
                continue
            d = dict(impl[2])
            fr = V.Frame(vn, f, {**st, f.self_name: SELF}, cls)
            inner = fr.call(d["evaluate_dense_matrix"], (d["x0"], d["x1"]), ())
            J.decide("operator of a covariance function: transpose", f, inner, [("T", dense)], case)
            k = d.get("keops_lazy_tensor", V.NONE)
            if k != V.NONE:
                J.decide("operator of a covariance function: lazy transpose", f, k, [("T", dense)], case)
    base = public_class(J.p, CF + "CovarianceFunction")
    f = base.find("linop")
    for name in ("linop", "matrix"):
        f = base.find(name)
        def orc(c):
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2][0] == "pcall":
                return False
            return oracle(c)
        ev = J.eval(oracle=orc, opaque={"_preprocess_linop_input", "_evaluate_matrix", "_evaluate_linop"})
        vn = ev.new_vn()
        for given in (True, False):
            impl, _ = ev.method(base, name, {"x0": X0, "x1": X1 if given else V.NONE}, vn=vn)
            impl = V.strip_raise(impl)
            J.res.count("obligations")
            if impl is None or impl[0] != "pcall" or len(impl[3]) != 2:
                J.res.undecided.append(f"{f.qual}: not a call of the evaluation")
                continue
            a = [v for _, v in impl[3]]
            num = []
            for v in a:
                if v[0] == "pcall" and str(v[1]).split(".")[-1] == "_preprocess_linop_input":
                    d = dict(v[3])
                    num.append((d.get("x"), d.get("argnum")))
                else:
                    num.append((v, None))
            want = [(X0, ("c", 0)), (X1, ("c", 1))] if given else [(X0, ("c", 0)), (V.NONE, None)]
            if num == want or (not given and num == [(X0, ("c", 0)), (X0, ("c", 0))]):
                J.res.count("obligations decided")
            elif {n[0] for n in num} <= {X0, X1, V.NONE} and all(n[1] is None or n[1][0] == "c" for n in num):
                J.res.add("formula", f"{f.qual}: points", f"{f.qual} prepares {show(num)} instead of {show(want)}", **loc(f))
            else:
                J.res.undecided.append(f"{f.qual}: points")
    f = base.find("_preprocess_linop_input")
    for num in (0, 1) if f is not None else ():
        ev = J.eval()
        vn = ev.new_vn()
        sh = [("tup", (("s", "a"),)), ("tup", (("s", "b"), ("s", "c")))]
        st = ev.state(base, vn, {"input_shape": V.NONE, "input_shape_0": sh[0], "input_shape_1": sh[1]})
        names = [a.arg for a in f.node.args.args if a.arg != f.self_name]
        J.res.count("obligations")
        if len(names) != 2:
            J.res.undecided.append(f"{f.qual}: arguments")
            continue
        raw = vn.body(f, {**st, f.self_name: SELF, names[0]: ("s", "x"), names[1]: ("c", num)}, base)
        impl = V.strip_raise(raw)
        want = ("tup", (("un", "-", ("c", 1)),) + sh[num][1])
        what = f"the points of argument {num} are listed in the shape of argument {num}"
        if impl is None and raw is not None:
            J.res.add("formula", f"{f.qual}: argument {num}", f"{f.qual} raises for inputs of differing shapes; {what}", **loc(f))
            continue
        got = None
        if impl is not None and impl[0] == "m" and impl[2] == "reshape" and len(impl[3]) == 1:
            got = impl[3][0]
        elif impl is not None and impl[0] == "call" and impl[1] == "numpy.reshape" and len(impl[2]) == 2:
            got = impl[2][1]
        if got is not None and got[0] == "tup":
            got = ("tup", tuple(("un", "-", ("c", 1)) if const(x) == -1 else x for x in got[1]))
        if got is not None and mentions(got, {("raise",)}):
            J.res.add("formula", f"{f.qual}: argument {num}", f"{f.qual} raises for inputs of differing shapes; {what}", **loc(f))
        elif got == want:
            J.res.count("obligations decided")
        elif got in [("tup", want[1][:1] + x[1]) for x in sh]:
            J.res.add("formula", f"{f.qual}: argument {num}", f"{f.qual} must hold: {what}", **loc(f))
        else:
            J.res.undecided.append(f"{f.qual}: argument {num} {got}")
    f = base.find("_evaluate_linop")
    if f is not None:
        ev = J.eval(opaque={"_evaluate_matrix", "_keops_lazy_tensor"})
        vn = ev.new_vn()
        impl = None
        for given in (True, False):
            impl, _ = ev.method(base, "_evaluate_linop", {"x0": X0, "x1": X1 if given else V.NONE}, vn=vn)
            impl = V.strip_raise(impl)
            J.res.count("obligations")
            if impl is None or impl[0] != "new" or "x0" not in dict(impl[2]):
                J.res.undecided.append(f"{f.qual}: not a construction")
                continue
            d = dict(impl[2])
            bad = [k for k, w in (("x0", X0), ("x1", X1 if given else V.NONE)) if d.get(k, V.NONE) != w and d.get(k) in (X0, X1, V.NONE)]
            k = d.get("keops_lazy_tensor", V.NONE)
            for lz in lazy_calls(k):
                w = [X0, X1 if given else V.NONE]
                if lz != w and not (not given and lz == [X0, X0]) and set(lz) <= {X0, X1, V.NONE}:
                    bad.append("lazy tensor")
            if bad and not (not given and bad == ["x1"] and d.get("x1") == X0):
                J.res.add("formula", f"{f.qual}: points", f"{f.qual} hands the wrong points to the operator ({', '.join(bad)})", **loc(f))
            else:
                J.res.count("obligations decided")


def lazy_calls(t):
    if not isinstance(t, tuple):
        return
    if t and t[0] == "pcall" and t[1] == "_keops_lazy_tensor":
        d = dict(t[3])
        yield [d.get("x0"), d.get("x1", V.NONE)]
        return
    for x in t:
        yield from lazy_calls(x)


def show(num):
    return "(" + ", ".join(f"{a[1] if a and len(a) > 1 else a} as argument {b[1] if b else '-'}" for a, b in num) + ")"


class OpCase(Case):
    def __init__(self, sem):
        self.sem = sem

    def factory(self, asg):
        return A.Alg(scalar=lambda a: False, symmetric=lambda a: False, sem=self.sem)


# ------------------------------------------------------------------ functions and processes
def functions(J):
    x = ("s", "x")
    base = public_class(J.p, FN + "Function")
    f1, f2, f3 = ("s", "f1"), ("s", "f2"), ("s", "f3")
    val = lambda f: ("call", f, (x,), ())
    cls = find_class(J, FN, "SumFunction")
    if cls is not None:
        for n in (2, 3):
            ops = (f1, f2, f3)[:n]
            f = cls.find("_evaluate")
            ev = J.eval(oracle=lambda c: True if c[0] == "isinstance" else None)
            vn = ev.new_vn()
            st = ev.state(cls, vn, {"summands": ("tup", ops)})
            impl, _ = ev.method(cls, "_evaluate", {"x": x}, vn=vn, state=st)
            ref = None
            for k in ops:
                ref = val(k) if ref is None else ("bin", "+", ref, val(k))
            J.decide(f"sum of {n} functions", f, impl, [ref], Case(sem=Calls()))
    cls = find_class(J, FN, "ScaledFunction")
    if cls is not None:
        f = cls.find("_evaluate")
        ev = J.eval()
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"function": f1, "scalar": ("s", "scalar")})
        impl, _ = ev.method(cls, "_evaluate", {"x": x}, vn=vn, state=st)
        J.decide("scaled function", f, impl, [("bin", "*", ("s", "scalar"), val(f1))], Case(sem=Calls()))
        for name in ("__mul__", "__rmul__"):
            for c in (cls, base):
                f = c.methods.get(name)
                if f is None:
                    continue
                ev = J.eval(oracle=lambda q: True if q[0] == "cmp" and "ndim" in repr(q) else None)
                vn = ev.new_vn()
                st = ev.state(c, vn, {"function": f1, "scalar": ("s", "scalar")}) if c is cls else {}
                arg = [a.arg for a in f.node.args.args if a.arg != f.self_name][0]
                impl = V.strip_raise(vn.body(f, {**st, f.self_name: SELF, arg: ("s", "r")}, c))
                if impl is None or impl[0] != "new":
                    J.res.count("obligations")
                    J.res.undecided.append(f"{f.qual}: not a construction")
                    continue
                d = dict(impl[2])
                if c is cls:
                    J.decide(f"{name} of a scaled function: scalar", f, d.get("scalar"), [("bin", "*", ("s", "scalar"), ("s", "r"))], Case())
                    J.decide(f"{name} of a scaled function: function", f, d.get("function"), [f1], Case())
                else:
                    J.decide(f"{name} of a function: scalar", f, d.get("scalar"), [("s", "r")], Case())
                    J.decide(f"{name} of a function: function", f, d.get("function"), [SELF], Case())
    cls = public_class(J.p, FN + "Zero")
    f = cls.find("_evaluate")
    ev = J.eval()
    vn = ev.new_vn()
    impl, _ = ev.method(cls, "_evaluate", {"x": x}, vn=vn)
    J.decide("zero function", f, impl, [("c", 0)], Case({x}, 1))
    cls = public_class(J.p, FN + "LambdaFunction")
    f = cls.find("_evaluate")
    ev = J.eval()
    vn = ev.new_vn()
    impl, _ = ev.method(cls, "_evaluate", {"x": x}, vn=vn)
    J.decide("user-defined function", f, impl, [("call", ("s", "fn"), (x,), ())], Case(sem=Calls()))
    algebra(J, base)


def algebra(J, base):
    """Registered rules of the algebra of functions, as linear combinations of their operands."""
    cl = {n: find_class(J, FN, n) for n in ("Function", "SumFunction", "ScaledFunction", "Zero")}
    mods = {c.module for c in cl.values() if c is not None} | {m for n, m in J.p.modules.items() if n.startswith("probnum.functions")}
    for mod in mods:
        for fn in [f for f in J.p.func_of_node.values() if f.module is mod and not isinstance(f.node, ast.Lambda)]:
            for dec in fn.node.decorator_list:
                d = dec.func if isinstance(dec, ast.Call) else dec
                if not (isinstance(d, ast.Attribute) and d.attr == "register" and isinstance(d.value, ast.Attribute)
                        and d.value.attr in ("__add__", "__sub__") and isinstance(d.value.value, ast.Name)):
                    continue
                left = d.value.value.id
                args = [a for a in fn.node.args.args]
                if len(args) != 2 or args[1].annotation is None:
                    continue
                right = ast.unparse(args[1].annotation).strip("'\"").split(".")[-1]
                rule(J, fn, d.value.attr, left, right, [a.arg for a in args], cl)


def rule(J, fn, op, left, right, names, cl):
    if left not in cl or right not in cl:
        return
    J.res.count("obligations")
    L, R = ("s", "L"), ("s", "R")
    parts = {}
    for v, k in ((L, left), (R, right)):
        if k == "SumFunction":
            parts[v] = (("s", v[1] + "1"), ("s", v[1] + "2"))

    def summ(fr, f, args, kwargs):
        return None
    ev = J.eval(summaries=summ)
    vn = ev.new_vn()
    env = dict(zip(names, (L, R)))
    for v, ps in parts.items():
        for a in ("summands", "_summands"):
            env[("a", v, a)] = ("tup", ps)
    t = V.strip_raise(vn.body(fn, env, None))

    def lin(t, s=1):
        if t in (L, R):
            k = left if t == L else right
            if k == "Zero":
                return {}
            if t in parts:
                return {p: s for p in parts[t]}
            return {t: s}
        if any(t in ps for ps in parts.values()):
            return {t: s}
        if t[0] == "idx" and t[1][0] in ("at", "tup") and t[2][0] == "c" and isinstance(t[2][1], int):
            ps = expand(("star", t[1]))
            if len(ps) > 1 and t[2][1] < len(ps):
                return {ps[t[2][1]]: s}
        if t[0] == "un" and t[1] == "-":
            return lin(t[2], -s)
        if t[0] == "bin" and t[1] == "*" and t[2] == ("c", -1.0):
            return lin(t[3], -s)
        if t[0] == "bin" and t[1] in "+-":
            return merge(lin(t[2], s), lin(t[3], s if t[1] == "+" else -s))
        if t[0] == "new" and t[1].split(".")[-1] == "SumFunction":
            r = {}
            for x in dict(t[2]).get("summands", ("tup", (None,)))[1]:
                if x is None:
                    return None
                q = expand(x)
                for y in q:
                    r = merge(r, lin(y, s))
            return r
        return None

    def expand(x):
        if x[0] == "star":
            x = x[1]
            if x[0] in ("tup", "list"):
                return list(x[1])
            if x[0] == "at" and x[2] in ("summands", "_summands") and x[1] in parts:
                return list(parts[x[1]])
        return [x]

    def merge(a, b):
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + v
        return r
    got = lin(t) if t is not None else None
    want = merge(lin(L), lin(R, -1 if op == "__sub__" else 1))
    if got is None:
        J.res.undecided.append(f"{fn.qual}: {left} {op} {right}")
    elif got != want:
        J.res.add("formula", f"{fn.qual}: {left} {op} {right}", f"{left}{op}({right}) is {pr(got)}, must be {pr(want)}", **loc(fn))
    else:
        J.res.count("obligations decided")


def pr(d):
    return " ".join(f"{'+' if v > 0 else '-'}{k[1]}" for k, v in sorted(d.items())) or "0"


def processes(J):
    cls = public_class(J.p, "probnum.randprocs.GaussianProcess")
    f = cls.find("__call__")
    ar = ("s", "args")
    for out in (0, 1):
        kind = "vector" if out else "scalar"
        o = ("s", "o")
        ev = J.eval()
        ev.records = {"Normal": {"mean": "mean", "cov": "cov"}}
        vn = ev.new_vn()
        st = ev.state(public_class(J.p, "probnum.randprocs.RandomProcess"), vn, {"output_shape": ("tup", (o,) * out)})
        st = {**ev.state(cls, vn, {}), **st}
        impl, _ = ev.method(cls, "__call__", {"args": ar}, vn=vn, state=st)
        impl = V.strip_raise(impl)
        J.res.count("obligations")
        if impl is None or impl[0] != "new":
            J.res.undecided.append("Gaussian process: not a normal random variable")
            continue
        J.res.count("obligations decided")
        d = dict(impl[2])
        J.decide(f"Gaussian process with {kind} output: mean at points", f, d.get("mean"), [("call", ("s", "mean"), (ar,), ())], Case(sem=Calls()))
        mats = [("m", ("s", "cov"), "matrix", (ar,), ()), ("m", ("s", "cov"), "matrix", (ar, ar), ())]
        if not out:
            J.decide("Gaussian process with scalar output: covariance at points", f, d.get("cov"), mats, Case(sem=Calls()))
            continue
        # entries of the mean are ordered by point, then by output; the kernel matrix by output, then by point
        J.res.count("obligations")
        lay = Blocks(mats, ["output0", "point0", "output1", "point1"])
        got = lay.of(d["cov"]) if d.get("cov") is not None else None
        want = ["point0", "output0", "point1", "output1"]
        if got is None:
            J.res.undecided.append("Gaussian process with vector output: order of the covariance")
        elif got != want:
            J.res.add("formula", f"{f.qual}: order of the covariance",
                      f"rows and columns of the covariance are ordered by {got[:2]} and {got[2:]}, the mean by point, then output", **loc(f))
        else:
            J.res.count("obligations decided")
    for out in (0, 1):
        for name in ("var", "std"):
            f = cls.find(name)
            ev = J.eval()
            vn = ev.new_vn()
            st = ev.state(public_class(J.p, "probnum.randprocs.RandomProcess"), vn, {"output_shape": ("tup", (("s", "o"),) * out)})
            impl, _ = ev.method(cls, name, {"args": ar}, vn=vn, state=st)
            k = ("call", ("s", "cov"), (ar, V.NONE), ())
            diag = [("call", "numpy.diagonal", (k,), (("axis1", ("c", a)), ("axis2", ("c", b)))) for a, b in ((-2, -1), (-1, -2))] if out else [k]
            refs = diag if name == "var" else [call("numpy.sqrt", d) for d in diag]
            J.decide(f"random process with {'vector' if out else 'scalar'} output: {name}", f, impl, refs, Case(sem=Calls()))
    f = cls.find("_sample_at_input")
    if f is not None:
        ev = J.eval(opaque={"__call__"}, summaries=lambda fr, fn, a, k: ("s", "marginal") if fn == SELF and a[:1] == (ar,) else None)
        vn = ev.new_vn()
        impl, _ = ev.method(cls, "_sample_at_input", {"args": ar}, vn=vn)
        impl = V.strip_raise(impl)
        J.decide("random process: samples at points", f, impl, [("m", ("s", "marginal"), "sample", (("s", "rng"),), (("size", ("s", "size")),)),
                                                                ("m", ("s", "marginal"), "sample", (("s", "rng"), ("s", "size")), ()),
                                                                ("m", ("s", "marginal"), "sample", (), (("rng", ("s", "rng")), ("size", ("s", "size"))))], Case(sem=Calls()))


# ------------------------------------------------------------------ points of whole-number type
def dtypes(J):
    """Values computed in place, or allocated, in the number type of the points lose the parameters' fractional part (or raise)."""
    base = public_class(J.p, CF + "CovarianceFunction")
    classes = [base] + [c for c in base.all_subclasses()]
    mods = {c.module.name: c.module for c in classes}
    for m in mods.values():
        for f in [f for f in J.p.func_of_node.values() if f.module is m and not isinstance(f.node, ast.Lambda)]:
            points = {a.arg for a in f.node.args.args} & {"x0", "x1"}
            if not points:
                continue
            J.res.count("obligations")
            J.res.count("obligations decided")
            typed = set(points)  # names with the number type of the points, in order of the text
            for st in ordered(f.node.body):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    nm = st.targets[0].id
                    if same_type(st.value, typed):
                        typed.add(nm)
                    else:
                        typed.discard(nm)
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id in typed - points:
                    if isinstance(st.op, ast.Div) or (not same_type(st.value, typed) and reads_parameter(st.value, f)):
                        J.res.add("whole-number points", f"{f.qual}: {ast.unparse(st)}",
                                  f"`{ast.unparse(st)}` stores a real value in an array of the number type of the points", **loc(f))
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "full_like" and c.args and same_type(c.args[0], points):
                    kw = {k.arg: k.value for k in c.keywords}
                    v = c.args[1] if len(c.args) > 1 else kw.get("fill_value")
                    if v is not None and len(c.args) < 3 and "dtype" not in kw and None not in kw and reads_parameter(v, f):
                        J.res.add("whole-number points", f"{f.qual}: {ast.unparse(c.func)}",
                                  f"`{ast.unparse(c)}` stores a parameter in an array of the number type of the points", **loc(f))


def ordered(body):
    for st in body:
        yield st
        for a in ("body", "orelse", "finalbody"):
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                yield from ordered(getattr(st, a, []))


def same_type(e, names):
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and same_type(e.left, names) and same_type(e.right, names)
    if isinstance(e, ast.UnaryOp):
        return same_type(e.operand, names)
    return isinstance(e, ast.Subscript) and same_type(e.value, names)


def reads_parameter(e, f):
    """Reads an attribute of the kernel or another argument that carries the parameters."""
    params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs} - {"x0", "x1", f.self_name}
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.self_name and "ndim" not in n.attr and "shape" not in n.attr:
            return True
        if isinstance(n, ast.Name) and n.id in params and "ndim" not in n.id and "shape" not in n.id:
            return True
    return False


def check(ctx, res):
    J = Job(ctx, res)
    for u in (kernels, product_matern, combinations, matrices, kernel_operator, functions, processes, dtypes):
        try:
            u(J)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, A.TooBig, RecursionError, V.Budget) as e:
            import os
            if os.environ.get("PNSA_TRACE"):
                raise
            res.undecided.append(f"unit {u.__name__}: {type(e).__name__} {e}")
