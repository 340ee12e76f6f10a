"""C14: arithmetic, transformations, densities and samples of random variables agree with their distributions."""
from __future__ import annotations

import ast

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..gauss import RECORDS, Gauss, normals
from ..oblig import SELF, Eval, compare

LEVEL = "proof-of-formula"
EXPLANATION = (
    "Every arithmetic rule registered for a pair of distributions, every unary operation and transformation, every density, "
    "moment and Cholesky routine selected by the constructors is evaluated to a term by value numbering and compared with "
    "the closed form for that distribution; operator methods are checked to keep the order of their operands."
)
ASSUMPTIONS = [
    "Operands of a binary operation are independent.",
    "The damping added before a Cholesky factorisation is the configured one; floating-point error is not modelled.",
]
NP = {"np": ("ext", "numpy"), "scipy": ("ext", "scipy")}
RV = "probnum.randvars."
IDENT_ARG = {"_ensure_numpy_float": 1, "as_numpy_scalar": 0, "_as_value_type": 0, "_arg_todense": 0, "asarray": 0,
             "aslinop": 0, "float_": 0, "float64": 0, "_asrandvar": 0, "asrandvar": 0}


def at(x, a):
    return ("at", x, a)


def ident(fr, fn, args, kwargs):
    """Conversions of representation only."""
    if fn[0] in ("at", "bound"):
        nm = fn[2].split(".")[-1]
        if nm in ("astype", "todense") and fn[0] == "at":
            return fn[1]
        if nm == "copy" and not args and not kwargs and fn[0] == "at":
            return fn[1]
    elif fn[0] in ("pfunc", "ext"):
        nm = fn[1].split(".")[-1]
        if fn[0] == "ext" and fn[1].startswith("operator.") and nm in OPS and len(args) == 2 and not kwargs:
            return V.mkbin(OPS[nm], args[0], args[1])
        if fn[0] == "ext" and fn[1].startswith("numpy.") and nm in UFUNCS and len(args) == 2 and not kwargs:
            return V.mkbin(UFUNCS[nm], args[0], args[1])
    else:
        return None
    i = IDENT_ARG.get(nm)
    if i is None:
        return None
    if len(args) > i:
        return args[i]
    kw = dict(kwargs)
    for k in ("value", "x", "obj", "a", "A"):
        if k in kw:
            return kw[k]
    return None


class Case:
    def __init__(self, scalars=(), symmetric=(), oracle=None, subst=None, extra=None, consistent=None):
        self.scalars, self.sym, self.subst, self.extra = set(scalars), set(symmetric), subst or {}, extra
        self.oracle = oracle
        self._consistent = consistent

    def scalar(self, a):
        return a in self.scalars or a[0] == "S"

    def symmetric(self, a):
        return a in self.sym or (a[0] == "at" and a[2] in ("cov", "dense_cov"))

    def factory(self, asg):
        return A.Alg(scalar=self.scalar, symmetric=self.symmetric, sem=Gauss(subst=self.subst, extra=self.extra))

    def consistent(self, asg):
        return self._consistent(asg) if self._consistent else True


class Job:
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res
        self.normal = public_class(self.p, RV + "Normal")
        self.constant = public_class(self.p, RV + "Constant")
        self.rv = public_class(self.p, RV + "RandomVariable")
        self.categorical = public_class(self.p, RV + "Categorical")

    def eval(self, oracle=None, types=None, opaque=(), summaries=ident):
        ev = Eval(self.p, records=RECORDS, types=types or {},
                  opaque={"cholesky_update", "mean", "cov", "cov_cholesky", "std", "var", "dense_mean", "dense_cov", "support",
                          "probabilities", "sample", "shape", "size", "ndim", "dtype", "cov_cholesky_is_precomputed"} | set(opaque))
        ev.summaries = summaries
        ev.oracle = oracle
        return ev

    def decide(self, what, f, impl, refs, case, known=(), max_conds=8):
        res = self.res
        res.count("obligations")
        impl = V.strip_raise(impl) if impl is not None else None
        if impl is None:
            res.undecided.append(f"{what}: no value")
            return None
        try:
            v = compare(impl, refs, case.factory, max_conds=max_conds, consistent=case.consistent, known_heads=set(known))
        except (A.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
            res.undecided.append(f"{what}: {type(e).__name__}")
            return None
        res.count("branch assignments", v.leaves)
        if v.kind == "equal":
            res.count("obligations decided")
        elif v.kind == "differs":
            res.add("formula", f"{f.qual}: {what}", f"{what} {v.detail}", **loc(f))
        else:
            res.undecided.append(f"{f.qual} {what}: {v.detail}")
        return v


# ------------------------------------------------------------------ operators and the registry
OPS = {"add": "+", "sub": "-", "mul": "*", "matmul": "@", "truediv": "/", "floordiv": "//", "mod": "%", "divmod": "divmod", "pow": "**"}
UFUNCS = {"add": "+", "subtract": "-", "multiply": "*", "matmul": "@", "true_divide": "/", "divide": "/", "floor_divide": "//",
          "mod": "%", "remainder": "%", "power": "**"}
# numpy and standard-library functions of two arguments that are none of the operators on every operand
OTHER_BINARY = {"numpy.fmod", "math.fmod", "numpy.dot", "numpy.outer", "numpy.inner", "numpy.vdot", "numpy.kron", "numpy.float_power",
                "numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin", "numpy.hypot", "numpy.arctan2", "numpy.logaddexp",
                "numpy.ldexp", "numpy.copysign", "numpy.cross", "math.pow", "builtins.min", "builtins.max"}


def operators(J):
    """a op b and its reflected form hand the operands to the arithmetic in the written order."""
    for cls in [J.rv] + sorted(J.rv.all_subclasses(), key=lambda c: c.name):
        for op in OPS:
            for refl in ("", "r"):
                f = cls.methods.get(f"__{refl}{op}__")
                if f is None:
                    continue
                J.res.count("operator methods")
                got = []

                def summ(fr, fn, args, kwargs):
                    if fn[0] == "pfunc":
                        got.append((fn, args, kwargs))
                        return ("call", fn[1], args, kwargs)
                    return None
                ev = J.eval(summaries=summ)
                other = ("s", "other")
                a = f.node.args
                names = [x.arg for x in a.posonlyargs + a.args if x.arg != f.self_name]
                vn = ev.new_vn()
                t = vn.body(f, {f.self_name: SELF, **{n: other for n in names[:1]}}, cls)
                t = V.strip_raise(t)
                if t is None or t[0] != "call" or len(t[2]) != 2 or t[3]:
                    J.res.undecided.append(f"{f.qual}: not a call of the arithmetic function")
                    continue
                want = (SELF, other) if not refl else (other, SELF)
                nm = t[1].split(".")[-1].strip("_")
                if nm in OPS and nm != op:
                    J.res.add("operator", f.qual, f"{f.qual} computes `{nm}` instead of `{op}`", **loc(f))
                if t[2] == want[::-1]:
                    J.res.add("operator", f.qual, f"{f.qual} passes its operands in the wrong order", **loc(f))


def dispatch(J):
    """The rule is looked up by the types of the operands, and applied to them, in their order."""
    some, entries, reg_of = registered(J)
    a, b = ("s", "rv1"), ("s", "rv2")
    for op, (reg, f) in reg_of.items():
        J.res.count("dispatch functions")
        ev = J.eval()
        vn = ev.new_vn()
        names = [x.arg for x in f.node.args.args]
        if len(names) != 2:
            continue
        t = vn.body(f, dict(zip(names, (a, b))), None)
        seen = {"types": set(), "calls": set()}

        def walk(x):
            if not isinstance(x, tuple):
                return
            if x and x[0] == "tup" and len(x[1]) == 2:
                ts = [y[2][0] if y[0] == "call" and y[1] == "builtins.type" and y[2] else y[1] if y[0] == "at" and y[2] == "__class__" else None
                      for y in x[1]]
                if set(ts) == {a, b}:
                    seen["types"].add(tuple(ts))
            if x and x[0] == "call" and len(x) > 2 and isinstance(x[2], tuple) and len(x[2]) == 2 and set(x[2]) == {a, b}:
                seen["calls"].add(x[2])
            for y in x:
                walk(y)
        walk(t)
        for k, v in seen.items():
            if (b, a) in v:
                J.res.add("operator", f"{f.qual}: {k}", f"{f.qual} {'looks up' if k == 'types' else 'applies'} the rule with swapped operands", **loc(f))
        if seen["calls"]:
            J.res.count("dispatch functions decided")


def registered(J):
    mod = J.p.modules.get("probnum.randvars._arithmetic")
    if mod is None:
        return None, {}, {}
    funcs = dict(mod.functions)
    some = next(iter(funcs.values()), None)
    entries = {}
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
            t = s.targets[0]
            if isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Tuple) and len(t.slice.elts) == 2:
                cl = []
                for e in t.slice.elts:
                    r = J.p.resolve_expr(e, mod, some)
                    cl.append(r[1].name if r is not None and r[0] == "class" else None)
                if None not in cl:
                    entries.setdefault(t.value.id, {})[tuple(cl)] = s.value
    reg_of = {}
    for op in OPS:
        for nm in (op, op + "_"):
            f = funcs.get(nm)
            if f is None:
                continue
            used = [n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id in entries]
            if len(used) == 1:
                reg_of[op] = (used[0], f)
    return some, entries, reg_of


# ------------------------------------------------------------------ deciding branch conditions from facts about the operands
class Facts:
    """Truth of conditions over the shapes of the operands of one scenario."""

    def __init__(self, vals, isinst=None, default=None, truths=None):
        self.vals, self.isinst_, self.default, self.truths = vals, isinst or {}, default, truths or {}

    def value(self, t):
        if t in self.vals:
            return self.vals[t]
        if t[0] == "c":
            return t[1]
        if t[0] in ("tup", "list"):
            xs = [self.value(x) for x in t[1]]
            return None if any(x is None for x in xs) else tuple(xs)
        if t[0] == "idx":
            b, i = self.value(t[1]), self.value(t[2])
            if isinstance(b, tuple) and isinstance(i, int):
                return b[i] if -len(b) <= i < len(b) else None
        if t[0] == "call" and t[1] == "builtins.len" and len(t[2]) == 1:
            v = self.value(t[2][0])
            return len(v) if isinstance(v, tuple) else None
        if t[0] == "at" and t[2] in ("ndim", "size"):
            v = self.value(at(t[1], "shape"))
            if isinstance(v, tuple):
                n = 1
                for x in v:
                    n *= x
                return len(v) if t[2] == "ndim" else n
        if t[0] == "at" and t[2] == "shape" and self.default is not None:
            return self.default(t[1])
        return None

    def __call__(self, c):
        if c in self.truths:
            return self.truths[c]
        if c[0] == "cmp":
            a, b = self.value(c[2]), self.value(c[3])
            if a is None or b is None:
                return None
            try:
                if c[1] == "==":
                    return a == b
                if c[1] == "<":
                    return a < b
                if c[1] == "in":
                    return a in b
            except TypeError:
                return None
        if c[0] == "isinstance":
            for k, v in self.isinst_.items():
                if k == c[1]:
                    return v(c)
        if c[0] in ("at",):
            return self.truths.get(c)
        return None


X, Y, C = ("s", "x"), ("s", "y"), ("s", "c")


def shaper(shapes):
    """Shape of a term from the shapes of its symbols (None if unknown)."""
    def of(t):
        if t in shapes:
            return shapes[t]
        if t[0] == "at" and t[2] in ("mean", "support", "mode", "median") and t[1] in shapes:
            return shapes[t[1]]
        if t[0] == "at" and t[2] in ("cov", "cov_cholesky") and t[1] in shapes:
            s = shapes[t[1]]
            n = 1
            for x in s:
                n *= x
            return (n, n) if s else ()
        if t[0] == "T":
            s = of(t[1])
            return None if s is None else s[::-1]
        if t[0] == "bin" and t[1] == "@":
            a, b = of(t[2]), of(t[3])
            if a is None or b is None or not a or not b:
                return None
            return a[:-1] + (b[:-2] + b[-1:] if len(b) > 1 else ())
        if t[0] == "bin" and t[1] in "+-*/":
            a, b = of(t[2]), of(t[3])
            return a if b == () else b if a == () or a == b else None
        if t[0] == "pcall" and t[1].endswith("cholesky_update"):
            return None
        return None
    return of


def moments(J, what, f, fr, impl, mean, cov, case, chol=True):
    J.decide(f"{what}: mean", f, fr.attr(impl, "mean"), [mean], case)
    J.decide(f"{what}: covariance", f, fr.attr(impl, "cov"), [cov], case)
    if chol:
        for n in normals(impl):
            d = dict(n[2])
            L = d.get("cov_cholesky", V.NONE)
            if L != V.NONE and "cov" in d:
                J.decide(f"{what}: Cholesky factor squared", f, ("bin", "@", L, ("T", L)), [d["cov"]], case)


SCEN = [  # op, left, right, shapes, mean, covariance
    ("add", X, Y, {X: (3,), Y: (3,)}, "x.mean + y.mean", "x.cov + y.cov"),
    ("sub", X, Y, {X: (3,), Y: (3,)}, "x.mean - y.mean", "x.cov + y.cov"),
    ("add", X, C, {X: (3,), C: (3,)}, "x.mean + c.support", "x.cov"),
    ("add", C, X, {X: (3,), C: (3,)}, "x.mean + c.support", "x.cov"),
    ("sub", X, C, {X: (3,), C: (3,)}, "x.mean - c.support", "x.cov"),
    ("sub", C, X, {X: (3,), C: (3,)}, "c.support - x.mean", "x.cov"),
    ("mul", X, C, {X: (3,), C: ()}, "c.support * x.mean", "c.support * c.support * x.cov"),
    ("mul", C, X, {X: (3,), C: ()}, "c.support * x.mean", "c.support * c.support * x.cov"),
    ("truediv", X, C, {X: (3,), C: ()}, "x.mean / c.support", "x.cov / (c.support * c.support)"),
    ("matmul", X, C, {X: (3,), C: (3, 4)}, "x.mean @ c.support", "c.support.T @ x.cov @ c.support"),
    ("matmul", C, X, {X: (3,), C: (4, 3)}, "c.support @ x.mean", "c.support @ x.cov @ c.support.T"),
    ("matmul", X, C, {X: (1, 3), C: (3, 4)}, "x.mean @ c.support", "c.support.T @ x.cov @ c.support"),
    ("matmul", C, X, {X: (3, 1), C: (4, 3)}, "c.support @ x.mean", "c.support @ x.cov @ c.support.T"),
    ("matmul", X, C, {X: (5, 3), C: (3, 4)}, "x.mean @ c.support",
     "np.kron(I, c.support.T) @ x.cov @ np.kron(I, c.support.T).T"),
    ("matmul", C, X, {X: (3, 5), C: (4, 3)}, "c.support @ x.mean",
     "np.kron(c.support, I) @ x.cov @ np.kron(c.support, I).T"),
    ("add", X, Y, {X: (), Y: ()}, "x.mean + y.mean", "x.cov + y.cov"),
    ("sub", X, Y, {X: (), Y: ()}, "x.mean - y.mean", "x.cov + y.cov"),
    ("mul", X, C, {X: (3, 4), C: ()}, "c.support * x.mean", "c.support * c.support * x.cov"),
    ("mul", C, X, {X: (), C: ()}, "c.support * x.mean", "c.support * c.support * x.cov"),
    ("truediv", X, C, {X: (3, 4), C: ()}, "x.mean / c.support", "x.cov / (c.support * c.support)"),
]


def rulename(op, l, r):
    nm = {X: "Normal", Y: "Normal", C: "Constant"}
    return f"{nm[l]} {OPS[op]} {nm[r]}"


def rule(J, some, vn, entries, reg_of, op, pair):
    if op not in reg_of:
        return None, None
    e = entries[reg_of[op][0]].get(pair)
    if e is None:
        return None, None
    fr = V.Frame(vn, some, {}, None)
    return fr, fr.ev(e)


def blame(J, some, t, vn, default):
    """The function a rule term stands for, for reporting."""
    if t is not None and t[0] == "pfunc":
        f = J.p.func_of_node.get(t[2])
        if f is not None:
            return f
    if t is not None and t[0] == "bound":
        for c in (J.normal, J.constant):
            f = c.find(t[2].split(".")[-1])
            if f is not None:
                return f
    return default


def arithmetic(J):
    some, entries, reg_of = registered(J)
    if some is None:
        J.res.undecided.append("arithmetic: no operator registry")
        return
    cname = {X: "Normal", Y: "Normal", C: "Constant"}
    for op, l, r, shapes, mean, cov in SCEN:
        for pre in (False, True):
            truths = {at(v, "cov_cholesky_is_precomputed"): pre for v in (X, Y)}
            truths[("cmp", "==", ("c", 0), at(C, "support"))] = False
            truths[("cmp", "==", at(C, "support"), ("c", 0))] = False
            vals = {at(v, "shape"): s for v, s in shapes.items()}
            facts = Facts(vals, default=shaper(shapes), truths=truths)
            ev = J.eval(oracle=facts, types={X: J.normal, Y: J.normal, C: J.constant})
            vn = ev.new_vn()
            fr, t = rule(J, some, vn, entries, reg_of, op, (cname[l], cname[r]))
            what = f"{rulename(op, l, r)} {shapes[l]} {shapes[r]}" + (" with Cholesky factor" if pre else "")
            if t is None:
                J.res.undecided.append(f"{what}: no rule")
                continue
            f = blame(J, some, t, vn, reg_of[op][1])
            impl = V.strip_raise(fr.call(t, (l, r), ()))
            if impl is None:
                J.res.undecided.append(f"{what}: no value")
                continue
            scal = {at(C, "support")} if shapes.get(C) == () else set()
            for v in (X, Y):
                if shapes.get(v) == ():
                    scal |= {at(v, "mean"), at(v, "cov")}
            case = Case(scalars=scal)
            env = {"x": X, "y": Y, "c": C, "I": ("call", "numpy.eye", (("s", "n"),), ()), **NP}
            ref = lambda s: ev.text(s, some, None, vn, env)
            moments(J, what, f, fr, impl, ref(mean), ref(cov), case)
    # multiplication by zero
    for l, r in ((X, C), (C, X)):
        truths = {at(X, "cov_cholesky_is_precomputed"): False, ("cmp", "==", ("c", 0), at(C, "support")): True,
                  ("cmp", "==", at(C, "support"), ("c", 0)): True}
        facts = Facts({at(X, "shape"): (3,), at(C, "shape"): ()}, default=shaper({X: (3,), C: ()}), truths=truths)
        ev = J.eval(oracle=facts, types={X: J.normal, C: J.constant})
        vn = ev.new_vn()
        fr, t = rule(J, some, vn, entries, reg_of, "mul", (cname[l], cname[r]))
        if t is None:
            continue
        impl = V.strip_raise(fr.call(t, (l, r), ()))
        case = Case(scalars={at(C, "support")}, subst={at(C, "support"): ("c", 0)})
        f = blame(J, some, t, vn, reg_of["mul"][1])
        if impl is not None:
            J.decide(f"{rulename('mul', l, r)} zero: mean", f, fr.attr(impl, "mean"), [("c", 0)], case)
    # constants and the generic fallback
    for op in OPS:
        for pair, a, b in ((("Constant", "Constant"), C, ("s", "d")), (("RandomVariable", "RandomVariable"), X, Y)):
            types = {C: J.constant, ("s", "d"): J.constant} if pair[0] == "Constant" else {X: J.rv, Y: J.rv}
            ev = J.eval(types=types)
            vn = ev.new_vn()
            fr, t = rule(J, some, vn, entries, reg_of, op, pair)
            what = f"{pair[0]} {OPS[op]} {pair[1]}"
            if t is None:
                J.res.undecided.append(f"{what}: no rule")
                continue
            f = blame(J, some, t, vn, reg_of[op][1])
            impl = V.strip_raise(fr.call(t, (a, b), ()))
            if impl is None or impl[0] != "new":
                J.res.undecided.append(f"{what}: no value")
                continue
            d = dict(impl[2])
            env = {"a": a, "b": b, "rng": ("s", "rng"), "size": ("s", "size"), **NP}
            sym = OPS[op]
            ref = lambda s: ev.text(s, some, None, vn, env)
            o = (lambda p, q: f"divmod({p}, {q})") if sym == "divmod" else (lambda p, q: f"({p}) {sym} ({q})")
            case = Case()
            if pair[0] == "Constant":
                J.decide(f"{what}: value", f, d.get("support"), [ref(o("a.support", "b.support"))], case, known=OTHER_BINARY)
            else:
                if "sample" in d:
                    s = fr.call(d["sample"], (("s", "rng"), ("s", "size")), ())
                    J.decide(f"{what}: sample", f, s, [ref(o("a.sample(rng, size=size)", "b.sample(rng, size=size)")),
                                                      ref(o("a.sample(rng, size)", "b.sample(rng, size)"))], case, known=OTHER_BINARY)
                if d.get("mean", V.NONE) != V.NONE and op in ("add", "sub"):
                    J.decide(f"{what}: mean", f, fr.call(d["mean"], (), ()), [ref(o("a.mean", "b.mean"))], case)
                elif "mean" in d and d["mean"] != V.NONE:
                    J.res.undecided.append(f"{what}: mean of a nonlinear operation")


# ------------------------------------------------------------------ densities, moments and factors of the normal distribution
M, P = ("s", "mean"), ("s", "cov")
KINDS = {  # kind of normal: (shape of the mean, class of the covariance)
    "scalar": ((), "scalar"),
    "vector": ((3,), "ndarray"),
    "matrix": ((3, 4), "ndarray"),
    "Kronecker": ((3, 4), "Kronecker"),
    "symmetric Kronecker": ((3, 3), "SymmetricKronecker"),
    "operator": ((3,), "Matrix"),
}


def kind_oracle(J, kind):
    shape, cov = KINDS[kind]
    n = 1
    for x in shape:
        n *= x
    vals = {at(M, "shape"): shape, at(P, "shape"): (n, n) if shape else ()}
    if cov == "Kronecker":
        vals.update({at(at(P, "A"), "shape"): (shape[0],) * 2, at(at(P, "B"), "shape"): (shape[1],) * 2})
    if cov == "SymmetricKronecker":
        vals.update({at(at(P, "A"), "shape"): (shape[0],) * 2, at(at(P, "B"), "shape"): (shape[1],) * 2})
    for a in ("shape",):
        vals[at(SELF, a)] = shape
    vals[at(at(SELF, "mean"), "shape")] = shape
    vals[at(at(SELF, "cov"), "shape")] = vals[at(P, "shape")]

    def inst(mine):
        def go(c):
            s = repr(c[2:])
            if mine in ("ndarray", "scalar"):
                if "ndarray" in s:
                    return mine == "ndarray" or None
                return False if "linops" in s else None
            if "ndarray" in s:
                return False
            if "SymmetricKronecker" in s:
                return mine == "SymmetricKronecker"
            if "Kronecker" in s:
                return mine in ("Kronecker",)
            if "LinearOperator" in s:
                return True
            return None
        return go
    im, ic = inst("ndarray" if shape else "scalar"), inst(cov)
    truths = {at(P, "identical_factors"): True, ("call", "numpy.isscalar", (M,), ()): False, ("call", "numpy.isscalar", (P,), ()): False,
              ("cmp", "is", ("s", "cov_cholesky"), V.NONE): True, ("cmp", "is", ("s", "damping_factor"), V.NONE): False}
    return Facts(vals, isinst={M: im, P: ic, at(SELF, "mean"): im, at(SELF, "cov"): ic}, truths=truths)


DENS = {"pdf": "pdf", "logpdf": "logpdf", "cdf": "cdf", "logcdf": "logcdf"}


def normal(J):
    cls = J.normal
    x = ("s", "x")
    params = {"cov_cholesky": V.NONE}
    for kind in KINDS:
        facts = kind_oracle(J, kind)
        uni = kind == "scalar"
        scal = {at(SELF, "mean"), at(SELF, "cov"), M, P, at(SELF, "std"), at(SELF, "var")} if uni else set()
        case = Case(scalars=scal | {("s", "damping_factor")}, symmetric={P, at(P, "A"), at(P, "B"), at(at(SELF, "cov"), "A"), at(at(SELF, "cov"), "B")})
        env = {"self": SELF, "x": x, "mean": M, "cov": P, "I": ("call", "numpy.eye", (("s", "n"),), ()), "d": ("s", "damping_factor"), **NP}
        for name in DENS:
            f = cls.find(name)
            ev = J.eval(oracle=facts)
            vn = ev.new_vn()
            st = ev.state(cls, vn, params)
            impl, _ = ev.method(cls, name, {f.node.args.args[1].arg: x}, vn=vn, state=st)
            ref = lambda s: ev.text(s, cls.find("__init__"), cls, vn, env)
            if uni:
                refs = [ref(f"scipy.stats.norm.{name}(x, loc=self.mean, scale=self.std)"), ref(f"scipy.stats.norm.{name}(x, self.mean, self.std)")]
            else:
                pts = "x.reshape(x.shape[: -self.ndim] + (-1,))"
                refs = [ref(f"scipy.stats.multivariate_normal.{name}({pts}, mean=self.dense_mean.ravel(), cov=self.dense_cov)"),
                        ref(f"scipy.stats.multivariate_normal.{name}({pts}, self.dense_mean.ravel(), self.dense_cov)")]
            sib = {"scipy.stats.norm." + n for n in list(DENS) + ["sf", "logsf", "ppf"]} | {"scipy.stats.multivariate_normal." + n for n in DENS}
            J.decide(f"{kind} normal {name}", blame_method(J, vn, f, cls), impl, refs, case, known=sib)
        others = {"mean": ["mean"], "mode": ["mean"], "cov": ["cov"]}
        if uni:
            others.update(median=["mean"], var=["cov"], quantile=["scipy.stats.norm.ppf(x, loc=self.mean, scale=self.std)"])
            others["entropy"] = ["scipy.stats.norm.entropy(loc=self.mean, scale=self.std)"]
        else:
            others["var"] = ["np.diag(self.dense_cov).reshape(self.shape)", "np.diagonal(self.dense_cov).reshape(self.shape)"]
            others["entropy"] = ["scipy.stats.multivariate_normal.entropy(mean=self.dense_mean.ravel(), cov=self.dense_cov)"]
        for name, refs in others.items():
            f = cls.find(name)
            ev = J.eval(oracle=facts)
            ev.opaque -= {name}
            vn = ev.new_vn()
            st = ev.state(cls, vn, params)
            args = {f.node.args.args[1].arg: x} if len(f.node.args.args) > 1 else {}
            impl, _ = ev.method(cls, name, args, vn=vn, state=st)
            J.decide(f"{kind} normal {name}", f, impl, [ev.text(r, cls.find("__init__"), cls, vn, env) for r in refs], case)
        # Cholesky factor, squared
        ev = J.eval(oracle=facts)
        vn = ev.new_vn()
        st = ev.state(cls, vn, params)
        key = next((k for k in st if k[2] == "_compute_cov_cholesky"), None)
        f = cls.find("__init__")
        if key is None:
            J.res.undecided.append(f"{kind} normal: Cholesky routine not found")
            continue
        fr = V.Frame(vn, f, {**st, f.self_name: SELF}, cls)
        L = V.strip_raise(fr.call(st[key], (), (("damping_factor", ("s", "damping_factor")),)))
        ref = lambda s: ev.text(s, f, cls, vn, env)
        if uni:
            J.decide(f"{kind} normal Cholesky factor", f, L, [ref("np.sqrt(self.cov + d)")], case)
        elif kind == "symmetric Kronecker":
            pass
        elif kind == "Kronecker":
            J.decide(f"{kind} normal Cholesky factor squared", f, ("bin", "@", L, ("T", L)),
                     [ref("np.kron(self.cov.A + d * I, self.cov.B + d * I)")], case)
        else:
            J.decide(f"{kind} normal Cholesky factor squared", f, ("bin", "@", L, ("T", L)), [ref("self.dense_cov + d * I")], case)
    unary(J, cls)


def blame_method(J, vn, f, cls):
    return f


def unary(J, cls):
    init = cls.find("__init__")
    env = {"self": SELF, **NP}
    for name, sign in (("__neg__", "-"), ("__pos__", "")):
        f = cls.find(name)
        ev = J.eval()
        vn = ev.new_vn()
        impl, _ = ev.method(cls, name, {}, vn=vn, state={})
        impl = V.strip_raise(impl)
        if impl is None:
            continue
        fr = V.Frame(vn, f, {}, cls)
        ref = lambda s: ev.text(s, init, cls, vn, env)
        moments(J, f"normal {name}", f, fr, impl, ref(f"{sign}self.mean"), ref("self.cov"), Case())
    transforms(J, cls, init, env)


FLATIDX = "np.ravel(np.arange(self.size).reshape(self.shape)[KEY])"
FLATS = [f"self.dense_cov{r}[{x}]" for r in (".reshape(self.size, self.size)", "") for x in (f"np.ix_({FLATIDX}, {FLATIDX})", f"{FLATIDX}][:, {FLATIDX}", f"{FLATIDX}[:, None], {FLATIDX}", f"{FLATIDX}[:, None], {FLATIDX}[None, :]")]


def transforms(J, cls, init, env):
    for shape, new in (((3, 4), (2, 6)), ((12,), (3, 4)), ((1, 1), ()), ((3, 4), (12,))):
        f = cls.find("reshape")
        n = 1
        for k in shape:
            n *= k
        facts = Facts({at(SELF, "shape"): shape, at(at(SELF, "dense_mean"), "shape"): shape, at(at(SELF, "dense_cov"), "shape"): (n, n)}, default=lambda t, new=new: new if V.contains(t, lambda z: z == ("s", "newshape")) else None)
        ev = J.eval(oracle=facts)
        vn = ev.new_vn()
        impl, _ = ev.method(cls, "reshape", {f.node.args.args[1].arg: ("s", "newshape")}, vn=vn, state={})
        impl = V.strip_raise(impl)
        fr = V.Frame(vn, f, {}, cls)
        ref = lambda s: ev.text(s, init, cls, vn, {**env, "newshape": ("s", "newshape")})
        if impl is not None:
            J.decide(f"normal reshape {shape} -> {new}: mean", f, fr.attr(impl, "mean"), [ref("self.dense_mean.reshape(newshape)")], Case())
            J.decide(f"normal reshape {shape} -> {new}: covariance", f, fr.attr(impl, "cov"), [ref("self.dense_cov")], Case())
    for name, args, mean, cov in (
        ("__getitem__", {"key": ("tup", (("s", "i"), ("s", "j")))}, "self.dense_mean[i, j]",
         [x.replace("KEY", "i, j") for x in FLATS] + ["self.dense_cov.reshape(self.shape + self.shape)[i, j][..., i, j].reshape(mean.size, mean.size)"]),
        ("__getitem__", {"key": ("tup", (("s", "i"),))}, "self.dense_mean[i,]", [x.replace("KEY", "i,") for x in FLATS]),
        ("transpose", {"axes": ("tup", (("c", 1), ("c", 0)))}, "self.dense_mean.transpose(1, 0)",
         ["self.dense_cov.reshape(self.shape + self.shape).transpose(1, 0, 3, 2).reshape(mean.size, mean.size)"]),
        ("transpose", {"axes": ("tup", ())}, "self.dense_mean.transpose(1, 0)",
         ["self.dense_cov.reshape(self.shape + self.shape).transpose(1, 0, 3, 2).reshape(mean.size, mean.size)"]),
        ("transpose", {"axes": ("tup", (("c", -1), ("c", 0)))}, "self.dense_mean.transpose(1, 0)",
         ["self.dense_cov.reshape(self.shape + self.shape).transpose(1, 0, 3, 2).reshape(mean.size, mean.size)"]),
    ):
        f = cls.find(name)
        ex = {"i": ("s", "i"), "j": ("s", "j")}
        facts = Facts({at(SELF, "shape"): (3, 4)}, default=lambda t: (4, 3))
        ev = J.eval(oracle=facts)
        vn = ev.new_vn()
        impl, _ = ev.method(cls, name, args, vn=vn, state={("@", SELF, "ndim"): ("c", 2)})
        impl = V.strip_raise(impl)
        fr = V.Frame(vn, f, {}, cls)
        if impl is None:
            continue
        two = lambda t, alg: alg.const(2) if t[0] == "at" and t[2] == "ndim" else t[:3] + (tuple(modaxis(x) for x in t[3]),) + t[4:] if t[0] == "m" and t[2] == "transpose" and tuple(modaxis(x) for x in t[3]) != t[3] else ("s", "#entries") if t[0] == "at" and t[2] == "size" and name == "transpose" else None
        case = Case(extra=two)
        m = ev.text(mean, init, cls, vn, {**env, **ex})
        J.decide(f"normal {name}: mean", f, fr.attr(impl, "mean"), [m], case)
        J.decide(f"normal {name}: covariance", f, fr.attr(impl, "cov"), [ev.text(c, init, cls, vn, {**env, **ex, "mean": m}) for c in cov], case)


# ------------------------------------------------------------------ samples of normals
def samples(J):
    cls = J.normal
    init = cls.find("__init__")
    rng, size = ("s", "rng"), ("s", "size")
    linops = {"linops": ("mod", "probnum.linops")}
    for kind in KINDS:
        facts = kind_oracle(J, kind)
        facts.truths[("call", "numpy.isscalar", (("s", "draw"),), ())] = False
        ev = J.eval(oracle=facts, summaries=as_shape)
        ev.opaque -= {"sample"}
        vn = ev.new_vn()
        st = ev.state(cls, vn, {"cov_cholesky": V.NONE})
        f = cls.find("sample")
        impl, _ = ev.method(cls, "sample", {"rng": rng, "size": size}, vn=vn, state=st)
        env = {"self": SELF, "rng": rng, "size": size, **NP}
        ref = lambda t: ev.text(t, init, cls, vn, env)
        ref1 = []
        if kind == "scalar":
            refs = ["scipy.stats.norm.rvs(loc=self.mean, scale=self.std, size=size, random_state=rng)"]
        elif kind == "symmetric Kronecker":
            n = "self.mean.shape[1]"
            z = f"scipy.stats.norm.rvs(size=({n} * {n}, int(np.prod(size))), random_state=rng)"
            refs = [f"self.dense_mean + (linops.Symmetrize({n}) @ (self.cov_cholesky @ {z})).T.reshape(size + ({n}, {n}))"]
        else:
            z = "scipy.stats.multivariate_normal.rvs(mean=self.dense_mean.ravel(), cov=self.dense_cov, size=size, random_state=rng)"
            refs = [f"{z}.reshape(tuple(axis for axis in size if axis != 1) + self.shape)", f"{z}.reshape(size + self.shape)"]
        J.decide(f"{kind} normal sample", f, impl, [ref(t) for t in refs], Case(scalars={at(SELF, "mean"), at(SELF, "std")} if kind == "scalar" else ()))


def as_shape(fr, fn, args, kwargs):
    if fn[0] in ("pfunc", "ext", "at") and str(fn[1] if fn[0] != "at" else fn[2]).split(".")[-1] == "as_shape" and len(args) == 1:
        return args[0]
    return ident(fr, fn, args, kwargs)


# ------------------------------------------------------------------ constants
def modaxis(x):
    return ("c", x[1] % 2) if x[0] == "c" and isinstance(x[1], int) and x[1] < 0 else x


def constant(J):
    cls = J.constant
    S = ("s", "support")
    init = cls.find("__init__")
    for shape in ((), (3, 4)):
        for free in (False, True):
            facts = Facts({at(S, "shape"): shape, ("s", "size"): None},
                          truths={("call", "numpy.isscalar", (S,), ()): False})
            ev = J.eval(oracle=facts, summaries=as_shape)
            ev.opaque -= {"support", "mean", "cov", "var", "std", "sample"}
            vn = ev.new_vn()
            st = ev.state(cls, vn, {"support": S})
            env = {"self": SELF, "support": S, "key": ("s", "key"), "newshape": ("s", "newshape"), "x": ("s", "x"),
                   "size": ("s", "size"), "rng": ("s", "rng"), **NP}
            ref = lambda t: ev.text(t, init, cls, vn, env)
            case = Case(extra=lambda t, alg: t[2][0] if t[0] == "call" and t[1] == "numpy.broadcast_to" and t[2] and t[2][0][0] == "c" else None)
            zero = [("c", 0)]
            for name, refs in {"mean": [S], **({} if shape else {"median": [S]}), "mode": [S], "support": [S], "var": zero, "std": zero, "cov": zero}.items():
                f = cls.find(name)
                impl, _ = ev.method(cls, name, {}, vn=vn, state=st)
                J.decide(f"constant {shape} {name}", f if f.cls is cls else init, impl, refs, case)
            if free:
                continue
            for name, args, refs in (
                ("__getitem__", {"key": ("s", "key")}, ["support[key]"]),
                ("reshape", {"newshape": ("s", "newshape")}, ["support.reshape(newshape)"]),
                ("__neg__", {}, ["-support"]), ("__pos__", {}, ["support"]), ("__abs__", {}, ["abs(support)"]),
                ("transpose", {"axes": ("tup", (("c", 1), ("c", 0)))}, ["support.transpose(1, 0)"]),
            ):
                f = cls.find(name)
                impl, _ = ev.method(cls, name, args, vn=vn, state=st)
                impl = V.strip_raise(impl)
                fr = V.Frame(vn, f, {}, cls)
                if impl is not None:
                    J.decide(f"constant {name}", f, fr.attr(impl, "support"), [ref(r) for r in refs], case)
            f = cls.find("sample")
            impl, _ = ev.method(cls, "sample", {"rng": ("s", "rng"), "size": ("s", "size")}, vn=vn, state=st)
            nd = len(shape)
            J.decide(f"constant {shape} sample", f, impl,
                     [ref(f"support if size == () else np.tile(support, reps=size + (1,) * {nd})"),
                      ref(f"np.tile(support, reps=size + (1,) * {nd})"),
                      ref("np.broadcast_to(support, size + support.shape)")], Case(extra=ndims(shape)), known={"numpy.broadcast_to"})
            for name, refs in (("pmf", ["1.0 if np.all(x == support) else 0.0"]), ("cdf", ["1.0 if np.all(x >= support) else 0.0"])):
                f = cls.find(name)
                impl, _ = ev.method(cls, name, {"x": ("s", "x")}, vn=vn, state=st)
                J.decide(f"constant {name}", init, impl, [ref(r) for r in refs], case)


def ndims(shape):
    return lambda t, alg: alg.const(len(shape)) if t[0] == "at" and t[2] == "ndim" else None


# ------------------------------------------------------------------ transformations of arbitrary random variables
def generic(J):
    cls = J.rv
    init = cls.find("__init__")
    rng, size, key, new = ("s", "rng"), ("s", "size"), ("tup", (("s", "i"), ("s", "j"))), ("s", "newshape")
    env = {"self": SELF, "i": ("s", "i"), "j": ("s", "j"), "newshape": new, "x": ("s", "x"), "rng": rng, "size": size, **NP}
    same = ("mode", "median", "mean", "var", "std")
    perm = "self.cov.reshape(self.shape + self.shape).transpose(1, 0, 3, 2).reshape(self.size, self.size)"
    for name, args, elem, special in (
        ("__getitem__", {"key": key}, "{}[i, j]", {}),
        ("reshape", {"newshape": new}, "{}.reshape(newshape)", {"cov": ["self.cov"]}),
        ("transpose", {"axes": ("tup", (("c", 1), ("c", 0)))}, "{}.transpose(1, 0)", {"cov": [perm]}),
        ("__neg__", {}, "-{}", {"cov": ["self.cov"], "var": ["self.var"], "std": ["self.std"]}),
        ("__pos__", {}, "+{}", {"cov": ["self.cov"], "var": ["self.var"], "std": ["self.std"]}),
        ("__abs__", {}, "abs({})", {}),
    ):
        f = cls.find(name)
        facts = Facts({at(SELF, "shape"): (3, 4)})
        ev = J.eval(oracle=facts, summaries=as_shape, opaque={"mode", "median", "entropy", "in_support"})
        vn = ev.new_vn()
        impl, _ = ev.method(cls, name, args, vn=vn, state={("@", SELF, "ndim"): ("c", 2)})
        impl = V.strip_raise(impl)
        if impl is None or impl[0] != "new":
            J.res.undecided.append(f"generic {name}: not a random variable")
            continue
        d = dict(impl[2])
        fr = V.Frame(vn, f, {}, cls)
        ref = lambda t: ev.text(t, init, cls, vn, env)
        two = lambda t, alg: alg.const(2) if t[0] == "at" and t[2] == "ndim" else None
        case = Case(extra=two)
        for a in same + ("cov",):
            if d.get(a, V.NONE) == V.NONE:
                continue
            refs = special.get(a) or ([elem.format("self." + a)] if a in same else None)
            if refs is None or (name == "__abs__"):
                J.res.undecided.append(f"generic {name}: {a} has no closed form")
                continue
            J.decide(f"generic {name}: {a}", f, fr.call(d[a], (), ()), [ref(r) for r in refs], case)
        if d.get("entropy", V.NONE) != V.NONE:
            e = fr.call(d["entropy"], (), ())
            if name in ("__getitem__", "__abs__"):
                if e == at(SELF, "entropy"):
                    J.res.add("formula", f"{f.qual}: entropy", "the entropy of a part of a random variable is not the joint entropy", **loc(f))
            else:
                J.decide(f"generic {name}: entropy", f, e, [ref("self.entropy")], case)
        if d.get("sample", V.NONE) != V.NONE:
            s = fr.call(d["sample"], (rng, size), ())
            draw = "self.sample(rng=rng, size=size)"
            if name in ("__neg__", "__pos__", "__abs__"):
                J.decide(f"generic {name}: sample", f, s, [ref(elem.format(draw))], case)
            elif name == "reshape":
                J.decide(f"generic {name}: sample", f, s, [ref(f"{draw}.reshape(size + newshape)")], case)
            else:
                batched(J, f, name, s, ref(draw), size)
        if d.get("in_support", V.NONE) != V.NONE and name in ("__neg__", "__pos__"):
            J.decide(f"generic {name}: support", f, fr.call(d["in_support"], (("s", "x"),), ()), [ref("self.in_support(%sx)" % ("-" if name == "__neg__" else ""))], case)


def batched(J, f, name, s, draw, size):
    """Indexing or permuting a batch of draws must leave the leading batch axes alone."""
    J.res.count("obligations")
    if s[0] == "idx" and s[1] == draw:
        k = s[2]
        if not V.contains(k, lambda z: z == size) and not V.contains(k, lambda z: z == ("c", Ellipsis)):
            J.res.add("batch", f"{f.qual}: sample", f"{f.qual} applies the index to the axes of the sample batch instead of the axes of each draw", **loc(f))
            return
    elif s[0] == "m" and s[1] == draw and s[2] == "transpose" or s[0] in ("T", "call") and V.contains(s, lambda z: z == draw):
        if not V.contains(s[2:] if s[0] != "T" else (), lambda z: z == size):
            if s[0] == "T" or s[0] == "m" or s[1] == "numpy.transpose":
                J.res.add("batch", f"{f.qual}: sample", f"{f.qual} permutes the axes of the sample batch along with the axes of each draw", **loc(f))
                return
    else:
        J.res.undecided.append(f"{f.qual}: sample of a batch not understood")
        return
    J.res.count("obligations decided")


# ------------------------------------------------------------------ the functions given to a random variable are the ones it uses
def given(J):
    x, n = ("s", "x"), 0
    for cname, extra in (("RandomVariable", ()), ("DiscreteRandomVariable", ("pmf", "logpmf")), ("ContinuousRandomVariable", ("pdf", "logpdf"))):
        cls = public_class(J.p, RV + cname)
        init = cls.find("__init__")
        pairs = [("cdf", "logcdf")] + ([(extra[0], extra[1])] if extra else [])
        for a in ("mean", "mode", "median", "cov", "var", "std", "entropy"):
            J_given(J, cls, init, a, {a}, (), [f"F_{a}()"])
        J_given(J, cls, init, "std", {"var"}, (), ["np.sqrt(self.var)"])
        J_given(J, cls, init, "var", {"cov"}, (), ["np.diag(self.cov).reshape(self.shape)", "np.diagonal(self.cov).reshape(self.shape)"])
        for p, lp in pairs:
            J_given(J, cls, init, p, {p}, ("x",), [f"F_{p}(x)"])
            J_given(J, cls, init, p, {p, lp}, ("x",), [f"F_{p}(x)", f"np.exp(F_{lp}(x))"])
            J_given(J, cls, init, p, {lp}, ("x",), [f"np.exp(F_{lp}(x))", f"np.exp(self.{lp}(x))"])
            J_given(J, cls, init, lp, {lp}, ("x",), [f"F_{lp}(x)"])
            J_given(J, cls, init, lp, {p, lp}, ("x",), [f"F_{lp}(x)", f"np.log(F_{p}(x))"])
            J_given(J, cls, init, lp, {p}, ("x",), [f"np.log(F_{p}(x))", f"np.log(self.{p}(x))"])
        J_given(J, cls, init, "quantile", {"quantile"}, ("x",), ["F_quantile(x)"])
        J_given(J, cls, init, "in_support", {"in_support"}, ("x",), ["F_in_support(x)"])


FUNS = ("sample", "in_support", "pdf", "logpdf", "pmf", "logpmf", "cdf", "logcdf", "quantile", "mode", "median", "mean", "cov", "var", "std", "entropy", "as_value_type")


def J_given(J, cls, init, name, have, args, refs):
    f = cls.find(name)
    shape = () if name in ("quantile", "median") else (3, 4)
    facts = Facts({at(SELF, "shape"): shape, ("s", "shape"): shape}, truths={("cmp", "is", ("s", "F_" + k), V.NONE): False for k in FUNS})
    ev = J.eval(oracle=facts, summaries=as_shape)
    ev.opaque -= {name}
    vn = ev.new_vn()
    names = [a.arg for a in init.node.args.args + init.node.args.kwonlyargs]
    params = {k: (("s", "F_" + k) if k in have else V.NONE) for k in FUNS if k in names}
    st = ev.state(cls, vn, params)
    pos = [a.arg for a in f.node.args.args if a.arg != f.self_name]
    impl, _ = ev.method(cls, name, dict(zip(pos, [("s", a) for a in args])), vn=vn, state=st)
    env = {"self": SELF, **{a: ("s", a) for a in args}, **{"F_" + k: ("s", "F_" + k) for k in FUNS}, **NP}
    fr = V.Frame(vn, init, {**st, **env}, cls)
    ev.opaque |= {name}
    rs = [fr.ev(ast.parse(r, mode="eval").body) for r in refs]
    heads = {repr(("s", "F_" + k)) for k in have}
    J.decide(f"{cls.name} {name} given {'/'.join(sorted(have))}", f, impl, rs, Case(subst={at(SELF, "shape"): ("s", "shape")}), known=heads | {"numpy.exp", "numpy.log"})


# ------------------------------------------------------------------ wrapped scipy distributions
def wrapped(J):
    mod = J.p.modules.get("probnum.randvars._scipy_stats")
    if mod is None:
        return
    want = {"cdf": "cdf", "logcdf": "logcdf", "quantile": "ppf", "median": "median", "mean": "mean", "cov": "cov", "var": "var",
            "std": "std", "entropy": "entropy", "pmf": "pmf", "logpmf": "logpmf", "pdf": "pdf", "logpdf": "logpdf"}
    vals = set(want.values())
    for n in ast.walk(mod.tree):
        items = []
        if isinstance(n, ast.Dict):
            items = [(k.value, v, k) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)]
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant):
            items = [(n.targets[0].slice.value, n.value, n)]
        elif isinstance(n, ast.Call):
            items = [(k.arg, k.value, n) for k in n.keywords]
        for k, v, at_ in items:
            if k not in want:
                continue
            J.res.count("wrapped functions")
            used = {c.value for c in ast.walk(v) if isinstance(c, ast.Constant) and c.value in vals and isinstance(c.value, str)}
            used |= {c.attr for c in ast.walk(v) if isinstance(c, ast.Attribute) and c.attr in vals and isinstance(c.value, ast.Name) and "rv" in c.value.id}
            if len(used) == 1 and want[k] not in used and not (k == "cov" and used == {"var"}):
                J.res.add("wrapped", f"{mod.name}: {k}", f"the {k} of a wrapped distribution is taken from `{used.pop()}`", file=mod.relpath, line=at_.lineno)


def categorical(J):
    cls = J.categorical
    init = cls.find("__init__")
    p, S = ("s", "probabilities"), ("s", "support")
    ev = J.eval(oracle=Facts({}, truths={("cmp", "is", S, V.NONE): False}), summaries=as_shape)
    ev.opaque -= {"support", "probabilities", "mode", "sample"}
    vn = ev.new_vn()
    st = ev.state(cls, vn, {"support": S, "probabilities": p})
    env = {"self": SELF, "support": S, "probabilities": p, "x": ("s", "x"), "size": ("s", "size"), "rng": ("s", "rng"), **NP}
    fr = V.Frame(vn, init, {**st, **env}, cls)
    ref = lambda t: fr.ev(ast.parse(t, mode="eval").body)
    for name, args, refs in (
        ("mode", {}, ["support[np.argmax(probabilities)]"]),
        ("support", {}, ["support"]), ("probabilities", {}, ["probabilities"]),
        ("sample", {"rng": ("s", "rng"), "size": ("s", "size")},
         ["support[rng.choice(np.arange(len(support)), size=size, p=probabilities).reshape(size)]",
          "support[rng.choice(np.arange(len(support)), size=size, p=probabilities)]",
          "support[rng.choice(len(support), size=size, p=probabilities)]"]),
        ("pmf", {"x": ("s", "x")}, ["np.sum(probabilities[np.all(x == support, axis=tuple(range(1, support.ndim)))])"]),
    ):
        f = cls.find(name)
        impl, _ = ev.method(cls, name, args, vn=vn, state=st)
        J.decide(f"categorical {name}", init, impl, [ref(r) for r in refs], Case())
    f = cls.find("resample")
    if f is not None:
        impl, _ = ev.method(cls, "resample", {"rng": ("s", "rng")}, vn=vn, state=st)
        resampled(J, f, impl, p, S)


def resampled(J, f, impl, p, S):
    """new support drawn with the old weights, new weights independent of the old ones"""
    if impl is None or impl[0] != "new":
        J.res.undecided.append("categorical resample")
        return
    parts = dict(impl[2])
    w, sup = parts.get("probabilities"), parts.get("support")
    if w is None or sup is None:
        J.res.undecided.append("categorical resample")
        return
    J.res.count("formulas")
    sizes = (("at", p, "shape"), ("at", p, "size"), ("at", p, "ndim"), ("at", p, "dtype"), ("call", "builtins.len", (p,), ()))

    def weighs(t):
        if t in sizes:
            return False
        if t == p:
            return True
        if isinstance(t, tuple) and t and t[0] == "call" and str(t[1]).endswith(("_like", ".shape", ".size")):
            return False
        return isinstance(t, tuple) and any(weighs(x) for x in t)

    def draws(t):
        if isinstance(t, tuple):
            if len(t) == 5 and t[0] == "m" and t[2] == "choice":
                yield t
            for x in t:
                yield from draws(x)

    if weighs(w):
        J.res.add("formula", f"{f.qual}: weights after resampling", "the resampled variable keeps the old weights although its support was drawn with them", file=f.file, line=f.node.lineno)
    for t in draws(sup):
        if "p" not in dict(t[4]) and len(t[3]) < 4:
            J.res.add("formula", f"{f.qual}: support after resampling", "the new support is drawn without the weights", file=f.file, line=f.node.lineno)
    if sup == S:
        J.res.add("formula", f"{f.qual}: support after resampling", "the support is not drawn anew", file=f.file, line=f.node.lineno)


def check(ctx, res):
    J = Job(ctx, res)
    for part in (operators, dispatch, arithmetic, normal, samples, constant, given, wrapped, generic, categorical):
        try:
            part(J)
        except (A.TooBig, V.Budget, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            import os
            if os.environ.get("PNSA_SHOW"):
                raise
            res.undecided.append(f"{part.__name__}: {type(e).__name__} {e}")
