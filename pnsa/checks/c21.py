"""C21: the problem collection (vector fields and derivatives, exact solutions, integrands and integrals, linear systems)."""
from __future__ import annotations

import itertools
import math
import os
from fractions import Fraction

from .. import rat as R
from .. import vn as V
from ..common import loc
from ..rat import Arr, const, fun, num
from .c20 import Job as Base, new, sym

LEVEL = "proof-of-formula"
EXPLANATION = (
    "Vector fields, Jacobians, integrands, closed-form solutions and right-hand sides of the shipped problems are computed as dataflow terms "
    "by value numbering, expanded entry by entry into rational functions of the parameters and of elementary functions, and compared: "
    "derivatives by differentiation, solutions of differential equations by inserting them, integrals with their exact value."
)
ASSUMPTIONS = [
    "NumPy and SciPy primitives compute what they document; rounding is not modelled.",
    "Integrands and integrals are decided for one to five dimensions and two points.",
    "Integrals that have no closed form (four problems with tabulated numbers) are not decided.",
]
Z = "probnum.problems.zoo."
C = const


def S(n):
    return R.sym(n)


def vec(name, n):
    return Arr((n,), [S(f"{name}{i}") for i in range(n)])


def mat(name, n, m):
    return Arr((n, m), [S(f"{name}{i}_{j}") for i in range(n) for j in range(m)])


def heads(r):
    out = set()

    def poly(p):
        for m in p:
            for a, e in m:
                if a[0] == "f":
                    out.add(a[1])
                    if a[1] == "exp":
                        poly({a[2]: 1})
                    elif a[1] == "pow":
                        poly(dict(a[2][0][0])), poly({a[2][1]: 1})
                    else:
                        poly(dict(a[2][0])), poly(dict(a[2][1]))
                elif a[0] == "s":
                    out.add(a)
    poly(r.num), poly(r.den)
    return out


class Job(Base):
    def function(self, sub, name):
        found = []
        for m in self.p.modules.values():
            if m.name.startswith(Z + sub) and name in m.functions:
                found.append(m.functions[name])
        return found[0] if found else None

    @staticmethod
    def fold(fr, fn, args, kwargs):
        nm = str(fn[1]).split(".")[-1] if fn[0] == "ext" else ""
        if nm == "range" and args and all(a[0] == "c" for a in args):
            return ("tup", tuple(("c", i) for i in range(*[a[1] for a in args])))
        if nm == "combinations" and len(args) == 2 and V.finite(args[0]) is not None and args[1][0] == "c":
            return ("tup", tuple(("tup", c) for c in itertools.combinations(V.finite(args[0]), args[1][1])))
        if nm in ("list", "tuple") and args and V.finite(args[0]) is not None:
            return ("list" if nm == "list" else "tup", tuple(V.finite(args[0])))
        if nm in ("remainder", "mod") and len(args) == 2 and all(a[0] == "c" and isinstance(a[1], int) for a in args) and args[1][1]:
            return ("c", args[0][1] % args[1][1])
        if nm in ("jacfwd", "jacrev", "jacobian", "hessian") and args:
            return ("deriv", args[0], 2 if nm == "hessian" else 1)
        if nm == "jit" and args:
            return args[0]
        if fn[0] == "deriv":
            f, k = fn[1], fn[2]
            while f[0] == "deriv":
                f, k = f[1], k + f[2]
            v = args[0] if args else next(iter(dict(kwargs).values()), None)
            if v is not None:
                return ("derivative", fr.call(f, (v,), ()), v, k)
        return None

    def decide(self, c):
        """Branches on parameters: given, scalar or tuple."""
        if c[0] == "is" and V.NONE in c[1:]:
            return False
        if c[0] == "cmp" and c[1] in ("is", "==") and V.NONE in c[2:]:
            return False
        return None

    # ------------------------------------------------------------ terms to entries
    def entries(self, t, env, sign=None):
        def extra(ev, t):
            if t[0] == "derivative":
                a, v = ev(t[1]), ev(t[2])
                names = [next(iter(x.num))[0][0][1] for x in v.xs]
                for _ in range(t[3]):
                    a = Arr(a.shape + v.shape, [R.diff(num(x), n) for x in a.xs for n in names])
                return a
            if t[0] == "call" and str(t[1]).split(".")[-1] == "factorial2":
                def f2(x):
                    v = num(x).value()
                    if v is None or v.denominator != 1 or v < -1:
                        raise R.Unknown("double factorial")
                    return C(math.prod(range(int(v), 0, -2)))
                return R.zipped(f2, ev(t[2][0]))
            if t[0] == "call" and str(t[1]).split(".")[-1] == "isnan":
                return R.zipped(lambda x: False, ev(t[2][0]))
            if t[0] == "call" and str(t[1]).split(".")[-1] == "atleast_2d":
                a = ev(t[2][0])
                return Arr((1,) * (2 - len(a.shape)) + a.shape, a.xs)
            return None
        return R.Eval(env, sign, extra)(V.strip_raise(t))

    def agree(self, where, f, what, got, ref, shape=True, known=()):
        """got, ref: Arr."""
        self.res.count("values compared with their definition")
        if shape and got.shape != ref.shape:
            if len(got.xs) == len(ref.xs) and {n for n in got.shape if n != 1} == {n for n in ref.shape if n != 1} and shape != "exact":
                pass
            else:
                self.res.add("problem", where, f"{what} has shape {got.shape}, expected {ref.shape}", **loc(f))
                return
        if len(got.xs) != len(ref.xs):
            raise R.Unknown("number of entries")
        hs = set().union(*(heads(num(x)) for x in ref.xs)) | set(known)
        for i, (x, y) in enumerate(zip(got.xs, ref.xs)):
            x, y = num(x), num(y)
            if x.same(y):
                continue
            if heads(x) - hs - {a for a in heads(x) if isinstance(a, tuple)}:
                raise R.Unknown(f"{what}: {sorted(h for h in heads(x) - hs if isinstance(h, str))}")
            self.res.add("problem", where, f"{what} differs from its definition in entry {i}: {str(R.show(x))[:160]} instead of {str(R.show(y))[:160]}", **loc(f))
            return

    def unit(self, f, name, run):
        self.res.count("problems analysed")
        try:
            run()
        except Exception as e:
            if os.environ.get("PNSA_TRACE"):
                raise
            self.res.undecided.append(f"{name}: {type(e).__name__} {e}")

    def build(self, f, env, decide=None, summ=None):
        both = (lambda *a: summ(*a) if summ(*a) is not None else self.fold(*a)) if summ else self.fold
        ev = self.eval(lambda c: (decide or self.decide)(c), summ=both)
        vn = ev.new_vn()
        r = V.strip_raise(vn.func(f, None, env))
        return vn, r

    def apply(self, vn, f, g, args):
        return V.strip_raise(V.Frame(vn, f, {}, None).call(g, tuple(args), ()))

    # ------------------------------------------------------------ initial value problems
    def ivp(self, sub, name, dim, params, field):
        for given in (True, False):
            self.ivp1(sub, name, dim, params, field, given)
        if len(params) == 1 and name.startswith("vanderpol"):
            self.ivp1(sub, name, dim, params, field, True, True)

    def ivp1(self, sub, name, dim, params, field, given, single=False):
        f = self.function(sub, name)
        if f is None:
            self.res.undecided.append(f"{name} not found")
            return
        where = f"initial value problem {name}"

        def run():
            t, y = S("t"), vec("z", dim)
            env = {"t": Arr((), [t]), "y0": vec("v", dim), "t0": Arr((), [S("t0")]), "tmax": Arr((), [S("tmax")])}
            for k in params:
                env[k] = Arr((), [S(k)])
            args = {a.arg: None for a in f.node.args.args}
            call = {}
            for a in args:
                if a in ("t0", "tmax"):
                    call[a] = sym(a)
                elif a == "y0":
                    call[a] = ("tup", tuple(sym(f"v{i}") for i in range(dim)))
                    for i in range(dim):
                        env[f"v{i}"] = Arr((), [S(f"v{i}")])
                elif a == "params":
                    call[a] = sym(params[0]) if single else ("tup", tuple(sym(k) for k in params))
                elif a == "num_variables":
                    call[a] = ("c", dim)
            ys = ("tup", tuple(sym(f"z{i}") for i in range(dim)))
            for i in range(dim):
                env[f"z{i}"] = Arr((), [S(f"z{i}")])

            def decide(c):
                if c[0] == "isinstance" or (c[0] == "call" and str(c[1]).endswith("isinstance")):
                    return single
                return self.decide(c)
            if not given and "y0" in call:
                call["y0"] = V.NONE
            vn, r = self.build(f, call, decide)
            d = new(r, "InitialValueProblem")
            if d is None:
                raise R.Unknown("no problem")
            self.res.count("obligations")
            for k in ("t0", "tmax"):
                if k in call:
                    self.agree(where, f, f"'{k}' of the problem", self.entries(d[k], env), env[k])
            if not given or "y0" not in call:
                y0 = self.entries(d["y0"], env)
                if y0.shape != (dim,):
                    self.res.add("problem", where, f"the default initial value has shape {y0.shape}, the vector field {dim} components", **loc(f))
                    return
                env["y0"] = y0
            else:
                self.agree(where, f, "the initial value of the problem", self.entries(d["y0"], env), env["y0"])
            rhs = self.entries(self.apply(vn, f, d["f"], (sym("t"), ys)), env)
            if rhs.shape != (dim,):
                raise R.Unknown("vector field")
            ref = [R.subs(x, {f"v{i}": env["y0"].xs[i] for i in range(dim)}) for x in field(y.xs, *[S(k) for k in params])] if name == "seir" else field(y.xs, *[S(k) for k in params])
            self.agree(where, f, "the vector field", rhs, Arr((dim,), ref))
            def derived(g, k):
                """Produced by automatic differentiation of the vector field."""
                term = self.apply(vn, f, g, (sym("t"), ys))
                if term[0] == "derivative" and term[2] == ys and term[3] == k:
                    self.res.count("obligations")
                    self.agree(where, f, "the differentiated vector field", self.entries(term[1], env), rhs)
                    return None
                return self.entries(term, env)
            if d.get("df") not in (None, V.NONE):
                got = derived(d["df"], 1)
                self.res.count("obligations")
                got is None or self.agree(where, f, "the Jacobian", got, Arr((dim, dim), [R.diff(x, f"z{j}") for x in rhs.xs for j in range(dim)]), known=self.near(rhs))
            if d.get("ddf") not in (None, V.NONE):
                got = derived(d["ddf"], 2)
                self.res.count("obligations")
                got is None or self.agree(where, f, "the second derivative", got, Arr((dim,) * 3, [R.diff(R.diff(x, f"z{j}"), f"z{k}") for x in rhs.xs for j in range(dim) for k in range(dim)]), shape=len(got.shape) == 3 or dim > 1, known=self.near(rhs))
            if d.get("solution") not in (None, V.NONE):
                sol = self.entries(self.apply(vn, f, d["solution"], (sym("t"),)), env)
                self.res.count("obligations", 2)
                table = {f"z{i}": sol.xs[i] for i in range(dim)}
                lhs = Arr((dim,), [R.diff(x, "t") for x in sol.xs])
                self.agree(where, f, "the derivative of the exact solution", lhs, Arr((dim,), [R.subs(x, table) for x in rhs.xs]), known={"exp", "expq"})
                self.agree(where, f, "the exact solution at the initial time", Arr((dim,), [R.subs(x, {"t": S("t0")}) for x in sol.xs]), env["y0"], known={"exp", "expq"})
        self.unit(f, where, run)

    @staticmethod
    def near(a):
        h = set().union(*(heads(num(x)) for x in a.xs))
        return {x for x in h if isinstance(x, str)} | ({"sin", "cos"} if h & {"sin", "cos"} else set())

    def ivps(self):
        def threebody(y):
            mu = C(Fraction("0.012277471"))
            mp = C(1) - mu
            d = lambda s: ((y[0] + s) * (y[0] + s) + y[1] * y[1]).power(C(Fraction(3, 2)))
            d1, d2 = d(mu), d(mp * C(-1))
            return [y[2], y[3], y[0] + C(2) * y[3] - mp * (y[0] + mu) / d1 - mu * (y[0] - mp) / d2, y[1] - C(2) * y[2] - mp * y[1] / d1 - mu * y[1] / d2]
        vdp = lambda y, m: [y[1], m * (C(1) - y[0] * y[0]) * y[1] - y[0]]
        self.ivp("diffeq", "threebody", 4, (), threebody)
        self.ivp("diffeq", "vanderpol", 2, ("mu",), vdp)
        self.ivp("diffeq", "rigidbody", 3, ("p1", "p2", "p3"), lambda y, a, b, c: [a * y[1] * y[2], b * y[0] * y[2], c * y[0] * y[1]])
        self.ivp("diffeq", "logistic", 1, ("a", "b"), lambda y, a, b: [a * y[0] * (C(1) - y[0] / b)])
        self.ivp("diffeq", "fitzhughnagumo", 2, ("a", "b", "c", "d"), lambda y, a, b, c, d: [y[0] - y[0].power(3) / C(3) - y[1] + a, (y[0] + b - c * y[1]) / d])
        self.ivp("diffeq", "lotkavolterra", 2, ("a", "b", "c", "d"), lambda y, a, b, c, d: [a * y[0] - b * y[0] * y[1], d * y[0] * y[1] - c * y[1]])

        def seir(y, a, b, c):
            n = S("v0") + S("v1") + S("v2") + S("v3")
            new = b * y[0] * y[2] / n
            return [new * C(-1), new - a * y[1], a * y[1] - c * y[2], c * y[2]]
        self.ivp("diffeq", "seir", 4, ("alpha", "beta", "gamma"), seir)
        self.ivp("diffeq", "lorenz63", 3, ("a", "b", "c"), lambda y, a, b, c: [a * (y[1] - y[0]), y[0] * (b - y[2]) - y[1], y[0] * y[1] - c * y[2]])
        for n in (4, 5, 6):
            self.ivp("diffeq", "lorenz96", n, ("F",), lambda y, c, n=n: [(y[(i + 1) % n] - y[i - 2]) * y[i - 1] - y[i] + c for i in range(n)])
        self.ivp("diffeq", "threebody_jax", 4, (), threebody)
        self.ivp("diffeq", "vanderpol_jax", 2, ("mu",), vdp)

    # ------------------------------------------------------------ quadrature
    def quad(self, name, dim, integrand, integral, env=None, sign=None, gauss=False, extra=None, solution=True, box=(0, 1), shape="exact", cases=None):
        f = self.function("quad", name)
        if f is None:
            self.res.undecided.append(f"{name} not found")
            return
        where = f"quadrature problem {name} in {dim} dimension{'s' if dim > 1 else ''}"

        def run():
            e = {"x": mat("x", 2, dim)}
            e.update(env or {})
            call = {}
            for a in (a.arg for a in f.node.args.args):
                if a == "dim":
                    call[a] = ("c", dim)
                elif a in e:
                    call[a] = sym(a)
            call.update(extra or {})

            def decide(c):
                r = self.decide(c)
                if r is not None:
                    return r
                try:
                    v = self.entries(c, {**e}, sign)
                    if v.shape == () and isinstance(v.xs[0], bool):
                        return v.xs[0]
                except Exception:
                    pass
                if c[0] == "isinstance" or (c[0] == "call" and str(c[1]).endswith("isinstance")):
                    return True
                return None
            vn, r = self.build(f, call, decide)
            d = new(r, "QuadratureProblem")
            if d is None:
                raise R.Unknown("no problem")
            for sg, ref in (cases or ((sign, integrand),)):
                got = self.entries(self.apply(vn, f, d["fun"], (sym("x"),)), e, sg)
                self.res.count("obligations")
                want = [ref([S(f"x{i}_{j}") for j in range(dim)]) for i in range(2)]
                self.agree(where, f, "the integrand", got, Arr((2, 1), want), shape=False, known=heads(integrand([S(f"x0_{j}") for j in range(dim)])))
                if got.shape not in ((2,), (2, 1)):
                    self.res.add("problem", where, f"integrand values at 2 points have shape {got.shape}", **loc(f))
            if solution and integral is not None:
                got = self.entries(d["solution"], e, sign)
                self.res.count("obligations")
                self.agree(where, f, "the value of the integral", got, Arr((), [integral]), shape=False, known={"exp", "sin", "cos"} if heads(integral) & {"exp", "sin", "cos"} else ())
            elif not solution and d["solution"] != V.NONE:
                self.res.add("problem", where, "a value of the integral is stated for parameters it was not computed for", **loc(f))
            m = d["measure"]
            g = new(m, "GaussianMeasure") if gauss else new(m, "LebesgueMeasure")
            if g is None:
                raise R.Unknown("measure")
            self.res.count("obligations")
            if gauss:
                mean = R.spread(self.entries(g["mean"], e, sign), (dim,))
                self.agree(where, f, "the mean of the measure", mean, Arr((dim,), [C(0)] * dim))
                cov = self.entries(g["cov"], e, sign)
                if cov.shape == ():
                    self.agree(where, f, "the covariance of the measure", cov, Arr((), [S("var")]))
                self.agree(where, f, "the dimension of the measure", self.entries(g["input_dim"], e, sign), R.scalar(dim))
            else:
                lo, hi = V.finite(g["domain"])
                for what, b, v in (("lower", lo, box[0]), ("upper", hi, box[1])):
                    got = R.spread(self.entries(b, e, sign), (dim,))
                    self.agree(where, f, f"the {what} end of the domain", got, Arr((dim,), [C(v)] * dim))
                if g.get("input_dim", V.NONE) != V.NONE:
                    self.agree(where, f, "the dimension of the domain", self.entries(g["input_dim"], e, sign), R.scalar(dim))
                if g.get("normalized", V.NONE) not in (V.NONE, ("c", False)):
                    self.res.add("problem", where, "the measure is normalised, the integral is not", **loc(f))
        self.unit(f, where, run)

    def quads(self):
        one = C(1)
        prod, tot = R.product, R.total
        for d in (1, 2, 3, 4, 5):
            a, u = [S(f"a{i}") for i in range(d)], [S(f"u{i}") for i in range(d)]
            au = {"a": vec("a", d), "u": vec("u", d)}
            I = range(d)
            small = {x.key() for x in u} | {S(f"x{i}_{j}").key() for i in range(2) for j in I}

            def unit(x, small=small):
                """0 < u, x < 1 and a > 0."""
                if x.key() in small or (C(1) - x).key() in small:
                    return True
                y = x * C(-1)
                if y.key() in small or (C(1) - y).key() in small:
                    return False
                return None
            ex = lambda x: fun("exp", x)
            self.quad("genz_continuous", d, lambda x: ex(tot(a[i] * fun("abs", x[i] - u[i]) for i in I) * C(-1)),
                      prod((C(2) - ex(a[i] * u[i] * C(-1)) - ex(a[i] * (u[i] - one))) / a[i] for i in I), au, unit)
            if d <= 4:
                subsets = [s for k in range(d + 1) for s in itertools.combinations(I, k)]
                tail = lambda s: tot(a[i] for i in I if i not in s)
                self.quad("genz_cornerpeak", d, lambda x: one / (one + tot(a[i] * x[i] for i in I)).power(C(d + 1)),
                          tot(C((-1) ** (len(s) + d)) / (one + tail(s)) for s in subsets) / prod(a) / C(math.factorial(d)) if d <= 3 else None, au, unit)
            if d <= 4:
                subsets = [s for k in range(d + 1) for s in itertools.combinations(I, k)]
                h = [lambda x: fun("cos", x), lambda x: fun("sin", x), lambda x: fun("cos", x) * C(-1), lambda x: fun("sin", x) * C(-1)][d % 4]
                self.quad("genz_oscillatory", d, lambda x: fun("cos", C(2) * S("pi") * u[0] + tot(a[i] * x[i] for i in I)),
                          tot(C((-1) ** len(s)) * h(C(2) * S("pi") * u[0] + tot(a[i] for i in I if i not in s)) for s in subsets) / prod(a), au, unit)

            def side(above, unit=unit):
                """sign of x - u: positive in the listed coordinates."""
                table = {}
                for i in range(2):
                    for j in range(len(u)):
                        table[(S(f"x{i}_{j}") - u[j]).key()] = j in above
                        table[(u[j] - S(f"x{i}_{j}")).key()] = j not in above
                return lambda x: table.get(x.key(), unit(x))
            full = lambda x: ex(tot(a[i] * x[i] for i in I))
            cases = [(side(()), full)] + [(side((j,)), lambda x: C(0)) for j in I]
            self.quad("genz_discontinuous", d, full, prod((ex(a[i] * u[i]) - one) / a[i] for i in I), au, unit, cases=cases)
            r2 = C(2).power(C(Fraction(1, 2)))
            self.quad("genz_gaussian", d, lambda x: ex(tot((a[i] * (x[i] - u[i])).power(2) for i in I) * C(-1)),
                      S("pi").power(C(Fraction(d, 2))) * prod((fun("cdf", r2 * a[i] * (one - u[i])) - fun("cdf", r2 * a[i] * u[i] * C(-1))) / a[i] for i in I), au, unit)
            if d <= 3:
                self.quad("genz_productpeak", d, lambda x: prod(one / (one / (a[i] * a[i]) + (x[i] - u[i]) * (x[i] - u[i])) for i in I),
                          prod(a[i] * (fun("arctan", a[i] * (one - u[i])) + fun("arctan", a[i] * u[i])) for i in I), au, unit)
            self.quad("bratley1992", d, lambda x: tot(C((-1) ** (i + 1)) * prod(x[:i + 1]) for i in I), tot(C(Fraction(-1, 2) ** (i + 1)) for i in I), {}, unit)
            four = lambda v: fun("abs", C(4) * v - C(2))
            self.quad("roos_arnold", d, lambda x: prod(four(v) for v in x), one, {}, unit)
            c = [C(Fraction(i - 1, 2)) for i in I]
            self.quad("gfunction", d, lambda x: prod((four(x[i]) + c[i]) / (one + c[i]) for i in I), one, {}, unit)
            self.quad("morokoff_caflisch_1", d, lambda x: C((Fraction(d + 1, d)) ** d) * prod(v.power(C(Fraction(1, d))) for v in x), one, {}, unit)
            self.quad("morokoff_caflisch_2", d, lambda x: prod(C(d) - v for v in x) / C((Fraction(2 * d - 1, 2)) ** d), one, {}, unit)
        for d, rows in ((1, ((2,), (1,), (4,), (0,))), (2, ((2, 4), (0, 2), (1, 2), (3, 0))), (3, ((2, 2, 2), (4, 0, 6)))):
            p = len(rows)
            env = {"a": mat("a", p, d), "b": Arr((p, d), [C(k) for r in rows for k in r]), "var": Arr((), [S("var")])}
            mom = lambda k: C(0) if k % 2 else S("var").power(C(k // 2)) * C(math.prod(range(k - 1, 0, -2)))
            self.quad("sum_polynomials", d, lambda x: R.total(R.product(S(f"a{j}_{i}") * x[i].power(C(rows[j][i])) for i in range(d)) for j in range(p)),
                      R.total(R.product(S(f"a{j}_{i}") * mom(rows[j][i]) for i in range(d)) for j in range(p)), env, gauss=True)
        ex = lambda x: fun("exp", x)
        sq = lambda x: x * x
        self.quad("hennig1d", 1, lambda x: ex(C(-1) * sq(x[0]) - sq(fun("sin", C(3) * x[0]))), None, box=(-3, 3))
        cm = mat("c", 2, 2)
        self.quad("hennig2d", 2, lambda x: ex(C(-1) * R.total(x[i] * cm.at((i, j)) * x[j] for i in range(2) for j in range(2)) - fun("sin", C(3) * (sq(x[0]) + sq(x[1])))), None, {"c": cm}, box=(-3, 3), solution=False)
        root = lambda x: x.power(C(Fraction(1, 2)))
        rad = lambda x: root(sq(x[0]) + sq(x[1]))
        self.quad("sombrero2d", 2, lambda x: fun("sin", S("pi") * S("w") * rad(x)) / (S("pi") * S("w") * rad(x)), None, {"w": Arr((), [S("w")])}, lambda x: True if x.key() == S("w").key() else None, box=(-3, 3), solution=False)
        self.quad("circulargaussian2d", 2, lambda x: sq(rad(x)) * ex(C(-1) * sq(rad(x) - S("m")) / (C(2) * S("v"))) / root(C(2) * S("pi") * S("v")), None, {"m": Arr((), [S("m")]), "v": Arr((), [S("v")])},
                  lambda x: True if x.key() in (S("v").key(), S("m").key()) else False if (x * C(-1)).key() in (S("v").key(), S("m").key()) else None, box=(-3, 3), solution=False)

    def transformed(self):
        """Change of variables from the unit cube to a Gaussian measure."""
        f = self.function("quad", "uniform_to_gaussian_quadprob")
        if f is None:
            self.res.undecided.append("uniform_to_gaussian_quadprob not found")
            return
        where = "transformed quadrature problem"
        d = 2
        for vector in (False, True):
            def run():
                q = sym("quadprob")
                env = {"x": mat("x", 2, d), "lower": vec("l", d), "mean": vec("m", d) if vector else Arr((), [S("mean")]), "std": vec("s", d) if vector else Arr((), [S("std")])}

                def decide(c):
                    r = self.decide(c)
                    if r is None and (c[0] == "isinstance" or (c[0] == "call" and str(c[1]).endswith("isinstance"))):
                        return vector
                    try:
                        v = self.entries(c, env)
                        return v.xs[0] if r is None and v.shape == () and isinstance(v.xs[0], bool) else r
                    except Exception:
                        return r
                seen = []

                def summ(fr, fn, args, kwargs):
                    if fn[0] in ("at", "bound", "m") and fn[-1] == "fun" or fn == ("at", q, "fun"):
                        seen.append(args[0])
                        return ("applied", args[0])
                    return None
                vn, r = self.build(f, {"quadprob": q, "mean": sym("mean"), "std": sym("std")}, decide, summ)
                p = new(r, "QuadratureProblem")
                if p is None:
                    raise R.Unknown("no problem")
                self.res.count("obligations", 3)
                if p["solution"] != ("at", q, "solution"):
                    if V.contains(p["solution"], lambda t: t == ("at", q, "solution")) or p["solution"][0] == "c":
                        self.res.add("problem", where, "the value of the integral is not the one of the original problem", **loc(f))
                    else:
                        raise R.Unknown("solution")
                t = self.apply(vn, f, p["fun"], (sym("x"),))
                if t[0] != "applied":
                    raise R.Unknown("integrand")
                got = self.entries(t[1], env)
                m, sd = R.spread(env["mean"], (2, d)), R.spread(env["std"], (2, d))
                self.agree(where, f, "the point handed to the original integrand", got, R.zipped(lambda x, m, s: fun("cdf", (x - m) / s), env["x"], m, sd))
                g = new(p["measure"], "GaussianMeasure")
                if g is None:
                    raise R.Unknown("measure")
                self.agree(where, f, "the mean of the measure", self.entries(g["mean"], env), env["mean"])

                cov = self.entries(self.sized(g["cov"], q, d) if vector else g["cov"], env)
                ref = R.build((d, d), lambda i: S(f"s{i[0]}").power(2) if i[0] == i[1] else C(0)) if vector else Arr((), [S("std").power(2)])
                self.agree(where, f, "the covariance of the measure", cov, ref)
            self.unit(f, where, run)

    @staticmethod
    def sized(t, q, d):
        """Lengths read off the original problem are d."""
        def one(x):
            if not x or not isinstance(x[0], str):
                return x
            if x[0] == "idx" and x[1][0] == "at" and x[1][2] == "shape" and V.contains(x, lambda n: n == q):
                return ("c", d)
            if x[0] == "at" and x[2:] == ("input_dim",) and V.contains(x, lambda n: n == q):
                return ("c", d)
            return x
        return V.subst(t, one)

    # ------------------------------------------------------------ state space models
    def statespace(self):
        for name in ("pendulum", "benes_daum", "car_tracking", "ornstein_uhlenbeck"):
            f = self.function("filtsmooth", name)
            if f is None:
                self.res.undecided.append(f"{name} not found")
                continue
            where = f"regression problem {name}"

            def run():
                calls = []

                def summ(fr, fn, args, kwargs):
                    if fn[0] == "pfunc" and str(fn[1]).split(".")[-1] == "generate_artificial_measurements":
                        calls.append({**dict(zip(("rng", "prior_process", "measmod", "times"), args)), **dict(kwargs)})
                        return ("tup", (sym("states"), sym("observations")))
                    return None
                vn, r = self.build(f, {a.arg: sym(a.arg) for a in f.node.args.args}, None, summ)
                pair = V.finite(r)
                p = new(pair[0], "TimeSeriesRegressionProblem") if pair else None
                if p is None or len({repr(sorted(c.items())) for c in calls}) != 1:
                    raise R.Unknown("no problem")
                c = calls[0]
                self.res.count("obligations", 4)
                for k, want, what in (("observations", sym("observations"), "observations"), ("solution", sym("states"), "true states"), ("locations", c["times"], "locations at which the data was generated"), ("measurement_models", c["measmod"], "measurement model that generated the data")):
                    if p[k] != want:
                        if p[k] in (sym("observations"), sym("states"), V.NONE) or p[k][0] in ("new", "s", "idx", "bin"):
                            self.res.add("problem", where, f"the problem does not state the {what}", **loc(f))
                        else:
                            raise R.Unknown(k)
                if c.get("rng") != sym("rng"):
                    self.res.add("problem", where, "data is not generated with the given random number generator", **loc(f))
                info = pair[1]
                procs = {x for x in self.news(info, ("MarkovProcess", "MarkovSequence"))}
                gen = new(c["prior_process"], "MarkovProcess") or new(c["prior_process"], "MarkovSequence")
                if gen is None or len(procs) != 1:
                    raise R.Unknown("prior process")
                prior = dict(next(iter(procs))[2])
                self.res.count("obligations", 3)
                for k, what in (("initrv", "initial distribution"), ("initarg", "initial time")):
                    if prior[k] != gen[k]:
                        self.res.add("problem", where, f"data is generated with another {what} than the stated prior has", **loc(f))
                if prior["transition"] != gen["transition"] and not V.contains(gen["transition"], lambda t: t == prior["transition"]):
                    self.res.add("problem", where, "data is generated with other dynamics than the stated prior has", **loc(f))
                if prior["initrv"] != sym("initrv"):
                    self.res.add("problem", where, "the given initial distribution is not used", **loc(f))
                env = {"t": Arr((), [S("t")]), "step": Arr((), [S("step")]), "measurement_variance": Arr((), [S("measurement_variance")]), "process_diffusion": Arr((), [S("process_diffusion")])}
                for m in self.news(r, ("NonlinearGaussian", "SDE")):
                    d = dict(m[2])
                    g, dg = (d["transition_fun"], d["transition_fun_jacobian"]) if "transition_fun" in d else (d["drift_function"], d["drift_jacobian"])
                    n = d.get("input_dim", d.get("state_dimension"))[1]
                    for i in range(n):
                        env[f"z{i}"] = Arr((), [S(f"z{i}")])
                    env["zz"] = vec("z", n)
                    x = ("tup", tuple(sym(f"z{i}") for i in range(n)))
                    v = self.entries(self.apply(vn, f, g, (sym("t"), x)), env)
                    if dg in (None, V.NONE):
                        continue
                    self.res.count("obligations")
                    self.agree(where, f, "the Jacobian", self.entries(self.apply(vn, f, dg, (sym("t"), x)), env), Arr((len(v.xs), n), [R.diff(num(e), f"z{j}") for e in v.xs for j in range(n)]), known=self.near(v))
            self.unit(f, where, run)

    @staticmethod
    def news(t, names):
        out = set()

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == "new" and isinstance(x[1], str) and x[1].split(".")[-1] in names:
                    out.add(x)
                for y in x:
                    walk(y)
        walk(t)
        return out

    # ------------------------------------------------------------ linear systems
    def linear(self):
        f = self.function("linalg", "random_linear_system")
        where = "random linear system"

        def run(isarray, given):
            def decide(c):
                if c[0] == "is" or (c[0] == "cmp" and c[1] in ("is", "==") and V.NONE in c[2:]):
                    return not given if sym("solution_rv") in c else False
                if c[0] == "isinstance" or (c[0] == "call" and str(c[1]).endswith("isinstance")):
                    return isarray if V.contains(c, lambda t: t == sym("matrix")) else None
                return None
            vn, r = self.build(f, {"rng": sym("rng"), "matrix": sym("matrix"), "solution_rv": sym("solution_rv")}, decide)
            d = new(r, "LinearSystem")
            if d is None:
                raise R.Unknown("no system")
            self.res.count("obligations", 2)
            b = d["b"]
            if b[0] == "m" and b[2] in ("dot", "__matmul__") and len(b[3]) == 1:
                b = ("bin", "@", b[1], b[3][0])
            if b[0] == "call" and str(b[1]).split(".")[-1] in ("matmul", "dot") and len(b[2]) == 2:
                b = ("bin", "@") + tuple(b[2])
            if b != ("bin", "@", d["A"], d["solution"]):
                parts = {d["A"], d["solution"], ("T", d["A"])}
                if b in parts or (b[0] == "bin" and (b[2] in parts or b[3] in parts)):
                    self.res.add("problem", where, "the right-hand side is not the system matrix applied to the solution", **loc(f))
                else:
                    raise R.Unknown("right-hand side")
            if isarray and d["A"] != sym("matrix") and d["A"][0] in ("T", "bin"):
                self.res.add("problem", where, "the given matrix is not the system matrix", **loc(f))
        if f is not None:
            for isarray in (True, False):
                for given in (True, False):
                    self.unit(f, where, lambda: run(isarray, given))
        f = self.function("linalg", "random_spd_matrix")
        if f is not None:
            for n in (1, 2, 3):
                def spd():
                    vn, r = self.build(f, {"rng": sym("rng"), "dim": ("c", n), "spectrum": sym("spectrum")})
                    o = mat("o", n, n)

                    def extra(ev, t):
                        if t[0] == "call" and "ortho_group" in str(t[1]) or t[0] == "m" and "ortho_group" in str(t[1]) and t[2] == "rvs":
                            return o
                        return None
                    got = R.Eval({"spectrum": vec("e", n)}, None, extra)(r)
                    ref = R.build((n, n), lambda i: R.total(o.at((i[0], k)) * S(f"e{k}") * o.at((i[1], k)) for k in range(n))) if n > 1 else Arr((1, 1), [S("e0")])
                    self.res.count("obligations")
                    self.agree("random symmetric positive definite matrix", f, "the matrix with the given spectrum", got, ref, shape="exact")
                self.unit(f, "random_spd_matrix", spd)
        f = self.function("linalg", "random_sparse_spd_matrix")
        if f is not None:
            for n in (2, 3):
                for some in (True, False):
                    def sparse():
                        def decide(c):
                            if V.contains(c, lambda t: t == sym("density")) and c[0] == "cmp":
                                if c[2][0] == "c" and c[2][1] == 0 and c[1] == "<" and c[3] != sym("density"):
                                    return some
                            return self.decide(c)
                        vn, r = self.build(f, {a.arg: ("c", n) if a.arg == "dim" else sym(a.arg) for a in f.node.args.args}, decide)

                        def extra(ev, t):
                            nm = str(t[1]).split(".")[-1] if t[0] == "call" else t[2] if t[0] == "m" else ""
                            if nm in ("rand", "random") and t[0] == "call" and "sparse" in str(t[1]):
                                return mat("r", n, n)
                            if nm in ("tril", "triu") and t[0] == "call":
                                kw = dict(t[3])
                                a = ev(kw["A"] if "A" in kw else t[2][0])
                                k = ev.static(kw["k"] if "k" in kw else t[2][1] if len(t[2]) > 1 else ("c", 0))
                                return R.build((n, n), lambda i: num(a.at(i)) if (i[1] - i[0] <= k if nm == "tril" else i[1] - i[0] >= k) else C(0))
                            if nm in ("asformat", "tocsr", "tocsc", "tocoo"):
                                return ev(t[1])
                            return None
                        got = R.Eval({}, None, extra)(V.strip_raise(r))
                        self.res.count("obligations")
                        where = "random sparse symmetric positive definite matrix"
                        for i, j in itertools.combinations(range(n), 2):
                            if not num(got.at((i, j))).same(num(got.at((j, i)))):
                                self.res.add("problem", where, "the matrix is not symmetric", **loc(f))
                                return
                        # leading principal minors of L L^T with unit triangular L are one
                        if n == 2:
                            det = num(got.at((0, 0))) * num(got.at((1, 1))) - num(got.at((0, 1))) * num(got.at((1, 0)))
                            if not det.same(C(1)):
                                self.res.add("problem", where, "the matrix is not the product of a unit triangular factor with its transpose", **loc(f))
                    self.unit(f, "random_sparse_spd_matrix", sparse)


def check(ctx, res):
    j = Job(ctx, res)
    j.linear()
    j.statespace()
    j.transformed()
    j.ivps()
    j.quads()
