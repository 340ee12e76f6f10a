"""C18: probabilistic linear solvers (iteration, actions, observations, belief updates, stopping)."""
from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from .. import alg as A
from .. import vn as V
from ..common import loc, public_class
from ..oblig import SELF, Eval, compare, heads, pretty

LEVEL = "proof-of-formula"
EXPLANATION = (
    "Actions, observations, residuals, belief updates, stopping decisions and the order of operations of an iteration are computed as "
    "dataflow terms by value numbering, for states after zero, one and two steps, and compared in the normal form of a matrix algebra "
    "(vectors, outer and inner products) with exact Gaussian conditioning and the conjugate-gradient recursions."
)
ASSUMPTIONS = [
    "NumPy, SciPy and linear-operator primitives compute what they document (linear operators: property C13, random variables: property C14).",
    "Floating-point rounding is not modelled; iterations beyond the second follow from the same code with the state of the previous step.",
]
LS = "probnum.linalg.solvers."
NP = {"np": ("ext", "numpy")}
S, P, Ax, b = ("s", "solver_state"), ("s", "problem"), ("s", "A"), ("s", "b")


def sym(x):
    return ("s", x)


def at(x, *names):
    for n in names:
        x = ("at", x, n)
    return x


U = ("unit axis",)


class VAlg(A.Alg):
    """Matrix algebra with vectors: an array with one axis is kept as a column, inner products are scalars.

    `planar`: all vectors are matrices with one column, so that transposes and products are taken literally."""

    def __init__(self, vector, scalar, symmetric, sem, planar=False):
        super().__init__(scalar=scalar, symmetric=symmetric, sem=sem)
        self.vector, self.planar = vector, planar

    def is_scalar_atom(self, a):
        return a[0] == "dot" or super().is_scalar_atom(a)

    def reduce_word(self, w):
        w = list(w)
        if len(w) > 1:
            w = [l for l in w if l[0] != A.I] or [(A.I, False, False)]
        k = 0
        while k + 1 < len(w):
            if w[k][0] == U and w[k + 1][0] == U and w[k][1] != w[k + 1][1]:
                del w[k:k + 2]
                k = max(k - 1, 0)
            else:
                k += 1
        if not w:
            return self.const(1)
        rows = None
        for j, (a, t, i) in enumerate(w):
            if not self.vector(a) or i:
                continue
            if t:
                rows = j
            elif rows is not None:
                u = tuple(w[rows:j + 1])
                v = tuple(self.flipT(l) for l in reversed(u))
                u = min(u, v, key=repr)
                rest = w[:rows] + w[j + 1:]
                d = self.atom(("dot", u))
                return self.mul(d, self.reduce_word(tuple(rest))) if rest else d
        return super().reduce_word(tuple(w))

    def kind(self, p):
        """r: row, c: column (arrays with one axis), m: anything else."""
        ks = set()
        for m in p:
            w = self.split(m)[1]
            if not w:
                return "m"
            (a, t, i), (a2, t2, i2) = w[0], w[-1]
            r, c = self.vector(a) and t and not i, self.vector(a2) and not t2 and not i2
            ks.add("r" if r and not c else "c" if c and not r else "m")
        return ks.pop() if len(ks) == 1 else "m"

    def mm(self, a, b):
        if not self.planar and self.kind(a) == "c":
            a = self.T(a)
        r = self.matmul(a, b)
        return self.T(r) if not self.planar and self.kind(r) == "r" else r

    def tr(self, a):
        return a if not self.planar and self.kind(a) == "c" else self.T(a)


class Case:
    def __init__(self, vectors=(), scalars=(), symmetric=(), sem=None, vec=None, planar=False):
        self.v, self.s, self.y = set(vectors), set(scalars), set(symmetric)
        self.sem, self.vec, self.planar = sem, vec, planar

    def factory(self, asg):
        def vector(a):
            return a in self.v or bool(self.vec and self.vec(a))

        def scalar(a):
            if a in self.s:
                return True
            return a[0] in ("f", "call") and str(a[1]) in SCALARS
        return VAlg(vector, scalar, lambda a: a in self.y or a[0] == "dot", self.sem or Sem(), self.planar)

    def consistent(self, asg):
        return not any(v and k[0] == "exc" for k, v in asg.items())


SCALARS = {"numpy.linalg.norm", "linalg.norm", "numpy.abs", "numpy.sqrt", "trace", "numpy.log", "numpy.exp"}
SAME = ("numpy.squeeze", "numpy.ravel", "numpy.real_if_close", "numpy.atleast_1d", "numpy.asarray", "numpy.array")


class Sem:
    """x[:, None] is the column, x[None, :] the row of a vector; np.outer is column times row."""

    def __call__(self, t, alg):
        h = t[0]
        if h == "bin" and t[1] == "@":
            return alg.mm(alg.nf(t[2]), alg.nf(t[3]))
        if h == "T":
            return alg.tr(alg.nf(t[1]))
        if h == "idx" and t[2][0] == "tup" and len(t[2][1]) == 2:
            k = [":" if x[0] == "slice" and all(y == V.NONE for y in x[1:]) else "n" if x == V.NONE else "?" for x in t[2][1]]
            x = alg.nf(t[1])
            if not x:
                return x
            if k in ([":", "n"], ["n", ":"]) and alg.kind(x) == "c":
                x = alg.matmul(x, {((((U, False, False),), Fraction(1)),): Fraction(1)})
                return x if k[0] == ":" else alg.T(x)
        if h == "call" and isinstance(t[1], str):
            if t[1] == "numpy.outer" and len(t[2]) == 2:
                return alg.matmul(alg.nf(t[2][0]), alg.T(alg.nf(t[2][1])))
            if t[1] in SAME and len(t[2]) >= 1:
                return alg.nf(t[2][0])
            if t[1] in ("numpy.dot", "numpy.inner", "numpy.vdot", "numpy.matmul") and len(t[2]) == 2:
                return alg.mm(alg.nf(t[2][0]), alg.nf(t[2][1]))
            if t[1] in ("numpy.linalg.norm", "linalg.norm"):
                kw = dict(t[3])
                o = kw.pop("ord", t[2][1] if len(t[2]) > 1 else V.NONE)
                if o in (V.NONE, ("c", 2)) and not kw:
                    x = alg.nf(t[2][0])
                    d = alg.matmul(alg.T(x), x)
                    if all(self.inner(alg, m) for m in d):
                        return alg.epow(d, Fraction(1, 2))
        if h == "m" and t[2] in ("ravel", "flatten", "item", "squeeze", "todense") and not t[3]:
            return alg.nf(t[1])
        if h == "m" and t[2] == "dot" and len(t[3]) == 1:
            return alg.mm(alg.nf(t[1]), alg.nf(t[3][0]))
        return None

    @staticmethod
    def inner(alg, m):
        return alg.split(m)[1] is None


class Truth:
    """Boolean values as formulas over comparisons in normal form."""

    def __init__(self, alg):
        self.alg = alg

    def go(self, t):
        h = t[0]
        if h == "c":
            return bool(t[1])
        if h == "not":
            x = self.go(t[1])
            return ("not", x)
        if h in ("and", "or"):
            return (h, tuple(self.go(x) for x in t[1:]))
        if h == "phi":
            c = self.go(t[1])
            return ("or", (("and", (c, self.go(t[2]))), ("and", (("not", c), self.go(t[3])))))
        if h == "call" and str(t[1]).split(".")[-1] in ("bool", "bool_") and len(t[2]) == 1:
            return self.go(t[2][0])
        if h == "call" and str(t[1]).split(".")[-1] in ("logical_or", "logical_and") and len(t[2]) == 2:
            return (t[1].split("_")[-1], tuple(self.go(x) for x in t[2]))
        if h == "cmp" and t[1] in ("<", "<=", ">", ">="):
            op, x, y = t[1], t[2], t[3]
            if op in (">", ">="):
                op, x, y = op.replace(">", "<"), y, x
            for side, other in ((y, "y"), (x, "x")):
                f = side[1].split(".")[-1] if side[0] == "call" and isinstance(side[1], str) else None
                if f in ("max", "min", "maximum", "minimum", "amax", "amin", "fmax", "fmin"):
                    xs = side[2] if len(side[2]) > 1 else V.finite(side[2][0]) if side[2] else None
                    if xs:
                        big = "max" in f
                        any_ = big if other == "y" else not big
                        return ("or" if any_ else "and", tuple(self.go(("cmp", op, x, z) if other == "y" else ("cmp", op, z, y)) for z in xs))
            a, b_ = self.alg.nf(x), self.alg.nf(y)
            if op == "<":
                return ("not", self.leaf(b_, a))
            return self.leaf(a, b_)
        return ("leaf", ("other", repr(t)), None)

    def leaf(self, a, b_):
        """a <= b"""
        d = self.alg.add(a, b_, -1)
        return ("leaf", self.alg.key(d), (a, b_))

    @staticmethod
    def leaves(f, out):
        if isinstance(f, tuple):
            if f[0] == "leaf":
                out[f[1]] = f[2]
            elif f[0] == "not":
                Truth.leaves(f[1], out)
            else:
                for x in f[1]:
                    Truth.leaves(x, out)
        return out

    @staticmethod
    def val(f, asg):
        if isinstance(f, bool):
            return f
        if f[0] == "leaf":
            return asg[f[1]]
        if f[0] == "not":
            return not Truth.val(f[1], asg)
        vs = [Truth.val(x, asg) for x in f[1]]
        return all(vs) if f[0] == "and" else any(vs)


class Job:
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res
        self.state = public_class(self.p, LS + "LinearSolverState")

    def eval(self, oracle=None, opaque=(), summaries=None, types=None):
        ev = Eval(self.p, opaque=set(opaque), types={S: self.state, **(types or {})}, records={"Normal": {"mean": "mean", "cov": "cov"}})
        def orc(c):
            if c[0] == "cmp" and c[2][0] == c[3][0] == "c" and all(isinstance(x[1], (int, float)) for x in c[2:4]):
                x, y = c[2][1], c[3][1]
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}.get(c[1])
            if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2][0] not in ("s", "c", "at", "phi"):
                return False
            return oracle(c) if oracle is not None else None
        ev.oracle, ev.summaries = orc, summaries
        return ev

    def decide(self, what, f, impl, refs, case, known=(), max_conds=8):
        res = self.res
        res.count("obligations")
        impl = V.strip_raise(impl) if impl is not None else None
        if impl is None:
            res.undecided.append(f"{what}: no value")
            return
        try:
            v = compare(impl, refs, case.factory, max_conds=max_conds, consistent=case.consistent, known_heads=set(known))
        except (A.TooBig, RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
            res.undecided.append(f"{what}: {type(e).__name__}")
            return
        res.count("branch assignments", v.leaves)
        if v.kind == "equal":
            res.count("obligations decided")
        elif v.kind == "differs":
            res.add("formula", f"{f.qual}: {what}", f"{what} {v.detail}", **loc(f))
        else:
            res.undecided.append(f"{f.qual} {what}: {v.detail}")

    def truth(self, what, f, impl, ref, case, vocabulary=()):
        """The decision `impl` is made exactly when `ref` holds."""
        res = self.res
        res.count("obligations")
        if impl is None or ref is None:
            res.undecided.append(f"{what}: no value")
            return
        alg = case.factory({})
        T = Truth(alg)
        fi, fr = T.go(V.strip_raise(impl)), T.go(ref)
        li, lr = T.leaves(fi, {}), T.leaves(fr, {})
        known = set()
        for x in lr.values():
            known |= heads(alg.key(x[0])) | heads(alg.key(x[1]))
        alias = {}
        for k, x in li.items():
            if k in lr:
                continue
            if x is None:
                res.undecided.append(f"{f.qual} {what}: unknown condition {str(k)[:120]}")
                return
            for r, y in lr.items():
                for e in (2, Fraction(1, 2)):
                    if all(alg.key(alg.epow(p, Fraction(e))) == alg.key(q) for p, q in zip(x, y)):
                        alias[k] = r
            odd = (heads(alg.key(x[0])) | heads(alg.key(x[1]))) - known - set(vocabulary)
            if k not in alias and odd:
                res.undecided.append(f"{f.qual} {what}: constructs outside the rule's vocabulary: {sorted(odd)}"[:300])
                return
        names = list(dict.fromkeys([alias.get(k, k) for k in li] + list(lr)))
        if len(names) > 10:
            res.undecided.append(f"{f.qual} {what}: {len(names)} conditions")
            return
        for bits in itertools.product((True, False), repeat=len(names)):
            asg = dict(zip(names, bits))
            asg.update({k: asg[v] for k, v in alias.items()})
            if T.val(fi, asg) != T.val(fr, asg):
                show_ = {k: pretty(v[0])[:80] + " <= " + pretty(v[1])[:80] for k, v in {**lr, **li}.items() if v is not None}
                when = "; ".join(("" if b_ else "not ") + show_.get(k, str(k)) for k, b_ in zip(names, bits))
                res.add("formula", f"{f.qual}: {what}", f"{what} is {T.val(fi, asg)}, must be {T.val(fr, asg)}, when {when[:300]}", **loc(f))
                return
        res.count("obligations decided")

    def fact(self, what, f, ok, detail=""):
        """ok: True holds, False violated, None not decided."""
        self.res.count("obligations")
        if ok is None:
            self.res.undecided.append(f"{f.qual} {what}: {detail}")
        elif ok:
            self.res.count("obligations decided")
        else:
            self.res.add("formula", f"{f.qual}: {what}", f"{what}: {detail}", **loc(f))

    # ------------------------------------------------------------ states of the solver
    def run(self, vn, src, env):
        """Statements, evaluated in the module of the state class; returns the environment afterwards."""
        f = self.state.find("__init__")
        fr = V.Frame(vn, f, dict(env), self.state)
        fr.block(ast.parse(src).body)
        return fr.env

    def heap_after(self, vn, k):
        """Heap of a solver state after k iterations."""
        f = self.state.find("__init__")
        env = {f.self_name: S, "problem": P, "prior": sym("belief0"), ("@", P, "A"): Ax, ("@", P, "b"): b}
        vn.body(f, env, self.state)
        heap = {x: v for x, v in (vn.last_env or {}).items() if isinstance(x, tuple)}
        for i in range(k):
            e = {**heap, "state": S, "a": sym(f"a{i}"), "o": sym(f"o{i}"), "nb": sym(f"belief{i + 1}")}
            env = self.run(vn, "r = state.residual\nstate.action = a\nstate.observation = o\nstate.belief = nb\nstate.next_step()", e)
            heap = {x: v for x, v in env.items() if isinstance(x, tuple)}
        return heap


def residual(k):
    return ("bin", "-", b, ("bin", "@", Ax, at(sym(f"belief{k}"), "x", "mean")))


def vec(a):
    """x.mean of a belief, actions, observations of matrix-vector type."""
    return (a[0] == "at" and a[2] == "mean" and a[1][0] == "at" and a[1][2] == "x")


VECTORS = {b} | {sym(f"a{i}") for i in range(4)} | {sym(f"v{i}") for i in range(4)}


def states(J):
    """After k steps the state holds the k actions and observations, the current belief and its residual."""
    cls = J.state
    f = cls.find("next_step") or cls.find("__init__")
    for k in (0, 1, 2):
        ev = J.eval(oracle=notnone)
        vn = ev.new_vn()
        vn.setters = True
        heap = J.heap_after(vn, k)
        e = J.run(vn, "step = state.step\nresidual = state.residual\nprior = state.prior\nbelief = state.belief\naction = state.action\n"
                      "observation = state.observation\nactions = state.actions\nobservations = state.observations\nproblem = state.problem\nresiduals = state.residuals", {**heap, "state": S})
        case = Case(VECTORS, vec=vec)
        J.decide(f"residual after {k} steps", cls.find("residual") or f, e["residual"], [residual(k)], case)
        want = {"step": ("c", k), "prior": sym("belief0"), "belief": sym(f"belief{k}"), "problem": P, "action": V.NONE, "observation": V.NONE}
        for n, w in want.items():
            J.fact(f"{n} after {k} steps", cls.find(n) or f, same(e[n], w), f"{show(e[n])} instead of {show(w)}")
        for n, pre in (("actions", "a"), ("observations", "o")):
            xs = V.finite(e[n])
            w = [sym(f"{pre}{i}") for i in range(k)]
            got = None if xs is None else [x for x in xs if x != V.NONE]
            J.fact(f"{n} after {k} steps", cls.find(n) or f, None if got is None else True if got == w else False if all(x[0] == "s" for x in got) else None,
                   f"{got} instead of {w}")
        xs = V.finite(e["residuals"])
        for i in range(k + 1 if xs is not None else 0):
            if i < len(xs):
                J.decide(f"stored residual {i} after {k} steps", cls.find("residuals") or f, xs[i], [residual(i)], case)
        # the state of the current step, before the belief is replaced
        e2 = J.run(vn, "state.action = a\nstate.observation = o\nact = state.action\nobs = state.observation", {**heap, "state": S, "a": sym("new a"), "o": sym("new o")})
        J.fact(f"action set in step {k}", cls.find("action") or f, same(e2["act"], sym("new a")), show(e2["act"]))
        J.fact(f"observation set in step {k}", cls.find("observation") or f, same(e2["obs"], sym("new o")), show(e2["obs"]))


def notnone(c):
    if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2][0] in ("s", "at"):
        return False
    return None


def same(x, w):
    if x == w:
        return True
    return False if x[0] in ("s", "c") else None


def show(t):
    return str(t[1]) if t[0] in ("s", "c") else str(t)[:80]


def iteration(J):
    """Order of operations of the solver loop, on the state of the class that the solver uses."""
    cls = public_class(J.p, LS + "ProbabilisticLinearSolver")
    f = cls.find("solve_iterator")
    for stop in (0, 1, 2):
        log = []
        ev = J.eval(oracle=notnone)
        pol, info, upd, crit = (sym(x) for x in ("policy", "information_op", "belief_update", "stopping_criterion"))
        prior, prob, rng = sym("belief0"), P, sym("rng")
        heap0 = None

        def snap(fr):
            h = {x: v for x, v in fr.env.items() if isinstance(x, tuple)}
            fr2 = V.Frame(fr.vn, J.state.find("__init__"), {**h, "state": S}, J.state)
            fr2.block(ast.parse("action = state.action\nobservation = state.observation\nbelief = state.belief\nstep = state.step\nresidual = state.residual").body)
            return {n: fr2.env.get(n) for n in ("action", "observation", "belief", "step", "residual")}

        def s(fr, fn, args, kwargs):
            if fn[0] == "class" and fn[1] == J.state.qual:
                kw = dict(kwargs)
                names = [a.arg for a in J.state.find("__init__").node.args.args][1:]
                kw.update(zip(names, args))
                log.append(("state", kw.get("problem"), kw.get("prior")))
                fr.env.update(heap0)
                return S
            who = {pol: "policy", info: "information", upd: "update", crit: "criterion"}.get(fn)
            if who is None:
                return None
            a = list(args) + [v for _, v in kwargs]
            n = sum(1 for x in log if x[0] == who)
            log.append((who, a, snap(fr), dict(kwargs)))
            if who == "criterion":
                return ("c", n >= stop)
            return {"policy": sym(f"a{n}"), "information": sym(f"o{n}"), "update": sym(f"belief{n + 1}")}[who]
        ev.summaries = s
        vn = ev.new_vn()
        vn.setters = True
        vn.collect = True
        heap0 = J.heap_after(vn, 0)
        log.clear()
        st = {("@", SELF, "policy"): pol, ("@", SELF, "information_op"): info, ("@", SELF, "belief_update"): upd, ("@", SELF, "stopping_criterion"): crit,
              ("@", SELF, "_stopping_criterion"): crit, ("@", P, "A"): Ax, ("@", P, "b"): b}
        out, _ = ev.method(cls, "solve_iterator", {"prior": prior, "problem": prob, "rng": rng}, vn=vn, state=st)
        label = f"iteration that stops after {stop} steps"
        if out is None or out[0] != "list" or not log or any(x[0] == "unk" for x in out[1]):
            J.fact(label, f, None, "loop not understood")
            continue
        kinds = [x[0] for x in log]
        want = ["state"] + ["criterion", "policy", "information", "update"] * stop + ["criterion"]
        J.fact(f"{label}: order of operations", f, kinds == want, f"{kinds} instead of {want}")
        if kinds != want:
            continue
        J.fact(f"{label}: initial state", f, log[0][1:] == (prob, prior), f"{log[0][1:]}")
        J.fact(f"{label}: states handed out", f, len(out[1]) == stop + 1, f"{len(out[1])} instead of {stop + 1}")
        for k in range(stop):
            c, p, i, u = log[1 + 4 * k: 5 + 4 * k]
            J.fact(f"{label}: random numbers of the policy", f, rng in p[1], "the generator is not handed to the policy")
            for x, w in ((c, (V.NONE, V.NONE, k)), (p, (V.NONE, V.NONE, k)), (i, (sym(f"a{k}"), V.NONE, k)), (u, (sym(f"a{k}"), sym(f"o{k}"), k))):
                J.fact(f"{label}: {x[0]} of step {k} gets the state", f, S in x[1], "not the solver state")
                got = (x[2]["action"], x[2]["observation"])
                J.fact(f"{label}: action and observation at the {x[0]} of step {k}", f, got == w[:2] if all(g is not None and g[0] in ("s", "c") for g in got) else None, f"{got} instead of {w[:2]}")
                J.fact(f"{label}: step number at the {x[0]} of step {k}", f, same(x[2]["step"], ("c", w[2])), show(x[2]["step"]))
                J.fact(f"{label}: belief at the {x[0]} of step {k}", f, same(x[2]["belief"], sym(f"belief{k}")), show(x[2]["belief"]))
        last = log[-1]
        J.fact(f"{label}: last belief", f, same(last[2]["belief"], sym(f"belief{stop}")), show(last[2]["belief"]))
    f = cls.find("solve")
    if f is not None:
        ev = J.eval(opaque={"solve_iterator"}, summaries=lambda fr, fn, a, k: ("list", (sym("state0"), sym("state1"), sym("state2")))
                    if (fn[0] in ("bound", "at") and str(fn[2]).split(".")[-1] == "solve_iterator") else None)
        out, _ = ev.method(cls, "solve", {"prior": sym("belief0"), "problem": P, "rng": sym("rng")})
        out = V.strip_raise(out)
        want = ("tup", (at(sym("state2"), "belief"), sym("state2")))
        J.fact("solve returns the last belief and state", f, True if out == want else False if out is not None and out[0] == "tup" and all(x[0] in ("s", "at") for x in out[1]) else None, str(out))


def summaries(log=None, given=None, tag=(0,)):
    """aslinop and random-variable conversions are identities; calls of given functions are logged."""
    def s(fr, fn, args, kwargs):
        name = fn[1] if fn[0] in ("pfunc", "ext") else fn[2] if fn[0] in ("at", "bound") else ""
        if str(name).split(".")[-1] in ("aslinop", "asrandvar", "as_numpy_scalar") and len(args) >= 1:
            return args[0]
        if str(name) in ("builtins.getattr", "getattr") and len(args) == 2 and args[1][0] == "c" and isinstance(args[1][1], str):
            return fr.attr(args[0], args[1][1])
        if given is not None and fn in given:
            kw = dict(kwargs)
            kw.update(zip(given[fn], args))
            log.append((fn, kw))
            return sym(f"{fn[1]} in step {tag[0]}")
        return None
    return s


def state_at(J, vn, k, action=False, observation=False, belief=True):
    """Heap of a state in its k-th step, with an action and an observation if asked for."""
    heap = J.heap_after(vn, k)
    src, e = [], {**heap, "state": S}
    if action:
        src.append("state.action = a")
        e["a"] = sym("s")
    if observation:
        src.append("state.observation = o")
        e["o"] = sym("y")
    env = J.run(vn, "\n".join(src) or "pass", e)
    return {x: v for x, v in env.items() if isinstance(x, tuple)}


def evaluate(J, cls, heap, vn, ev, params=None, args=None, extra=None):
    f = cls.find("__call__")
    st = {**ev.state(cls, vn, params), **heap, **(extra or {})}
    a = [x.arg for x in f.node.args.args][1:]
    d = {a[0]: S}
    if len(a) > 1:
        d[a[1]] = sym("rng")
    out, _ = ev.method(cls, "__call__", d, vn=vn, state=st)
    return f, V.strip_raise(out) if out is not None else None, {x: v for x, v in (vn.last_env or {}).items() if isinstance(x, tuple)}


def information(J):
    """The observation is A s, or the projection of the residual onto the action."""
    for name, ref in (("MatVecInformationOp", ("bin", "@", Ax, sym("s"))), ("ProjectedResidualInformationOp", ("bin", "@", ("T", sym("s")), None))):
        cls = public_class(J.p, LS + "information_ops." + name)
        for k in (0, 1):
            ev = J.eval(oracle=notnone, summaries=summaries())
            vn = ev.new_vn()
            vn.setters = True
            heap = state_at(J, vn, k, action=True)
            f, out, _ = evaluate(J, cls, heap, vn, ev)
            r = ref if ref[3] is not None else ref[:3] + (residual(k),)
            J.decide(f"observation in step {k}", f, out, [r], Case(VECTORS | {sym("s")}, vec=vec))


def conjugate(J):
    """Actions of the conjugate-gradient policy, with and without reorthogonalisation."""
    cls = public_class(J.p, LS + "policies.ConjugateGradientPolicy")
    init = cls.find("__init__")
    fr_, fa = ("s", "fn residual"), ("s", "fn action")
    names = [x.arg for x in init.node.args.args][1:]
    sig = ("v", "orthogonal_basis", "inner_product")
    for re_r, re_a, prior in ((False, False, None), (True, False, None), (False, True, "Normal"), (False, True, "Constant"), (True, True, "Normal")):
        def oracle(c):
            if c[0] == "isinstance":
                return None if prior is None else any(prior in str(x) for x in c[2])
            return notnone(c)
        log, tag = [], [0]
        ev = J.eval(oracle=oracle, summaries=summaries(log, {fr_: sig, fa: sig}, tag))
        vn = ev.new_vn()
        vn.setters = True
        params = {names[0]: fr_ if re_r else V.NONE, names[1]: fa if re_a else V.NONE}
        label = "conjugate-gradient action" + (", residuals reorthogonalised" if re_r else "") + (f", actions reorthogonalised ({prior} prior)" if re_a else "")
        cached = {}
        stored = []
        for k in (0, 1, 2):
            log.clear()
            tag[0] = k
            heap = {**state_at(J, vn, k), **cached}
            f, out, after = evaluate(J, cls, heap, vn, ev, params)
            cached = {x: v for x, v in after.items() if x == ("@", S, "cache")}
            case = Case(VECTORS | {sym(f"fn residual in step {i}") for i in range(3)}, vec=vec)
            r = residual(k)
            if k == 0:
                J.decide(f"{label}, step 0", f, out, [r], case)
                stored.append(r)
                continue
            rr = sym(f"fn residual in step {k}") if re_r else r
            prev = stored[-1]
            stored.append(rr)
            beta = ("bin", "/", ("bin", "@", ("T", rr), rr), ("bin", "@", ("T", prev), prev))
            want = ("bin", "+", rr, ("bin", "*", beta, sym(f"a{k - 1}")))
            calls = {fn: [kw for g, kw in log if g == fn] for fn in (fr_, fa)}
            if re_r and len(calls[fr_]) != 1 or re_a and len(calls[fa]) != 1:
                J.fact(f"{label}, step {k}", f, None, "reorthogonalisation not understood")
                continue
            if re_r:
                kw = calls[fr_][0]
                J.decide(f"{label}, step {k}: residual to be reorthogonalised", f, kw.get("v"), [r], case)
                J.fact(f"{label}, step {k}: inner product of residuals", f, kw.get("inner_product", V.NONE) == V.NONE or None, "")
                basis(J, f, f"{label}, step {k}: basis of residuals", kw.get("orthogonal_basis"), stored[:k], case)
            if re_a:
                kw = calls[fa][0]
                J.decide(f"{label}, step {k}: action to be reorthogonalised", f, kw.get("v"), [want], case)
                ip = Ax if prior == "Constant" else ("bin", "@", ("bin", "@", Ax, at(sym("belief0"), "x", "cov")), ("T", Ax))
                J.decide(f"{label}, step {k}: inner product", f, kw.get("inner_product"), [ip], case)
                basis(J, f, f"{label}, step {k}: basis of actions", kw.get("orthogonal_basis"), [sym(f"a{i}") for i in range(k)], case)
                J.fact(f"{label}, step {k}: returned action", f, True if out == sym(f"fn action in step {k}") else None, "")
            else:
                J.decide(f"{label}, step {k}", f, out, [want], case)


def basis(J, f, what, t, want, case):
    while t is not None and t[0] == "call" and t[1] in SAME + ("numpy.stack", "numpy.vstack") and len(t[2]) >= 1:
        t = t[2][0]
    xs = V.finite(t) if t is not None else None
    if xs is None:
        J.fact(what, f, None, "not understood")
        return
    if len(xs) != len(want):
        J.fact(what, f, False, f"{len(xs)} vectors instead of {len(want)}")
        return
    for i, (x, w) in enumerate(zip(xs, want)):
        J.decide(f"{what}, vector {i}", f, x, [w], case)


class Unit(Sem):
    """(A ** 2) @ 1 are the sums of squares of the rows, (A ** 2).T @ 1 those of the columns."""

    def __call__(self, t, alg):
        if t[0] == "call" and str(t[1]).split(".")[-1] == "ones":
            return alg.atom(sym("ones"))
        if t[0] == "bin" and t[1] == "**" and t[3] == ("c", 2) and t[2] == Ax or t[0] == "bin" and t[1] == "*" and t[2] == t[3] == Ax \
                or t[0] == "call" and str(t[1]).split(".")[-1] == "square" and t[2] == (Ax,):
            return alg.atom(("squares", "A"))
        if t[0] == "call" and str(t[1]).split(".")[-1] == "sum" and len(t[2]) >= 1:
            ax = dict(t[3]).get("axis", t[2][1] if len(t[2]) > 1 else V.NONE)
            x = alg.nf(t[2][0])
            if ax == V.NONE and alg.kind(x) == "c":
                return alg.mm(alg.atom(sym("ones")), x)
            if ax in (("c", 1), ("c", -1)):
                return alg.mm(x, alg.atom(sym("ones")))
            if ax == ("c", 0):
                return alg.mm(alg.T(x), alg.atom(sym("ones")))
        if t[0] == "m" and t[2] == "sum":
            return self(("call", "numpy.sum", (t[1],) + tuple(t[3]), tuple(t[4])), alg)
        return super().__call__(t, alg)


def unit_vectors(J):
    """The action is the unit vector of a row drawn with the documented probabilities."""
    cls = public_class(J.p, LS + "policies.RandomUnitVectorPolicy")
    init = cls.find("__init__")
    names = [x.arg for x in init.node.args.args][1:]
    for prob in ("uniform", "rownorm"):
        for replace in (True, False):
            draws = []

            def s(fr, fn, args, kwargs):
                if fn == at(sym("rng"), "choice"):
                    kw = dict(kwargs)
                    kw.update(zip(("a", "size", "replace", "p"), args))
                    draws.append(kw)
                    return sym("drawn")
                if fn[0] == "at" and fn[2] == "keys" and not args:
                    return fn[1]
                return summaries()(fr, fn, args, kwargs)
            def oracle(c):
                if c[0] == "cmp" and c[1] in ("in", "not in") and c[2][0] == "c" and c[3][0] in ("call", "upd"):
                    found = V.contains(c[3], lambda n: n[0] == "upd" and n[2] == c[2])
                    return found == (c[1] == "in")
                return notnone(c)
            ev = J.eval(oracle=oracle, summaries=s)
            vn = ev.new_vn()
            vn.setters = True
            heap = state_at(J, vn, 0)
            label = f"unit vectors, {prob} probabilities" + ("" if replace else ", without replacement")
            params = {names[0]: ("c", prob), names[1]: ("c", replace)}
            n = ("idx", at(Ax, "shape"), ("c", 0))
            env = {"n": n, "A": Ax, "i": sym("drawn")}
            case = Case(VECTORS | {sym("ones"), sym("p"), sym("p1")}, scalars={n}, vec=vec, sem=Unit())
            p0 = text(vn, J, "np.ones(n) / n" if prob == "uniform" else "(A**2) @ np.ones(n) / ((A**2) @ np.ones(n)).sum()", env)
            f, out, after = evaluate(J, cls, heap, vn, ev, params)
            if len(draws) != 1:
                J.fact(label, f, None, "draw not understood")
                continue
            d = draws[0]
            J.fact(f"{label}: rows to choose from", f, True if d.get("a") == n else None, "")
            J.decide(f"{label}: probabilities", f, d.get("p"), [p0], case)
            want = [text(vn, J, f"np.zeros(n)", env), text(vn, J, "np.zeros(shape=n)", env)]
            ok = None
            if out is not None and out[0] == "upd" and out[1] in want and out[3][0] == "c":
                ok = out[2] == sym("drawn") and out[3][1] == 1
            J.fact(f"{label}: action", f, ok, str(out)[:200])
            # second step: drawn rows are not drawn again
            heap2 = {**heap, ("@", S, "cache"): after.get(("@", S, "cache"))}
            draws.clear()
            if heap2[("@", S, "cache")] is None:
                J.fact(f"{label}: second step", f, None, "cache not understood")
                continue
            evaluate(J, cls, heap2, vn, ev, params)
            if len(draws) != 1:
                J.fact(f"{label}: second step", f, None, "draw not understood")
                continue
            p = draws[0].get("p")
            if replace:
                J.decide(f"{label}: probabilities in the second step", f, p, [p0], case)
            else:
                e = J.run(vn, "q = p\nq[i] = 0.0\nr = q / q.sum()", {**NP, "p": p0, "i": sym("drawn")})
                J.fact(f"{label}: drawn rows are not drawn again", f, removed(p, p0), str(p)[:200])


def removed(p, p0):
    """p is q / q.sum() with q = p0 except q[drawn] = 0"""
    if p == p0:
        return False
    if p is None or p[0] != "bin" or p[1] != "/":
        return None
    q = p[2]
    if q[0] == "upd" and q[2] == sym("drawn") and q[3][0] == "c":
        return q[3][1] == 0
    return None


def positive(sign):
    """gram > 0 or gram <= 0"""
    def o(c):
        if c[0] == "cmp" and c[1] in ("<", "<=", ">", ">=", "==", "!="):
            op, x, y = c[1], c[2], c[3]
            if y[0] == "c" and y[1] == 0 and x[0] != "c":
                return {"<": False, "<=": not sign, ">": sign, ">=": True if sign else None, "==": not sign, "!=": sign}[op]
            if x[0] == "c" and x[1] == 0 and y[0] != "c":
                return {">": False, ">=": not sign, "<": sign, "<=": True if sign else None, "==": not sign, "!=": sign}[op]
        return notnone(c)
    return o


def new(t, name):
    return dict(t[2]) if t is not None and t[0] == "new" and t[1].split(".")[-1] == name else None


def text(vn, J, src, env):
    e = J.run(vn, "value_ = " + src, {**NP, **env})
    return e["value_"]


def solution_update(J):
    """Conditioning a Gaussian belief over the solution on a projected residual."""
    cls = public_class(J.p, LS + "belief_updates.solution_based.ProjectedResidualBeliefUpdate")
    B = sym("belief1")
    case = Case(VECTORS | {sym("s")}, scalars={sym("y"), sym("lam")}, symmetric={at(B, "x", "cov")}, vec=vec)
    for sign in (True, False):
        ev = J.eval(oracle=positive(sign), summaries=summaries())
        vn = ev.new_vn()
        vn.setters = True
        heap = state_at(J, vn, 1, action=True, observation=True)
        init = cls.find("__init__")
        f, out, _ = evaluate(J, cls, heap, vn, ev, {[x.arg for x in init.node.args.args][1]: sym("lam")})
        new_ = new(out, "LinearSystemBelief")
        label = "projected-residual update" + ("" if sign else ", no information in the action's direction")
        x = new(new_.get("x"), "Normal") if new_ is not None else None
        if x is None:
            J.fact(label, f, None, "belief not understood")
            continue
        env = {"A": Ax, "s": sym("s"), "y": sym("y"), "lam": sym("lam"), "m": at(B, "x", "mean"), "P": at(B, "x", "cov"), "Ainv": at(B, "Ainv")}
        gain = "(P @ A.T @ s) / (s @ A @ P @ A.T @ s + lam)"
        upd = f"np.outer({gain}, P @ A.T @ s)"
        J.decide(f"{label}: mean", f, x.get("mean"), [text(vn, J, f"m + {gain} * y" if sign else "m", env)], case)
        J.decide(f"{label}: covariance", f, x.get("cov"), [text(vn, J, f"P - {upd}" if sign else "P", env)], case)
        J.decide(f"{label}: inverse", f, new_.get("Ainv"), [text(vn, J, f"Ainv + {upd}" if sign else "Ainv", env)], case)
        for n in ("A", "b"):
            J.fact(f"{label}: belief over {n}", f, True if new_.get(n) == at(B, n) else False if (new_.get(n) or V.NONE)[0] in ("at", "c") else None, str(new_.get(n)))


def matrix_update(J):
    """Conditioning a matrix-variate Gaussian on A s = y (and on Ainv y = s)."""
    B = sym("belief1")
    for name, kron in (("MatrixBasedLinearBeliefUpdate", "Kronecker"), ("SymmetricMatrixBasedLinearBeliefUpdate", "SymmetricKronecker")):
        cls = public_class(J.p, LS + "belief_updates.matrix_based." + name)
        for sign in (True, False):
            def oracle(c, sign=sign):
                if c[0] == "isinstance":
                    return any(str(x).split(".")[-1].strip("')") == kron for x in c[2])
                return positive(sign)(c)
            ev = J.eval(oracle=oracle, summaries=summaries())
            vn = ev.new_vn()
            vn.setters = True
            heap = state_at(J, vn, 1, action=True, observation=True)
            f, out, _ = evaluate(J, cls, heap, vn, ev)
            nb = new(out, "LinearSystemBelief")
            label = kron + " update" + ("" if sign else ", no information in the action's direction")
            if nb is None:
                J.fact(label, f, None, "belief not understood")
                continue
            for q, s_, y_ in (("A", sym("s"), sym("y")), ("Ainv", sym("y"), sym("s"))):
                fac = at(B, q, "cov", "B" if kron == "Kronecker" else "A")
                case = Case(VECTORS | {sym("s"), sym("y")}, symmetric={fac} | ({at(B, q, "mean")} if kron != "Kronecker" else set()), vec=vec)
                n = new(nb.get(q), "Normal")
                c = new(n.get("cov"), kron) if n is not None else None
                if c is None:
                    J.fact(f"{label} of {q}", f, None, "not understood")
                    continue
                env = {"s": s_, "y": y_, "M": at(B, q, "mean"), "W": fac}
                g = "(W @ s / (s @ W @ s))"
                r = "(y - M @ s)"
                up = f"np.outer({g}, W @ s)"
                if kron == "Kronecker":
                    mean = f"M + np.outer({r}, {g})"
                    J.decide(f"{label} of {q}: first factor", f, c.get("A"), [at(B, q, "cov", "A")], case)
                    fname = "B"
                else:
                    mean = f"M + np.outer({r}, {g}) + np.outer({g}, {r}) - np.outer({g}, {g}) * (s @ {r})"
                    fname = "A"
                J.decide(f"{label} of {q}: mean", f, n.get("mean"), [text(vn, J, mean if sign else "M", env)], case)
                J.decide(f"{label} of {q}: covariance factor", f, c.get(fname), [text(vn, J, f"W - {up}" if sign else "W", env)], case)
            J.fact(f"{label}: solution is induced by the inverse", f, nb.get("x", V.NONE) == V.NONE or None, "")


def criteria(J):
    """When the stopping criteria stop."""
    SC = LS + "stopping_criteria."
    B = sym("belief1")
    trace = ("m", at(B, "x", "cov"), "trace", (), ())
    case = Case(VECTORS, scalars={sym("atol"), sym("rtol"), sym("maxiter"), trace}, vec=vec)
    for name, refs in (
        ("MaxIterationsStoppingCriterion", {"maxiter": "step >= maxiter", None: "step >= A.shape[0] * 10"}),
        ("ResidualNormStoppingCriterion", {"": "np.linalg.norm(r) <= atol or np.linalg.norm(r) <= rtol * np.linalg.norm(b)"}),
        ("PosteriorContractionStoppingCriterion", {"": "np.abs(t) <= atol**2 or np.abs(t) <= (rtol * np.linalg.norm(b))**2"}),
    ):
        cls = public_class(J.p, SC + name)
        for key, ref in refs.items():
            def oracle(c, key=key):
                if c[0] == "cmp" and c[1] == "is" and c[3] == V.NONE and c[2] == sym("maxiter"):
                    return key is None
                return notnone(c)
            ev = J.eval(oracle=oracle, summaries=summaries())
            vn = ev.new_vn()
            vn.setters = True
            heap = state_at(J, vn, 1)
            heap[("@", S, "_step")] = sym("step") if name.startswith("Max") else heap.get(("@", S, "_step"), ("c", 1))
            init = cls.find("__init__")
            params = {x.arg: sym(x.arg) for x in init.node.args.args[1:]}
            if "qoi" in params:
                params["qoi"] = ("c", "x")
            if key is None:
                params["maxiter"] = V.NONE
            f, out, _ = evaluate(J, cls, heap, vn, ev, params)
            if name.startswith("Max") and out is not None and V.contains(out, lambda n: n == ("c", 1)):
                J.fact(name, f, None, "step counter not found")
                continue
            env = {"step": sym("step"), "A": Ax, "b": b, "maxiter": sym("maxiter"), "atol": sym("atol"), "rtol": sym("rtol"), "r": residual(1), "t": trace}
            case.s |= {sym("step"), ("idx", at(Ax, "shape"), ("c", 0))}
            J.truth(name + (" without limit" if key is None else ""), f, out, text(vn, J, ref, env), case)


def belief(J):
    """Without a belief over the solution, it is the one induced by the inverse and the right-hand side."""
    cls = public_class(J.p, LS + "beliefs.LinearSystemBelief")
    init = cls.find("__init__")
    for given in (True, False):
        def oracle(c):
            if c[0] == "isinstance":
                return True
            if c[0] == "cmp" and c[1] in ("==", "!=", "<", ">", "<=", ">="):
                return {"==": True, "!=": False, "<": False, ">": False}.get(c[1])
            return notnone(c)
        ev = J.eval(oracle=oracle, summaries=summaries())
        vn = ev.new_vn()
        P_ = {"x": sym("x") if given else V.NONE, "Ainv": sym("Ainv"), "A": sym("A"), "b": sym("b"), "hyperparams": V.NONE}
        st = ev.state(cls, vn, P_)
        for n in ("x", "Ainv", "A", "b"):
            out, _ = ev.method(cls, n, {}, vn=vn, state=st)
            want = ("bin", "@", sym("Ainv"), sym("b")) if n == "x" and not given else sym(n)
            J.decide(f"belief over {n}" + ("" if given else " (no belief over x given)"), cls.find(n), out, [want], Case({sym("x"), sym("b")}))


SOLVERS = {
    "BayesCG": ("ConjugateGradientPolicy", "ProjectedResidualInformationOp", "ProjectedResidualBeliefUpdate"),
    "ProbabilisticKaczmarz": ("RandomUnitVectorPolicy", "ProjectedResidualInformationOp", "ProjectedResidualBeliefUpdate"),
    "MatrixBasedPLS": ("ConjugateGradientPolicy", "MatVecInformationOp", "MatrixBasedLinearBeliefUpdate"),
    "SymMatrixBasedPLS": ("ConjugateGradientPolicy", "MatVecInformationOp", "SymmetricMatrixBasedLinearBeliefUpdate"),
}


def compositions(J):
    """The named solvers are the documented combinations of policy, observation and update."""
    for name, parts in SOLVERS.items():
        cls = public_class(J.p, LS + name)
        ev = J.eval(summaries=summaries())
        vn = ev.new_vn()
        init = cls.find("__init__")
        d = init.defaults()
        params = {}
        for x in init.node.args.args[1:]:
            params[x.arg] = V.Frame(vn, init, {}, cls).ev(d[x.arg]) if x.arg in d else sym(x.arg)
        st = ev.state(cls, vn, params)
        for attr, want in zip(("policy", "information_op", "belief_update"), parts):
            got = st.get(("@", SELF, attr))
            ok = None
            if got is not None and got[0] == "new":
                ok = got[1].split(".")[-1] == want
                if attr == "belief_update" and ok and want.startswith("Projected"):
                    kw = dict(got[2])
                    ok = True if kw.get("noise_var", ("c", 0.0)) in (("c", 0.0), ("c", 0)) else False if kw["noise_var"][0] == "c" else None
                if attr == "policy" and ok and want.startswith("Conj"):
                    ok = True if all(v == V.NONE for v in dict(got[2]).values()) else None
            J.fact(f"{name}: {attr}", init, ok, f"{str(got)[:120]} instead of {want}")
        got = [v for k, v in st.items() if k[1] == SELF and "stopping" in k[2]]
        J.fact(f"{name}: stopping criterion is the given one", init, True if got and all(g == params.get("stopping_criterion") for g in got) else None, "")


EYE = ("call", "numpy.eye", (sym("n"),), ())


def operators(fr, fn, args, kwargs):
    """Linear operators that are given by their product are their product with the identity."""
    if fn[0] == "class":
        name = fn[1].split(".")[-1]
        kw = dict(kwargs)
        if name == "LambdaLinearOperator":
            f = kw.get("matmul", args[2] if len(args) > 2 else None)
            if f is not None and f[0] in ("fn", "bound", "pfunc"):
                return fr.call(f, (EYE,), ())
        if name == "Identity":
            return EYE
        if name == "Scaling" and (args or "factors" in kw):
            x = args[0] if args else kw["factors"]
            return ("bin", "*", x, EYE)
    if fn[0] in ("at", "bound", "pfunc") and str(fn[-1] if fn[0] == "at" else fn[2] if fn[0] == "bound" else fn[1]).split(".")[-1] in ("broadcast_matvec", "broadcast_matmat") and len(args) == 1:
        return args[0]
    return summaries()(fr, fn, args, kwargs)


class Columns(Sem):
    """Vectors are matrices with one column; 1-by-1 matrices are scalars."""

    def __call__(self, t, alg):
        if t[0] == "call" and str(t[1]).split(".")[-1] in ("eye", "identity"):
            return alg.atom(A.I)
        if t[0] == "m" and t[2] in ("inv",) and not t[3]:
            return alg.inv(alg.nf(t[1]))
        if t[0] == "call" and str(t[1]).split(".")[-1] == "trace" and len(t[2]) == 1:
            return alg.atom(("trace", alg.key(alg.nf(t[2][0]))))
        if t[0] == "m" and t[2] == "trace" and not t[3]:
            return alg.atom(("trace", alg.key(alg.nf(t[1]))))
        return super().__call__(t, alg)


def matrix_solver(J):
    """One iteration of the symmetric matrix-based solver from any state, its result and its stopping decision."""
    cls = public_class(J.p, LS + "matrixbased.SymmetricMatrixBasedSolver")
    f = cls.find("solve")
    init = cls.find("__init__")
    M0, H0, V0, W0, x0 = (sym(x) for x in ("M", "H", "V", "W", "x"))
    bb = sym("b")
    vectors = {bb, x0, sym("r"), sym("x1"), sym("r1"), sym("s1")}
    case = Case(vectors, scalars={sym("t0"), sym("atol"), sym("rtol"), sym("maxiter"), sym("iter")}, symmetric={M0, H0, V0, W0, Ax, sym("M1"), sym("H1"), sym("T"), sym("S")}, sem=Columns(), planar=True)
    case.s |= {sym("traceT")}
    scal = case.factory

    def factory(asg):
        alg = scal(asg)
        old = alg.is_scalar_atom
        alg.is_scalar_atom = lambda a: a[0] in ("trace", "dot") or old(a)
        return alg
    case.factory = factory
    seen, calls, cb = [], [], []
    maps = {}

    def subst(t):
        if t in maps:
            return maps[t]
        if isinstance(t, tuple):
            return tuple(subst(x) for x in t)
        return t

    def value(fr, n):
        return fr.env.get(("@", SELF, n))

    def s(fr, fn, args, kwargs):
        if fn[0] in ("at", "bound") and str(fn[2]).split(".")[-1] == "has_converged":
            kw = dict(kwargs)
            g = cls.find("has_converged")
            kw.update(zip([x.arg for x in g.node.args.args][1:], args))
            k = len(calls)
            snap = {n: value(fr, n) for n in ("x_mean", "A_mean", "Ainv_mean", "A_covfactor", "Ainv_covfactor", "trace_Ainv_covfactor", "trace_sol_cov", "iter_")}
            calls.append((kw, snap))
            if k == 1:
                for n, t in (("x1", snap["x_mean"]), ("M1", snap["A_mean"]), ("H1", snap["Ainv_mean"])):
                    if t is not None:
                        maps[t] = sym(n)
                if kw.get("resid") is not None:
                    maps[kw["resid"]] = sym("r1")
                for n, t, base in (("T", snap["A_covfactor"], V0), ("S", snap["Ainv_covfactor"], W0)):
                    if t is not None and t[0] == "bin" and t[1] == "-" and t[2] == base:
                        maps[t[3]] = sym(n)
                fr2 = fr
                for e in list(fr2.env):
                    fr2.env[e] = subst(fr2.env[e])
            return ("tup", (("c", k >= 2), sym("criterion")))
        if fn == sym("callback"):
            cb.append(dict(kwargs))
            return V.NONE
        return operators(fr, fn, args, kwargs)

    def oracle(c):
        if c[0] == "isinstance":
            return False
        return notnone(c)
    ev = J.eval(oracle=oracle, summaries=s)
    vn = ev.new_vn()
    st = {("@", SELF, n): v for n, v in (("A", Ax), ("b", bb), ("n", sym("n")), ("x_mean", x0), ("x0", x0), ("A_mean", M0), ("A_mean0", M0), ("Ainv_mean", H0), ("Ainv_mean0", H0),
          ("A_covfactor", V0), ("A_covfactor0", V0), ("Ainv_covfactor", W0), ("Ainv_covfactor0", W0), ("is_calib_covclass", ("c", False)))}
    for n in ("search_dir_list", "obs_list", "sy"):
        st[("@", SELF, n)] = ("list", ())
    out, _ = ev.method(cls, "solve", {"callback": sym("callback"), "maxiter": sym("maxiter"), "atol": sym("atol"), "rtol": sym("rtol"), "calibration": V.NONE}, vn=vn, state=st)
    out = V.strip_raise(out) if out is not None else None
    if out is None or out[0] != "tup" or len(out[1]) != 4 or len(calls) != 3:
        J.fact("matrix-based solve", f, None, f"loop not understood ({len(calls)} convergence checks)")
        return
    E = {"A": Ax, "b": bb, "M": M0, "H": H0, "V": V0, "W": W0, "x": x0}
    E2 = {**E, "M": sym("M1"), "H": sym("H1"), "V": ("bin", "-", V0, sym("T")), "W": ("bin", "-", W0, sym("S")), "x": sym("x1")}

    def steps(e, r):
        e = {**e, "r": r}
        src = ("s = -H @ r\ny = A @ s\nal = -(s.T @ r) / (s.T @ y)\nx_ = x + al * s\nr_ = r + al * y\n"
               "Vs = V @ s\nd = y - M @ s\nu = Vs / (s.T @ Vs)\nv = d - (s.T @ d) * u / 2\nM_ = M + u @ v.T + v @ u.T\nV_ = V - u @ Vs.T\n"
               "Wy = W @ y\nd2 = s - H @ y\nu2 = Wy / (y.T @ Wy)\nv2 = d2 - (y.T @ d2) * u2 / 2\nH_ = H + u2 @ v2.T + v2 @ u2.T\nW_ = W - u2 @ Wy.T\n"
               "tr = (Wy.T @ Wy) / (y.T @ Wy)")
        return J.run(vn, src, {**NP, **e})
    r0 = text(vn, J, "A @ x - b", E)
    J.decide("matrix-based solve: residual of the initial solution", f, calls[0][0].get("resid"), [r0], case)
    J.fact("matrix-based solve: iterations counted", f, all(k_["iter_"] == ("c", i) for i, (_, k_) in enumerate(calls)) if all((k_["iter_"] or V.NONE)[0] == "c" for _, k_ in calls) else None, "")
    e1 = steps(E, r0)
    got, sn = calls[1]
    for n, k in (("x_mean", "x_"), ("A_mean", "M_"), ("Ainv_mean", "H_"), ("A_covfactor", "V_"), ("Ainv_covfactor", "W_")):
        J.decide(f"matrix-based solve, first iteration: {n}", f, sn[n], [e1[k]], case)
    J.decide("matrix-based solve, first iteration: residual", f, got.get("resid"), [e1["r_"]], case)
    t1 = text(vn, J, "np.trace(W)", E)
    J.decide("matrix-based solve, before the first iteration: trace of the inverse's covariance factor", f, calls[0][1]["trace_Ainv_covfactor"], [t1], case)
    t1 = ("bin", "-", t1, e1["tr"])
    J.decide("matrix-based solve, first iteration: trace of the inverse's covariance factor", f, sn["trace_Ainv_covfactor"], [t1], case)
    if len(maps) == 6:
        e2 = steps(E2, sym("r1"))
        got, sn = calls[2]
        for n, k in (("x_mean", "x_"), ("A_mean", "M_"), ("Ainv_mean", "H_"), ("A_covfactor", "V_"), ("Ainv_covfactor", "W_")):
            J.decide(f"matrix-based solve, later iteration: {n}", f, sn[n], [e2[k]], case)
        J.decide("matrix-based solve, later iteration: residual", f, got.get("resid"), [e2["r_"]], case)
        J.decide("matrix-based solve, later iteration: trace of the inverse's covariance factor", f, sn["trace_Ainv_covfactor"], [("bin", "-", t1, e2["tr"])], case)
        # the result
        res_ = out[1]
        for i, (n, mk, ck) in enumerate((("A", "M_", "V_"), ("Ainv", "H_", "W_"))):
            nn = new(res_[1 + i], "Normal")
            cc = new(nn.get("cov"), "SymmetricKronecker") if nn is not None else None
            if cc is None:
                J.fact(f"matrix-based solve: belief over {n}", f, None, "not understood")
                continue
            J.decide(f"matrix-based solve: mean of {n}", f, nn.get("mean"), [e2[mk]], case)
            J.decide(f"matrix-based solve: covariance factor of {n}", f, cc.get("A"), [e2[ck]], case)
        nn = new(res_[0], "Normal")
        if nn is None:
            J.fact("matrix-based solve: belief over x", f, None, "not understood")
        else:
            J.decide("matrix-based solve: mean of x", f, nn.get("mean"), [e2["x_"]], case)
    else:
        J.fact("matrix-based solve, later iteration", f, None, f"state not understood ({len(maps)})")
    # covariance of the solution, from the belief over the inverse handed out before the first iteration
    outvars(J, cls, ev, case, st)
    # the result after exactly one iteration
    log = []

    def once(fr, fn, a, k):
        if fn[0] in ("at", "bound") and str(fn[2]).split(".")[-1] == "has_converged":
            log.append(1)
            return ("tup", (("c", len(log) > 1), sym("criterion")))
        return operators(fr, fn, a, k)
    ev1 = J.eval(oracle=oracle, summaries=once)
    out, _ = ev1.method(cls, "solve", {"callback": V.NONE, "maxiter": sym("maxiter"), "atol": sym("atol"), "rtol": sym("rtol"), "calibration": V.NONE}, vn=ev1.new_vn(), state=st)
    out = V.strip_raise(out) if out is not None else None
    if out is None or out[0] != "tup" or len(log) != 2:
        J.fact("matrix-based solve with one iteration", f, None, "not understood")
    else:
        for i, (n, mk, ck) in enumerate((("A", "M_", "V_"), ("Ainv", "H_", "W_"))):
            nn = new(out[1][1 + i], "Normal")
            cc = new(nn.get("cov"), "SymmetricKronecker") if nn is not None else None
            if cc is None:
                J.fact(f"matrix-based solve with one iteration: belief over {n}", f, None, "not understood")
                continue
            J.decide(f"matrix-based solve with one iteration: mean of {n}", f, nn.get("mean"), [e1[mk]], case)
            J.decide(f"matrix-based solve with one iteration: covariance factor of {n}", f, cc.get("A"), [e1[ck]], case)
    convergence(J, cls, case)


def outvars(J, cls, ev, case, st):
    """Solving without iterations: the solution is the one induced by the inverse."""
    f = cls.find("solve")
    bb, W0 = sym("b"), sym("W")
    ev2 = J.eval(oracle=ev.oracle, summaries=lambda fr, fn, a, k: ("tup", (("c", True), sym("criterion")))
                 if fn[0] in ("at", "bound") and str(fn[2]).split(".")[-1] == "has_converged" else operators(fr, fn, a, k))
    vn = ev2.new_vn()
    out, _ = ev2.method(cls, "solve", {"callback": V.NONE, "maxiter": sym("maxiter"), "atol": sym("atol"), "rtol": sym("rtol"), "calibration": V.NONE}, vn=vn, state=st)
    out = V.strip_raise(out) if out is not None else None
    if out is None or out[0] != "tup":
        J.fact("matrix-based solve without iterations", f, None, "not understood")
        return
    E = {"b": bb, "W": W0}
    n = new(out[1][0], "Normal")
    if n is not None:
        J.decide("covariance of the solution", f, n.get("cov"), [text(vn, J, "((b.T @ W @ b) * W + (W @ b) @ (W @ b).T) / 2", E)], case)
    i = new(out[1][2], "Normal")
    c = new(i.get("cov"), "SymmetricKronecker") if i is not None else None
    if c is not None:
        J.decide("prior covariance factor of the inverse", f, c.get("A"), [W0], case)
    info = dict((k[1], v) for k, v in out[1][3][1]) if out[1][3][0] == "dict" else {}
    if "trace_sol_cov" in info:
        J.decide("trace of the solution's covariance", f, info["trace_sol_cov"], [text(vn, J, "((b.T @ W @ b) * np.trace(W) + (W @ b).T @ (W @ b)) / 2", E)], case)
    else:
        J.fact("trace of the solution's covariance", f, None, "not in the information")


def convergence(J, cls, case):
    g = cls.find("has_converged")
    ev = J.eval(oracle=notnone, summaries=operators)
    vn = ev.new_vn()
    st = {("@", SELF, "b"): sym("b"), ("@", SELF, "trace_sol_cov"): sym("t0")}
    out, _ = ev.method(cls, "has_converged", {"iter": sym("iter"), "maxiter": sym("maxiter"), "resid": sym("r"), "atol": sym("atol"), "rtol": sym("rtol")}, vn=vn, state=st)
    out = V.strip_raise(out) if out is not None else None
    if out is None:
        J.fact("convergence", g, None, "not understood")
        return
    e = {"i": sym("iter"), "m": sym("maxiter"), "r": sym("r"), "b": sym("b"), "atol": sym("atol"), "rtol": sym("rtol"), "t": sym("t0")}
    ref = text(vn, J, "i >= m or np.linalg.norm(r) <= atol or np.linalg.norm(r) <= rtol * np.linalg.norm(b) or np.sqrt(t) <= atol or np.sqrt(t) <= rtol * np.linalg.norm(b)", e)
    J.truth("matrix-based solver stops", g, V.index(out, ("c", 0)), ref, case)


def matrix_priors(J):
    """Prior means and covariance factors from the given beliefs."""
    cls = public_class(J.p, LS + "matrixbased.SymmetricMatrixBasedSolver")
    init = cls.find("__init__")
    A0, H0, x0, bb = sym("A0"), sym("Ainv0"), sym("x0"), sym("b")
    I_ = EYE
    inv = lambda x: ("m", x, "inv", (), ())
    v = "(x - al * b)"
    al = "((b.T @ x) / (b.T @ b) / 2)"
    cases = {
        "no prior": ({}, {"A_mean": I_, "A_covfactor": Ax, "Ainv_mean": I_, "Ainv_covfactor": I_, "x_mean": bb}),
        "prior over the inverse": ({"Ainv0": H0}, {"Ainv_mean": at(H0, "mean"), "Ainv_covfactor": at(H0, "cov", "A"), "A_covfactor": Ax, "A_mean": inv(at(H0, "mean")), "x_mean": ("bin", "@", at(H0, "mean"), bb)}),
        "prior over the matrix": ({"A0": A0}, {"A_mean": at(A0, "mean"), "A_covfactor": at(A0, "cov", "A"), "Ainv_mean": inv(at(A0, "mean")), "Ainv_covfactor": inv(at(A0, "mean"))}),
        "prior over both": ({"A0": A0, "Ainv0": H0}, {"A_mean": at(A0, "mean"), "A_covfactor": at(A0, "cov", "A"), "Ainv_mean": at(H0, "mean"), "Ainv_covfactor": at(H0, "cov", "A"), "x_mean": ("bin", "@", at(H0, "mean"), bb)}),
        "initial solution": ({"x0": x0}, None),
        "initial solution at an obtuse angle": ({"x0": x0}, None),
        "initial solution at a right angle": ({"x0": x0}, None),
    }
    angle = {"initial solution at an obtuse angle": -1, "initial solution at a right angle": 0}

    def has(t, x):
        return t == x or (isinstance(t, tuple) and any(has(y, x) for y in t))

    def against_zero(c, sign):
        def val(t):
            if t == ("c", 0):
                return 0
            if not has(t, x0):
                return 1  # a norm of the right-hand side
            return -sign if t[0] == "un" else sign
        l, r = val(c[2]), val(c[3])
        return {"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r, "==": l == r, "!=": l != r}[c[1]]
    for label, (given, want) in cases.items():
        def oracle(c):
            if c[0] == "isinstance":
                if c[1] in (A0, H0):
                    return any("RandomVariable" in str(x) for x in c[2])
                if c[1] == x0:
                    return any("ndarray" in str(x) for x in c[2])
                if c[1] == V.NONE or c[1] == bb:
                    return False
                return None
            if c[0] == "cmp" and c[1] in ("<", ">", "<=", ">=", "==", "!=") and ("c", 0) in (c[2], c[3]):
                if label in angle:
                    return against_zero(c, angle[label])
                return positive(True)(c)  # right-hand side and initial solution at an acute angle
            if label in angle and has(c, bb) and not has(c, x0):  # the right-hand side is not zero
                how, what = (c[1], c[2]) if c[0] == "call" else (c[2], (c[1],)) if c[0] == "m" else ("", ())
                how = str(how).split(".")[-1]
                eq = what[0][1] if len(what) == 1 and what[0][0] == "cmp" else None
                if how == "all" and eq == "==" or how in ("allclose", "array_equal"):
                    return False
                if how == "any" and (eq == "!=" or what == (bb,)):
                    return True
                if c[0] != "cmp":
                    unknown.append(c)
            return notnone(c)
        unknown = []
        ev = J.eval(oracle=oracle, summaries=operators)
        vn = ev.new_vn()
        params = {"A": Ax, "b": bb, "A0": V.NONE, "Ainv0": V.NONE, "x0": V.NONE, **given}
        vn.func(init, cls, params)
        if unknown:
            J.fact(f"{label}: test of the right-hand side", init, None, f"not understood: {unknown[0]}")
            continue
        le = vn.last_env or {}
        if want is None:
            e = {"x": x0, "b": bb, "n": sym("n"), "A": Ax}
            sign = angle.get(label, 1)
            if sign < 0:
                e["x"] = ("un", "-", x0)
            elif sign == 0:
                e["x"] = text(vn, J, "(b.T @ b) / (b.T @ A @ b) * b", e)
            e["al"] = text(vn, J, al, e)
            want = {"Ainv_mean": text(vn, J, f"al * np.eye(n) + 2 / (b.T @ x) * {v} @ {v}.T", e),
                    "A_mean": text(vn, J, f"np.eye(n) / al - {v} @ {v}.T / (al * ({v}.T @ x))", e), "A_covfactor": Ax, "x_mean": x0}
            want["Ainv_covfactor"] = want["Ainv_mean"]
            if label in angle:
                want.pop("x_mean")
        case = Case({bb, x0}, symmetric={Ax, at(A0, "mean"), at(H0, "mean")}, sem=Columns(), planar=True)
        for n, w in want.items():
            J.decide(f"{label}: {n}", init, le.get(("@", SELF, n)), [w], case)


def check(ctx, res):
    J = Job(ctx, res)
    for u in UNITS:
        try:
            u(J)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, A.TooBig, RecursionError, V.Budget) as e:
            import os
            if os.environ.get("PNSA_TRACE"):
                raise
            res.undecided.append(f"unit {u.__name__}: {type(e).__name__} {e}")


UNITS = [states, iteration, information, conjugate, unit_vectors, solution_update, matrix_update, criteria, belief, compositions, matrix_solver, matrix_priors]
