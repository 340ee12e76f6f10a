"""C19: iterated estimation, merged and converted estimation problems, lists of random variables, orthogonalisation."""
from __future__ import annotations

import itertools
import os
from fractions import Fraction

from .. import rat as R
from .. import vn as V
from ..common import loc, public_class
from ..oblig import SELF
from ..rat import Arr, const, num
from . import c21
from .c18 import at, new, sym
from .c21 import S, mat, vec

LEVEL = "proof-of-formula"
EXPLANATION = (
    "The loops of iterated estimation are followed by value numbering for every number of rounds up to three, recording what each round is "
    "given and what is returned; the convergence measure, merged and converted problems, stacked moments, inner products, norms and "
    "orthogonalised vectors are expanded entry by entry into rational functions of the inputs and compared with their definition."
)
ASSUMPTIONS = [
    "NumPy primitives compute what they document; rounding is not modelled.",
    "Merging is decided for all interleavings of up to three and two locations, orthogonalisation for up to two basis vectors in two dimensions.",
]
FS = "probnum.filtsmooth."
C = const


def istuple(t):
    return t[0] == "tup" or (t[0] == "at" and t[2] == "shape") or (t[0] == "idx" and t[2][0] == "slice" and istuple(t[1])) or (
        t[0] == "bin" and t[1] == "+" and (istuple(t[2]) or istuple(t[3])))


def leaves(t):
    """Alternatives of a choice."""
    if t[0] == "phi":
        return leaves(t[2]) + leaves(t[3])
    return [t]


def numbers(a):
    out = []
    for x in a.xs:
        v = num(x).value() if not isinstance(x, bool) else x
        if v is None:
            raise R.Unknown("not a number")
        out.append(v)
    return out


def primitives(ev, t):
    """NumPy primitives on known numbers, tuples of lengths."""
    if t[0] == "bin" and t[1] == "+" and (istuple(t[2]) or istuple(t[3])):
        s = [ev.static(x) for x in t[2:4]]
        s = [x if isinstance(x, tuple) else (x,) for x in s]
        return Arr((len(s[0]) + len(s[1]),), [C(x) for x in s[0] + s[1]])
    if t[0] == "idx" and istuple(t[1]) and t[1][0] != "tup":
        s = ev.static(t[1])
        s = (s if isinstance(s, tuple) else (s,))[ev.static(t[2])]
        return Arr((len(s),), [C(x) for x in s]) if isinstance(s, tuple) else R.scalar(s)
    if t[0] not in ("call", "m"):
        return None
    nm = str(t[1] if t[0] == "call" else t[2]).split(".")[-1]
    args = t[2] if t[0] == "call" else (t[1],) + tuple(t[3])
    kw = dict(t[3] if t[0] == "call" else t[4])
    if nm == "len":
        return R.scalar(ev(args[0]).shape[0])
    if nm in ("in1d", "isin"):
        a, b = numbers(ev(args[0])), numbers(ev(args[1]))
        return Arr((len(a),), [x in b for x in a])
    if nm == "intersect1d":
        a, b = numbers(ev(args[0])), numbers(ev(args[1]))
        r = sorted(set(a) & set(b))
        return Arr((len(r),), [C(x) for x in r])
    if nm in ("sort", "sorted", "unique"):
        a = sorted(numbers(ev(args[0])))
        if nm == "unique":
            a = sorted(set(a))
        return Arr((len(a),), [C(x) for x in a])
    if nm == "argsort":
        a = numbers(ev(args[0]))
        return Arr((len(a),), [C(i) for i in sorted(range(len(a)), key=lambda i: a[i])])
    if nm == "searchsorted":
        a, b = numbers(ev(args[0])), numbers(ev(args[1] if len(args) > 1 else kw["v"]))
        side = kw.get("side", args[2] if len(args) > 2 else ("c", "left"))[1]
        return Arr((len(b),), [C(sum(1 for y in a if y < x or (side == "right" and y == x))) for x in b])
    if nm == "take":
        ax = ev.static(kw["axis"]) if "axis" in kw else 0
        if ax == 0:
            return ev.index(ev(args[0]), args[1])
    if nm == "shape" and t[0] == "call":
        s = ev(args[0]).shape
        return Arr((len(s),), [C(x) for x in s])
    if nm == "moveaxis" and len(args) == 3:
        a, i, j = ev(args[0]), ev.static(args[1]), ev.static(args[2])
        n = len(a.shape)
        order = [k for k in range(n) if k != i % n]
        order.insert(j % n, i % n)
        return R.build(tuple(a.shape[k] for k in order), lambda x: a.at(tuple(x[order.index(k)] for k in range(n))))
    if nm == "expand_dims":
        a = ev(args[0])
        k = ev.static(args[1] if len(args) > 1 else kw["axis"]) % (len(a.shape) + 1)
        return Arr(a.shape[:k] + (1,) + a.shape[k:], a.xs)
    if nm == "squeeze":
        a = ev(args[0])
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if ax is not None:
            ax = ev.static(ax)
            ax = {k % len(a.shape) for k in (ax if isinstance(ax, tuple) else (ax,))}
            if any(a.shape[k] != 1 for k in ax):
                raise R.Unknown("squeezed axis")
            return Arr(tuple(n for k, n in enumerate(a.shape) if k not in ax), a.xs)
    if nm == "atleast_2d":
        a = ev(args[0])
        return Arr((1,) * (2 - len(a.shape)) + a.shape, a.xs)
    if nm == "norm" and "keepdims" in kw and ev.static(kw["keepdims"]):
        a = ev(args[0])
        r = R.reduced(R.zipped(lambda x: num(x) * num(x), a), ev.static(kw["axis"]) if "axis" in kw else None, R.total, True)
        return R.zipped(lambda x: x.power(C(Fraction(1, 2))), r)
    if nm == "einsum" and args[0][0] == "c":
        return einsum(args[0][1], [ev(x) for x in args[1:]])
    return None


def einsum(spec, xs):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if len(ins) != len(xs):
        raise R.Unknown("einsum")
    # ellipses: broadcast leading axes
    full, extra = [], max((len(x.shape) - len(s.replace("...", "")) for s, x in zip(ins, xs) if "..." in s), default=0)
    for s, x in zip(ins, xs):
        if "..." in s:
            k = len(x.shape) - len(s.replace("...", ""))
            s = s.replace("...", "".join("ABCDEFGH"[extra - k:extra]))
        if len(s) != len(x.shape):
            raise R.Unknown("einsum")
        full.append(s)
    if out is None:
        letters = "".join(full)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    out = out.replace("...", "ABCDEFGH"[:extra])
    size = {}
    for s, x in zip(full, xs):
        for c, n in zip(s, x.shape):
            size[c] = max(size.get(c, 1), n)
    inner = [c for c in size if c not in out]

    def entry(i):
        def term(j):
            pos = dict(zip(out, i)) | dict(zip(inner, j))
            return R.product(num(x.at(tuple(pos[c] if n > 1 else 0 for c, n in zip(s, x.shape)))) for s, x in zip(full, xs))
        return R.total(term(j) for j in R.indices(tuple(size[c] for c in inner)))
    return R.build(tuple(size[c] for c in out), entry)


def bound(names, args, kwargs):
    """Arguments by name, ** of known dictionaries included."""
    b = dict(zip(names, args))
    for k, v in kwargs:
        if k is None:
            if v[0] != "dict" or any(x[0] != "c" for x, _ in v[1]):
                raise R.Unknown("keyword arguments")
            b.update((x[1], y) for x, y in v[1])
        else:
            b[k] = v
    return b


class Job(c21.Job):
    def public(self, name):
        return public_class(self.p, name)

    def func(self, module, name):
        for m in self.p.modules.values():
            if m.name.startswith(module) and name in m.functions:
                return m.functions[name]
        return None

    @staticmethod
    def follow(vn, f, cls, env):
        """Value of f with local names and attributes bound as given."""
        e = dict(env)
        for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            e.setdefault(a.arg, sym(a.arg))
        return vn.body(f, e, cls)

    def bad(self, where, f, message):
        self.res.add("estimation", where, message, **loc(f))

    def entries(self, t, env, sign=None, extra=None):
        def both(ev, t):
            r = extra(ev, t) if extra is not None else None
            return r if r is not None else primitives(ev, t)
        return R.Eval(env, sign, both)(V.strip_raise(t))

    def conditions(self, env, first=None):
        """Decide branches on known shapes and numbers."""
        def decide(c):
            if first is not None:
                r = first(c)
                if r is not None:
                    return r
            if c[0] == "is" and V.NONE in c[1:] or c[0] == "cmp" and c[1] in ("is", "==") and V.NONE in c[2:]:
                return False
            if c[0] == "cmp" and c[1] in ("==", "!=") and istuple(c[2]) and istuple(c[3]):
                ev = R.Eval(env, None, primitives)
                try:
                    return (ev.static(c[2]) == ev.static(c[3])) == (c[1] == "==")
                except Exception:
                    return None
            try:
                a = self.entries(c, env)
            except Exception:
                return None
            if len(a.xs) == 1 and isinstance(a.xs[0], bool):
                return a.xs[0]
            if c[0] == "truth" and len(a.xs) == 1 and num(a.xs[0]).value() is not None:
                return num(a.xs[0]).value() != 0
            return None
        return decide

    # ------------------------------------------------------------ convergence
    def criterion(self):
        cls = self.public(FS + "optim.FiltSmoothStoppingCriterion")
        f = cls.find("__call__")
        where = "convergence criterion of iterated estimation"
        n = 2
        env = {"error": vec("e", n), "reference": vec("x", n), "a": Arr((), [S("a")]), "r": Arr((), [S("r")])}
        term = lambda i: S(f"e{i}") / (S("a") + S("r") * R.fun("abs", S(f"x{i}")))
        square = (term(0) * term(0) + term(1) * term(1)) / C(n)
        M = square.power(C(Fraction(1, 2)))

        def extreme(ev, t):
            """Measures of size that are no root mean square."""
            nm = str(t[1]).split(".")[-1] if t[0] == "call" else t[2] if t[0] == "m" else ""
            if nm in ("max", "amax", "min", "amin", "median", "ptp"):
                ev(t[2][0] if t[0] == "call" else t[1])
                return Arr((), [S(f"the {nm} of the entries")])
            return None

        def run(count, level):
            odd = []

            def decide(c):
                if c[0] != "cmp" or c[1] not in ("<", "<=", ">", ">="):
                    return None
                x, y = (self.entries(z, env, extra=extreme) for z in c[2:4])
                if x.shape or y.shape:
                    return None
                x, y = num(x.xs[0]), num(y.xs[0])
                for ref in (M, square):
                    if x.same(ref) and y.same(C(1)):
                        p, q = level, 0
                    elif y.same(ref) and x.same(C(1)):
                        p, q = 0, level
                    elif (x - y).same(ref - C(1)):
                        p, q = level, 0
                    elif (x - y).same(C(1) - ref):
                        p, q = 0, level
                    else:
                        continue
                    return {"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[c[1]]
                odd.append((x, y))
                return None
            ev = self.eval(decide)
            vn = ev.new_vn()
            st = {("@", SELF, k): v for k, v in {"iterations": ("c", count), "maxit": ("c", 3), "atol": sym("a"), "rtol": sym("r")}.items()}
            out, _ = ev.method(cls, "__call__", {"error": sym("error"), "reference": sym("reference")}, vn=vn, state=st)
            if odd:
                x, y = odd[0]
                self.bad(where, f, f"the comparison is of {str(R.show(x))[:200]} with {str(R.show(y))[:120]}, not of the root mean square of error over tolerance with one")
                return
            after = (vn.last_env or {}).get(("@", SELF, "iterations"))
            out = out if out is None or out[0] == "raise" else V.strip_raise(out)
            if count > 3:
                want, left = ("raise",), ("c", 0)
            elif level > 0:
                want, left = ("c", False), ("c", count + 1)
            else:
                want, left = ("c", True), ("c", 0)
            self.res.count("obligations", 2)
            situation = f"after {count} rounds with at most 3 allowed and an error {['below', 'equal to', 'above'][level + 1]} the tolerance"
            if out is None or out[0] not in ("c", "raise") or after is None or after[0] != "c":
                raise R.Unknown(f"{out} {after}")
            if out[0] != want[0] or out[0] == "c" and bool(out[1]) != want[1]:
                self.bad(where, f, f"{situation} it {'raises' if out[0] == 'raise' else 'stops' if out[1] else 'goes on'}, must {'raise' if want[0] == 'raise' else 'stop' if want[1] else 'go on'}")
            elif after != left:
                self.bad(where, f, f"{situation} the number of rounds kept for the next call is {after[1]}, must be {left[1]}")
        for count in (0, 2, 3, 4):
            for level in (-1, 0, 1):
                self.unit(f, where, lambda: run(count, level))
        init = cls.find("__init__")

        def built():
            ev = self.eval()
            vn = ev.new_vn()
            vn.func(init, cls, {"atol": sym("a"), "rtol": sym("r"), "maxit": sym("m")})
            st = vn.last_env or {}
            for k, v in (("atol", sym("a")), ("rtol", sym("r")), ("maxit", sym("m")), ("iterations", ("c", 0))):
                got = st.get(("@", SELF, k))
                if got is not None and got[0] in ("s", "c") and got != v:
                    self.bad(where, init, f"{k} starts as {got[1]}, must be {v[1]}")
                self.res.count("obligations")
        self.unit(init, where, built)

    # ------------------------------------------------------------ iterated conditioning
    def iterated(self):
        cls = self.public(FS + "optim.IteratedDiscreteComponent")
        comp, crit = sym("component"), sym("criterion")
        st = {("@", SELF, k): comp for k in ("_component", "component")}
        st.update({("@", SELF, "stopcrit"): crit})
        where = "iterated conditioning"
        f = cls.find("backward_rv")
        given = {k: sym(k) for k in ("rv_obtained", "rv", "rv_forwarded", "gain", "t", "dt", "_diffusion", "_linearise_at")}
        same = ("rv_obtained", "rv", "t", "dt", "_diffusion")
        order = list(given)

        def run(rounds):
            calls, tests = [], []

            def summ(fr, fn, args, kwargs):
                if fn[0] in ("at", "bound") and fn[1] == comp and str(fn[2]).split(".")[-1] in ("backward_rv", "backward_realization"):
                    b = bound(order, args, kwargs)
                    calls.append((str(fn[2]).split(".")[-1], b))
                    return ("tup", (sym(f"estimate{len(calls)}"), sym(f"info{len(calls)}")))
                if fn == crit:
                    b = bound(("error", "reference"), args, kwargs)
                    tests.append(b)
                    return ("c", len(tests) > rounds)
                return None
            ev = self.eval(summ=summ)
            vn = ev.new_vn()
            out, _ = ev.method(cls, "backward_rv", given, vn=vn, state=st)
            out = V.strip_raise(out)
            self.res.count("obligations", 3 + rounds)
            if out is None or out[0] != "tup" or not calls:
                raise R.Unknown("loop not followed")
            if len(tests) != rounds + 1 or len(calls) != rounds + 1:
                self.bad(where, f, f"when the criterion asks for {rounds} more rounds, the model is applied {len(calls)} times and the criterion {len(tests)} times")
                return
            for k, (name, b) in enumerate(calls):
                for p in same:
                    v = b.get(p, V.NONE)
                    if v != given[p] and v[0] in ("s", "c", "none"):
                        self.bad(where, f, f"round {k + 1} conditions with {p} = {self.say(v)}, must be the given one")
                want = given["_linearise_at"] if k == 0 else sym(f"estimate{k}")
                for v in leaves(b.get("_linearise_at", V.NONE)) if k else [b.get("_linearise_at", V.NONE)]:
                    if v != want and (v[0] in ("s", "c", "none") or v == V.NONE):
                        self.bad(where, f, f"round {k + 1} linearises at {self.say(v)}, must be {self.say(want)}")
                for p in ("rv_forwarded", "gain"):
                    v = b.get(p, V.NONE)
                    if v != V.NONE and k > 0 and v == given[p]:
                        self.bad(where, f, f"round {k + 1} re-uses the {p} of another linearisation")
            self.flow(where, f, tests, [sym(f"estimate{k + 1}") for k in range(len(tests))], lambda e: at(e, "mean"))
            got = V.finite(out)
            want = [sym(f"estimate{rounds + 1}"), sym(f"info{rounds + 1}")]
            for g, w, what in zip(got, want, ("estimate", "information")):
                if g != w and g[0] == "s":
                    self.bad(where, f, f"after {rounds + 1} rounds the {what} returned is {self.say(g)}, must be {self.say(w)}")
        for rounds in (0, 1, 2, 3):
            self.unit(f, where, lambda: run(rounds))
        # other entry points
        for name, fixed in (("forward_rv", ("rv", "t", "dt", "compute_gain", "_diffusion", "_linearise_at")), ("forward_realization", ("realization", "t", "dt", "compute_gain", "_diffusion", "_linearise_at"))):
            g = cls.find(name)
            if g is None:
                continue

            def through():
                seen = []

                def summ(fr, fn, args, kwargs):
                    if fn[0] in ("at", "bound") and fn[1] == comp:
                        b = bound(fixed, args, kwargs)
                        seen.append((str(fn[2]).split(".")[-1], b))
                        return sym("result")
                    return None
                ev = self.eval(summ=summ)
                out, _ = ev.method(cls, name, {k: sym(k) for k in fixed}, state=st)
                self.res.count("obligations", 2)
                if len(seen) != 1:
                    raise R.Unknown("delegation")
                if seen[0][0] != name:
                    self.bad("iterated component", g, f"{name} is answered by {seen[0][0]} of the component")
                for k in fixed:
                    v = seen[0][1].get(k, V.NONE)
                    if v != sym(k) and (v[0] in ("s", "c") or v == V.NONE):
                        self.bad("iterated component", g, f"{name} hands on {k} = {self.say(v)}")
                if V.strip_raise(out) != sym("result") and V.strip_raise(out)[0] in ("s", "c"):
                    self.bad("iterated component", g, f"{name} does not return the component's result")
            self.unit(g, "iterated component " + name, through)
        g = cls.find("backward_realization")

        def real():
            seen = []

            def summ(fr, fn, args, kwargs):
                if fn[0] in ("at", "bound") and fn[1] == SELF and str(fn[2]).split(".")[-1] == "backward_rv":
                    b = bound(order, args, kwargs)
                    seen.append(b)
                    return sym("result")
                return None
            ev = self.eval(summ=summ)
            args = dict(given)
            args["realization_obtained"] = sym("realization")
            args.pop("rv_obtained")
            ev.method(cls, "backward_realization", args, state=st)
            self.res.count("obligations", 2)
            if len(seen) != 1:
                raise R.Unknown("delegation")
            o = new(seen[0].get("rv_obtained", V.NONE), "Constant")
            if o is not None and o.get("support") != sym("realization"):
                self.bad("iterated component", g, "the observed realisation is not what is conditioned on")
            for k in order[1:]:
                v = seen[0].get(k, V.NONE)
                if v != given[k] and (v[0] in ("s", "c") or v == V.NONE):
                    self.bad("iterated component", g, f"conditioning on a realisation hands on {k} = {self.say(v)}")
        if g is not None:
            self.unit(g, "iterated component realisation", real)

    @staticmethod
    def say(v):
        return "nothing" if v == V.NONE else str(v[1]) if v[0] in ("s", "c") else str(v)[:60]

    def flow(self, where, f, tests, estimates, mean):
        """error = difference of consecutive means, reference = the latest mean."""
        env = {}
        alias = {}
        for k, e in enumerate(estimates):
            alias[mean(e)] = vec(f"m{k}_", 2)

        def extra(ev, t):
            if t in alias:
                return alias[t]
            if t[0] == "at" and t[2] == "mean" and t[1][0] == "s":
                return vec(f"mean of {t[1][1]} ", 2)
            if t[0] == "m" and t[2] == "copy" and not t[3]:
                return ev(t[1])
            if t[0] == "ext" and t[1].endswith(".inf") or t == ("c", float("inf")):
                return Arr((), [S("infinity")])
            return None
        for k, b in enumerate(tests):
            if "error" not in b or "reference" not in b:
                raise R.Unknown("criterion arguments")
            ref = self.entries(b["reference"], env, extra=extra)
            err = self.entries(b["error"], env, extra=extra)
            self.res.count("obligations", 2)
            for i in range(2):
                now = S(f"m{k}_{i}")
                if not num(ref.xs[i if len(ref.xs) > 1 else 0]).same(now):
                    self.bad(where, f, f"the criterion of round {k + 1} compares with {R.show(num(ref.xs[0]))}, not with the latest mean")
                    return
                if k == 0:
                    continue
                d = now - S(f"m{k - 1}_{i}")
                x = num(err.xs[i if len(err.xs) > 1 else 0])
                if not x.same(d) and not x.same(C(0) - d):
                    self.bad(where, f, f"the criterion of round {k + 1} measures {R.show(x)}, not the change of the mean in that round")
                    return

    # ------------------------------------------------------------ Gauss-Newton
    def gauss_newton(self):
        cls = self.public(FS + "optim.GaussNewton")
        f = cls.find("solution_generator")
        where = "Gauss-Newton smoother"
        kal, crit, prob, guess = sym("kalman"), sym("criterion"), sym("regression_problem"), sym("estimate0")
        st = {("@", SELF, "kalman"): kal, ("@", SELF, "stopping_criterion"): crit}

        def run(rounds):
            calls, tests = [], []

            def summ(fr, fn, args, kwargs):
                if fn[0] in ("at", "bound") and fn[1] == kal and str(fn[2]).split(".")[-1] == "filtsmooth":
                    b = bound(("regression_problem", "_previous_posterior"), args, kwargs)
                    calls.append(b)
                    return ("tup", (sym(f"estimate{len(calls)}"), sym(f"info{len(calls)}")))
                if fn == crit:
                    b = bound(("error", "reference"), args, kwargs)
                    tests.append(b)
                    return ("c", len(tests) > rounds)
                return None
            ev = self.eval(summ=summ)
            vn = ev.new_vn()
            vn.collect = True
            out, _ = ev.method(cls, "solution_generator", {"regression_problem": prob, "initial_guess": guess}, vn=vn, state=st)
            if out is None or out[0] != "list" or any(x[0] == "unk" for x in out[1]):
                raise R.Unknown("loop not followed")
            self.res.count("obligations", 3 + rounds)
            if len(calls) != rounds or len(tests) != rounds + 1:
                self.bad(where, f, f"when the criterion asks for {rounds} rounds, smoothing runs {len(calls)} times")
                return
            for k, b in enumerate(calls):
                v = b.get("_previous_posterior", V.NONE)
                if v != sym(f"estimate{k}") and (v[0] == "s" or v == V.NONE):
                    self.bad(where, f, f"round {k + 1} linearises at {self.say(v)}, must be the estimate of the round before")
                if b.get("regression_problem") not in (prob, None) and b["regression_problem"][0] in ("s", "c"):
                    self.bad(where, f, f"round {k + 1} smooths {self.say(b['regression_problem'])}")
            self.flow(where, f, tests, [sym(f"estimate{k}") for k in range(rounds + 1)], lambda e: at(at(e, "states"), "mean"))
            if len(out[1]) != rounds + 1:
                self.bad(where, f, f"after {rounds} rounds {len(out[1])} results are handed out, must be {rounds + 1}")
                return
            for k, y in enumerate(out[1]):
                p = V.index(y, ("c", 0))
                if p != sym(f"estimate{k}") and p[0] == "s":
                    self.bad(where, f, f"the result handed out after round {k} is {self.say(p)}")
                i = V.index(y, ("c", 1))
                if k and i != sym(f"info{k}") and i[0] == "s":
                    self.bad(where, f, f"the information handed out after round {k} is {self.say(i)}")
        for rounds in (0, 1, 2, 3):
            self.unit(f, where, lambda: run(rounds))
        g = cls.find("solve")

        def last(n):
            items = ("list", tuple(("tup", (sym(f"estimate{k}"), sym(f"info{k}"))) for k in range(n)))
            got = []

            def summ(fr, fn, args, kwargs):
                if fn[0] in ("at", "bound") and str(fn[2]).split(".")[-1] == "solution_generator":
                    b = bound(("regression_problem", "initial_guess"), args, kwargs)
                    got.append(b)
                    return items
                return None
            ev = self.eval(summ=summ)
            out, _ = ev.method(cls, "solve", {"regression_problem": prob, "initial_guess": guess}, state=st)
            out = V.strip_raise(out)
            self.res.count("obligations")
            if out is None or out[0] != "tup":
                raise R.Unknown("solve")
            if got and (got[0].get("regression_problem"), got[0].get("initial_guess")) != (prob, guess):
                self.bad(where, g, "the problem or the initial guess is not handed to the iteration")
            for x, w in zip(out[1], (sym(f"estimate{n - 1}"), sym(f"info{n - 1}"))):
                if x != w and x[0] in ("s", "c"):
                    self.bad(where, g, f"of {n} estimates the one returned is {self.say(x)}, must be the last")
        for n in (1, 2, 3):
            self.unit(g, where + " result", lambda: last(n))

    # ------------------------------------------------------------ merged problems
    def merged(self):
        f = self.func(FS + "utils", "merge_regression_problems")
        where = "merged regression problems"
        if f is None:
            self.res.undecided.append("merge_regression_problems not found")
            return

        def problem(k, locs, solved):
            n = len(locs)
            p = sym(f"problem{k}")
            return p, {
                ("@", p, "locations"): sym(f"locs{k}"), ("@", p, "observations"): sym(f"data{k}"), ("@", p, "measurement_models"): sym(f"models{k}"),
                ("@", p, "solution"): sym(f"sol{k}") if solved else V.NONE}, {
                f"locs{k}": Arr((n,), [C(x) for x in locs]), f"data{k}": mat(f"d{k}_", n, 2), f"models{k}": vec(f"model{k}_", n), f"sol{k}": mat(f"s{k}_", n, 2)}

        def run(l1, l2, s1, s2):
            p1, h1, e1 = problem(1, l1, s1)
            p2, h2, e2 = problem(2, l2, s2)
            env = {**e1, **e2}

            def none(c):
                if c[0] == "is" and V.NONE in c[1:] or c[0] == "cmp" and c[1] == "is" and V.NONE in c[2:]:
                    o = [x for x in c[1:] if isinstance(x, tuple) and x != V.NONE]
                    return None if not o or o[0][0] not in ("s", "c") else False
                return None
            ev = self.eval(self.conditions(env, none), summ=self.fold)
            vn = ev.new_vn()
            names = [a.arg for a in f.node.args.args]
            r = self.follow(vn, f, None, {names[0]: p1, names[1]: p2, **h1, **h2})
            self.res.count("obligations", 4)
            if set(l1) & set(l2):
                if r is not None and new(r, "TimeSeriesRegressionProblem") is not None:
                    self.bad(where, f, f"problems that share a location ({l1} and {l2}) are merged")
                return
            if r is not None and r[0] == "raise":
                self.bad(where, f, f"problems at the distinct locations {l1} and {l2} are rejected")
                return
            d = new(V.strip_raise(r), "TimeSeriesRegressionProblem")
            if d is None:
                raise R.Unknown("no problem is built")
            both = sorted([(x, 1, i) for i, x in enumerate(l1)] + [(x, 2, i) for i, x in enumerate(l2)])
            ents = lambda k: self.entries(d[k], env)
            what = f"locations {l1} and {l2}"
            n = len(both)
            for key, width, pre in (("locations", 0, None), ("observations", 2, "d"), ("measurement_models", 0, "model"), ("solution", 2, "s")):
                if key == "solution" and not (s1 and s2):
                    if d[key] != V.NONE and d[key][0] in ("s", "upd", "call"):
                        self.bad(where, f, "a solution is stated although one of the problems has none")
                    continue
                if d.get(key) == V.NONE:
                    self.bad(where, f, f"{key} of the merged problem is missing")
                    continue
                a = ents(key)
                if a.shape != ((n, 2) if width else (n,)):
                    self.bad(where, f, f"{key} of {what} has shape {a.shape}")
                    continue
                for row, (x, k, i) in enumerate(both):
                    for j in range(max(width, 1)):
                        got = num(a.at((row, j) if width else (row,)))
                        want = C(x) if pre is None else S(f"{pre}{k}_{i}" + (f"_{j}" if width else ""))
                        if not got.same(want):
                            self.bad(where, f, f"at location {x} of {what} the {key} hold {R.show(got)}, must be {R.show(want)}")
                            return
        cases = []
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
            for pick in itertools.combinations(range(n + m), n):
                rest = tuple(x for x in range(n + m) if x not in pick)
                cases.append((pick, rest))
                if n > 1:
                    cases.append((pick[::-1], rest))
                if m > 1:
                    cases.append((pick, rest[::-1]))
        cases += [((0, 2), (2, 3)), ((1,), (1,))]
        for l1, l2 in cases:
            self.unit(f, where, lambda: run(l1, l2, True, True))
        for s1, s2 in ((True, False), (False, True), (False, False)):
            self.unit(f, where, lambda: run((0, 2), (1,), s1, s2))

    # ------------------------------------------------------------ regression problem data
    def problem_data(self):
        cls = self.public("probnum.problems.TimeSeriesRegressionProblem")
        f = cls.find("__getitem__")

        def item():
            ev = self.eval()
            st = {("@", SELF, k): sym(k) for k in ("locations", "observations", "measurement_models")}
            out, _ = ev.method(cls, "__getitem__", {[a.arg for a in f.node.args.args][1]: sym("k")}, state=st)
            out = V.strip_raise(out)
            self.res.count("obligations", 3)
            if out[0] != "tup" or len(out[1]) != 3:
                raise R.Unknown("item")
            for x, n in zip(out[1], ("locations", "observations", "measurement_models")):
                if x != ("idx", sym(n), sym("k")) and x[0] == "idx":
                    self.bad("regression problem", f, f"item k holds {str(x)[:80]} instead of the k-th of {n}")
        self.unit(f, "item of a regression problem", item)

    # ------------------------------------------------------------ initial value problems as regression problems
    def converted(self):
        f = self.func("probnum.diffeq.odefilter.utils", "ivp_to_regression_problem")
        where = "regression problem of an initial value problem"
        if f is None:
            self.res.undecided.append("ivp_to_regression_problem not found")
            return
        ivp, op, strat, variance = sym("ivp"), sym("operator"), sym("strategy"), sym("variance")
        d, nu = 2, 2
        D = d * (nu + 1)

        def run(n, excluded, noisy, strategy, solved):
            locs = [sym(f"t{i}") for i in range(n)]
            env = {"variance": Arr((), [S("variance")]), "y0": vec("y", d)}
            order = []

            def first(c):
                if V.contains(c, lambda t: t == variance):
                    if c[0] == "cmp" and c[1] in ("<", ">", "<=", ">="):
                        p, q = (1 if x == variance and noisy else 0 for x in c[2:4])
                        if all(x == variance or x[0] == "c" and x[1] == 0 for x in c[2:4]):
                            return {"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[c[1]]
                    if c[0] == "cmp" and c[1] in ("==", "!=") and any(x[0] == "c" and x[1] == 0 for x in c[2:4]):
                        return (not noisy) == (c[1] == "==")
                    if c[0] == "truth" and c[1] == variance:
                        return noisy
                return None

            def summ(fr, fn, args, kwargs):
                nm = str(fn[2]).split(".")[-1] if fn[0] in ("at", "bound") else ""
                if nm == "incorporate_ode" and fn[1] == op:
                    order.append(("ode", args[0] if args else dict(kwargs).get("ode")))
                    return V.NONE
                if nm == "solution" and fn[1] == ivp and args:
                    return ("solution", args[0])
                if fn == strat and args:
                    order.append(("strategy", args[0]))
                    return sym("approximated operator")
                if nm == "as_transition":
                    order.append(("transition", fn[1]))
                    kw = dict(kwargs)
                    nf = kw.get("noise_fun", args[0] if args else None)
                    noise = V.NONE if nf in (None, V.NONE) else fr.call(nf, (sym("t"),), ())
                    return ("ode model", fn[1], noise)
                if nm == "from_linop" or fn[0] == "pfunc" and str(fn[1]).split(".")[-1] == "from_linop":
                    return ("dirac model", dict(kwargs).get("transition_matrix", args[0] if args else V.NONE), dict(kwargs).get("noise_mean", args[1] if len(args) > 1 else V.NONE))
                return self.fold(fr, fn, args, kwargs)
            ev = self.eval(self.conditions(env, first), summ=summ)
            vn = ev.new_vn()
            heap = {("@", ivp, "dimension"): ("c", d), ("@", ivp, "y0"): sym("y0"), ("@", ivp, "solution"): sym("exact") if solved else V.NONE,
                    ("@", op, "output_dim"): ("c", d), ("@", op, "input_dim"): ("c", D), ("@", sym("approximated operator"), "output_dim"): ("c", d)}
            r = self.follow(vn, f, None, {"ivp": ivp, "locations": ("tup", tuple(locs)), "ode_information_operator": op, "approx_strategy": strat if strategy else V.NONE,
                                  "ode_measurement_variance": variance, "exclude_initial_condition": ("c", excluded), **heap})
            p = new(V.strip_raise(r), "TimeSeriesRegressionProblem")
            if p is None:
                raise R.Unknown("no problem is built")
            self.res.count("obligations", 6)
            if p["locations"] != ("tup", tuple(locs)) and V.finite(p["locations"]) is not None and list(V.finite(p["locations"])) != locs:
                self.bad(where, f, "the locations are not the given ones")
            data = self.entries(p["observations"], env)
            if data.shape != (n, d) or any(not num(x).same(C(0)) for x in data.xs):
                self.bad(where, f, f"the observations are not zeros of shape {(n, d)}")
            if not solved:
                if p.get("solution", V.NONE) != V.NONE and p["solution"][0] in ("call", "solution"):
                    self.bad(where, f, "a solution is stated although the problem has none")
            else:
                xs = p["solution"]
                seq = V.finite(xs[2][0]) if xs[0] == "call" and str(xs[1]).split(".")[-1] in ("stack", "array", "asarray", "vstack") and xs[2] else None
                if seq is None:
                    self.res.undecided.append(where + ": solution")
                else:
                    for k, x in enumerate(seq):
                        v = x[1] if x[0] == "solution" else x[2][0] if x[0] == "call" and x[1] == sym("exact") and x[2] else None
                        if v is not None and v != locs[k]:
                            self.bad(where, f, f"the solution at location {k} is the one at {self.say(v)}")
            ms = V.finite(p["measurement_models"])
            if ms is None:
                raise R.Unknown("measurement models")
            if len(ms) != n:
                self.bad(where, f, f"{len(ms)} measurement models for {n} locations")
                return
            for k, m in enumerate(ms):
                initial = k == 0 and not excluded
                kind = "dirac model" if m[0] == "dirac model" or new(m, "LTIGaussian") is not None else "ode model" if m[0] == "ode model" else None
                if kind is None:
                    raise R.Unknown("measurement model")
                if (kind == "dirac model") != initial:
                    self.bad(where, f, f"location {k} {'with' if not excluded else 'without'} the initial condition has the measurement model of {'the initial value' if kind == 'dirac model' else 'the differential equation'}")
                    return
                if initial:
                    if m[0] == "dirac model":
                        H, mean, noise = m[1], m[2], None
                        if noisy:
                            self.bad(where, f, "the measurement of the initial value has no noise although a variance is given")
                            return
                    else:
                        dd = new(m, "LTIGaussian")
                        H, noise = dd.get("transition_matrix"), dd.get("noise")
                        mean = V.Frame(vn, f, {}, None).attr(noise, "mean")
                    ref = R.build((d, D), lambda i: C(1 if i[1] == i[0] * (nu + 1) else 0))
                    h = self.entries(H, env, extra=self.shuffles)
                    if h.shape != ref.shape or any(not num(x).same(y) for x, y in zip(h.xs, ref.xs)):
                        self.bad(where, f, "the initial value is not measured by the matrix that selects the zeroth derivative of every coordinate")
                    mu = self.entries(mean, env)
                    if any(not num(x).same(C(0) - S(f"y{i}")) for i, x in enumerate(mu.xs)) or len(mu.xs) != d:
                        self.bad(where, f, f"the measurement of the initial value is shifted by {R.show(num(mu.xs[0]))}, must be minus the initial value")
                else:
                    noise = m[2] if m[2] != V.NONE else None
                    owner = sym("approximated operator") if strategy else op
                    if m[1] != owner and m[1][0] == "s":
                        self.bad(where, f, f"the differential equation is measured by {self.say(m[1])}, must be {self.say(owner)}")
                    if (noise is None) == noisy:
                        self.bad(where, f, f"the measurement of the differential equation has {'no ' if noise is None else ''}noise")
                        return
                    if noise is not None:
                        mu = self.entries(V.Frame(vn, f, {}, None).attr(noise, "mean"), env)
                        if any(not num(x).same(C(0)) for x in mu.xs):
                            self.bad(where, f, f"the noise of the measured differential equation has mean {R.show(num(mu.xs[0]))}, must be zero")
                if noise is not None:
                    nd = new(noise, "Normal")
                    if nd is None:
                        raise R.Unknown("noise")
                    for key, v in (("cov", S("variance")), ("cov_cholesky", S("variance").power(C(Fraction(1, 2))))):
                        if nd.get(key, V.NONE) == V.NONE:
                            continue
                        c = self.entries(nd[key], env)
                        ref = R.build((d, d), lambda i: v if i[0] == i[1] else C(0))
                        if c.shape != ref.shape or any(not num(x).same(y) for x, y in zip(c.xs, ref.xs)):
                            self.bad(where, f, f"the {key} of the measurement noise is not {R.show(v)} times the identity")
            kinds = [x[0] for x in order]
            if "ode" not in kinds:
                self.bad(where, f, "the differential equation is never handed to the information operator")
            elif order[kinds.index("ode")][1] != ivp and order[kinds.index("ode")][1] is not None and order[kinds.index("ode")][1][0] == "s":
                self.bad(where, f, "the information operator is handed another problem")
        for n in (1, 2, 3):
            for excluded, noisy, strategy, solved in itertools.product((True, False), repeat=4):
                self.unit(f, where, lambda: run(n, excluded, noisy, strategy, solved))

    @staticmethod
    def shuffles(ev, t):
        """reshape with an order."""
        if t[0] in ("m", "call") and str(t[2] if t[0] == "m" else t[1]).split(".")[-1] == "reshape":
            kw = dict(t[4] if t[0] == "m" else t[3])
            args = list(t[3] if t[0] == "m" else t[2][1:])
            a = ev(t[1] if t[0] == "m" else t[2][0])
            shape = ev.static(args[0]) if len(args) == 1 else tuple(ev.static(x) for x in args)
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            n = len(a.xs)
            k = 1
            for s in shape:
                k *= s if s != -1 else 1
            shape = tuple(n // k if s == -1 else s for s in shape)
            o = kw.get("order", ("c", "C"))[1]
            idx = lambda sh: sorted(R.indices(sh), key=lambda i: tuple(reversed(i)) if o == "F" else tuple(i))
            src, dst = idx(a.shape), idx(shape)
            at_ = dict(zip((tuple(i) for i in dst), (tuple(i) for i in src)))
            return R.build(shape, lambda i: a.at(at_[tuple(i)]))
        return None

    # ------------------------------------------------------------ lists of random variables
    def lists(self):
        found = [c for m in self.p.modules.values() if m.name.startswith("probnum.randvars") for c in m.classes.values() if c.name == "_RandomVariableList"]
        if not found:
            self.res.undecided.append("random variable list not found")
            return
        cls = found[0]
        for n in (1, 2, 3):
            items = ("list", tuple(sym(f"rv{i}") for i in range(n)))
            for name in ("mean", "cov", "var", "std", "mode", "support", "probabilities"):
                f = cls.find(name)
                if f is None:
                    continue
                where = f"{name} of a list of random variables"

                def run():
                    ev = self.eval(lambda c: None, summ=lambda fr, fn, a, k: ("c", n) if fn in (("ext", "len"), ("builtin", "len")) or str(fn[1]).split(".")[-1] == "len" and a and a[0] == items else None)
                    vn = ev.new_vn()
                    r = V.strip_raise(self.follow(vn, f, cls, {f.self_name: items}))
                    self.res.count("obligations")
                    alias = {at(sym(f"rv{i}"), name): vec(f"v{i}_", 2) for i in range(n)}
                    others = {q for q in ("mean", "cov", "var", "std", "mode", "support", "probabilities") if q != name}
                    got = self.entries(r, {}, extra=lambda ev, t: alias.get(t) if t[0] == "at" and t[1][0] == "s" and t[2] not in others
                                       else Arr((2,), [S(f"{t[2]} of {t[1][1]}:{j}") for j in range(2)]) if t[0] == "at" and t[1][0] == "s" else None)
                    ref = Arr((n, 2), [S(f"v{i}_{j}") for i in range(n) for j in range(2)])
                    if got.shape != ref.shape:
                        self.bad(where, f, f"{n} variables of shape (2,) give shape {got.shape}")
                    else:
                        for i, (x, y) in enumerate(zip(got.xs, ref.xs)):
                            if not num(x).same(y):
                                self.bad(where, f, f"entry {i} is {R.show(num(x))}, must be the {name} of variable {i // 2}")
                                break
                self.unit(f, where, run)

    # ------------------------------------------------------------ inner products and orthogonalisation
    def linalg(self):
        U = "probnum.utils.linalg"
        inner, norm = self.func(U, "inner_product"), self.func(U, "induced_norm")
        dims = 2

        def given(A):
            def first(c):
                if c[0] == "is" or c[0] == "cmp" and c[1] == "is":
                    o = [x for x in c[1:] if isinstance(x, tuple) and x != V.NONE]
                    return False if o and o[0][0] == "s" else None
                return None
            return first

        def quad(x, y, A):
            if not A:
                return R.total(p * q for p, q in zip(x, y))
            return R.total(x[i] * S(f"A{i}_{j}") * y[j] for i in range(dims) for j in range(dims))
        batch = {(): [()], (3,): [(0,), (1,), (2,)], (2,): [(0,), (1,)]}

        def vector(name, b):
            return Arr(b + (dims,), [S(f"{name}{i}") for i in range(dims * (b[0] if b else 1))])

        def row(a, i):
            return [num(a.at(i + (k,))) for k in range(dims)]
        for A in (False, True):
            for bv, bw in itertools.product(batch, repeat=2):
                if bv and bw and bv != bw:
                    continue

                def run():
                    env = {"v": vector("v", bv), "w": vector("w", bw), "A": mat("A", dims, dims)}
                    vn, r = self.build(inner, {"v": sym("v"), "w": sym("w"), "A": sym("A") if A else V.NONE}, self.conditions(env, given(A)))
                    got = self.entries(r, env)
                    out = bv or bw
                    ref = R.build(out, lambda i: quad(row(env["v"], i if bv else ()), row(env["w"], i if bw else ()), A))
                    self.res.count("obligations")
                    self.same("inner product", inner, f"the {'weighted ' if A else ''}inner product of shapes {env['v'].shape} and {env['w'].shape}", got, ref)
                if inner is not None:
                    self.unit(inner, "inner product", run)
            for bv in batch:
                for axis in (-1, 0) if bv else (-1,):
                    def run2():
                        v = vector("v", bv)
                        if axis == 0 and bv:
                            v = Arr((dims,) + bv, [S(f"v{j * dims + i}") for i in range(dims) for j in range(bv[0])])
                        env = {"v": v, "A": mat("A", dims, dims)}
                        vn, r = self.build(norm, {"v": sym("v"), "A": sym("A") if A else V.NONE, "axis": ("c", axis)}, self.conditions(env, given(A)))
                        got = self.entries(r, env)
                        ref = R.build(bv, lambda i: quad(row(vector("v", bv), i), row(vector("v", bv), i), A).power(C(Fraction(1, 2))))
                        self.res.count("obligations")
                        self.same("induced norm", norm, f"the {'weighted ' if A else ''}norm along axis {axis} of shape {v.shape}", got, ref)
                    if norm is not None:
                        self.unit(norm, "induced norm", run2)
        twice = self.func(U, "double_gram_schmidt")

        def repeated():
            seen = []
            names = ("v", "orthogonal_basis", "inner_product", "normalize")

            def summ(fr, fn, args, kwargs):
                if fn == sym("gram_schmidt_fn"):
                    seen.append(bound(names, args, kwargs))
                    return sym(f"result{len(seen)}")
                return None
            r = V.strip_raise(self.eval(lambda c: None, summ=summ).new_vn().func(twice, None, {}))
            self.res.count("obligations", 2)
            if len(seen) != 2 or r[0] != "s":
                raise R.Unknown("two passes")
            if r != sym("result2") or seen[1].get("v") != sym("result1") and seen[1].get("v", V.NONE)[0] == "s":
                self.bad("double_gram_schmidt", twice, "the second pass is not applied to the result of the first")
            for k, b in enumerate(seen):
                for q in names[1:3]:
                    v = b.get(q, V.NONE)
                    if v != sym(q) and (v == V.NONE or v[0] in ("s", "c")):
                        self.bad("double_gram_schmidt", twice, f"pass {k + 1} uses {q} = {self.say(v)}")
        if twice is not None:
            self.unit(twice, "double_gram_schmidt", repeated)
        # orthogonalisation
        for name in ("gram_schmidt", "modified_gram_schmidt", "double_gram_schmidt"):
            f = self.func(U, name)
            if f is None:
                continue
            for kind, nb, normalise, bv in [(k, n, z, ()) for k in ("none", "matrix", "callable") for n in (0, 1, 2) for z in (False, True)] + [("none", 1, False, (3,)), ("matrix", 1, False, (3,))]:
                if nb == 0 and not normalise:
                    continue
                if name == "double_gram_schmidt" and (nb == 2 or normalise or kind == "callable" or bv):
                    continue
                if nb == 2 and normalise:
                    continue
                def run3():
                    A = kind == "matrix"
                    basis = [[S(f"u{k}_{i}") for i in range(dims)] for k in range(nb)]
                    v = vector("v", bv)
                    env = {"v": v, "ip": mat("A", dims, dims), "A": mat("A", dims, dims)}
                    for k in range(nb):
                        env[f"u{k}"] = Arr((dims,), basis[k])

                    def first(c):
                        if c[0] == "isinstance" or c[0] == "call" and str(c[1]).endswith("isinstance"):
                            if V.contains(c, lambda t: t == sym("ip")):
                                return A
                            return None
                        if c[0] == "call" and str(c[1]).endswith("callable"):
                            return kind == "callable"
                        return given(A)(c)

                    def summ(fr, fn, args, kwargs):
                        if fn[0] == "ext" and str(fn[1]).split(".")[-1] == "partial" and args:
                            return ("partial", args[0], tuple(args[1:]), tuple(kwargs))
                        if fn[0] == "partial":
                            return fr.call(fn[1], fn[2] + tuple(args), tuple(fn[3]) + tuple(kwargs))
                        if fn == sym("ip") and kind == "callable" and len(args) == 2:
                            return ("inner", args[0], args[1])
                        if fn[0] == "ext" and str(fn[1]).split(".")[-1] == "atleast_2d" and args and args[0][0] in ("list", "tup"):
                            return args[0]
                        return None

                    def extra(ev, t):
                        if t[0] == "inner":
                            x, y = ev(t[1]), ev(t[2])
                            if len(x.shape) != 1 or len(y.shape) != 1:
                                raise R.Unknown("batch")
                            return Arr((), [quad([num(z) for z in x.xs], [num(z) for z in y.xs], True)])
                        return None
                    args = {"v": sym("v"), "orthogonal_basis": ("list", tuple(sym(f"u{k}") for k in range(nb))), "inner_product": sym("ip") if kind != "none" else V.NONE, "normalize": ("c", normalise)}
                    if name == "double_gram_schmidt":
                        base = self.func(U, "modified_gram_schmidt")
                        args["gram_schmidt_fn"] = ("pfunc", base.qual, id(base.node))
                    vn, r = self.build(f, args, self.conditions(env, first), summ)
                    got = self.entries(r, env, extra=extra)
                    weighted = kind != "none"

                    def once(x, modified):
                        y = list(x)
                        for u in basis:
                            c = quad(u, y if modified else x, weighted) / quad(u, u, weighted)
                            y = [p - c * q for p, q in zip(y, u)]
                        if normalise:
                            z = quad(y, y, weighted).power(C(Fraction(1, 2)))
                            y = [p / z for p in y]
                        return y
                    refs = []
                    for modified in (False, True):
                        rows = []
                        for i in batch[bv]:
                            y = once(row(v, i), modified)
                            if name == "double_gram_schmidt" and nb:
                                y = once(y, modified) if not normalise else y
                            rows += y
                        refs.append(Arr(v.shape, rows))
                    self.res.count("obligations")
                    if got.shape != v.shape:
                        self.bad(name, f, f"a vector of shape {v.shape} becomes one of shape {got.shape}")
                        return
                    if not any(all(num(x).same(num(y)) for x, y in zip(got.xs, ref.xs)) for ref in refs):
                        self.bad(name, f, f"with {nb} basis vectors, {'the given' if weighted else 'the standard'} inner product{' and normalisation' if normalise else ''} the result is not the vector minus its projections{' over its norm' if normalise else ''}")
                self.unit(f, name, run3)

    def same(self, where, f, what, got, ref):
        if got.shape != ref.shape:
            self.bad(where, f, f"{what} has shape {got.shape}, expected {ref.shape}")
            return
        for i, (x, y) in enumerate(zip(got.xs, ref.xs)):
            if not num(x).same(num(y)):
                self.bad(where, f, f"{what} is {str(R.show(num(x)))[:200]} in entry {i}, must be {str(R.show(num(y)))[:200]}")
                return


def check(ctx, res):
    j = Job(ctx, res)
    for part in (j.criterion, j.iterated, j.gauss_newton, j.merged, j.problem_data, j.converted, j.lists, j.linalg):
        try:
            part()
        except Exception as e:
            if os.environ.get("PNSA_TRACE"):
                raise
            res.undecided.append(f"{part.__name__}: {type(e).__name__} {e}")
