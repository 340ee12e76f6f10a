"""Elementwise meaning of dataflow terms: small arrays whose entries are rational functions over atoms.

An entry is a quotient of two polynomials. Atoms are parameters and elementary functions of entries (exp, sin, ...), with their
symmetries normalised; equality is decided by cross-multiplication. Derivatives follow the usual rules.
"""
from __future__ import annotations

import math
from fractions import Fraction

from . import vn as V


class Unknown(Exception):
    pass


def _mono(pairs):
    d = {}
    for a, e in pairs:
        d[a] = d.get(a, Fraction(0)) + e
    c = Fraction(1)
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a[0] == "num":
            if a[1] == 1:
                continue
            k = math.floor(e)
            c *= Fraction(a[1]) ** k
            e -= k
            if e == 0:
                continue
        out.append((a, e))
    return c, tuple(sorted(out, key=repr))


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, Fraction(0)) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(p, q):
    if len(p) * len(q) > 40000:
        raise Unknown("size")
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k, o = _mono(m + n)
            v = r.get(o, Fraction(0)) + k * c * d
            if v:
                r[o] = v
            else:
                r.pop(o, None)
    return _trig(r)


def _trig(p):
    """cos^2 = 1 - sin^2."""
    todo = [m for m in p if any(a[0] == "f" and a[1] == "cos" and e >= 2 for a, e in m)]
    if not todo:
        return p
    r = {m: c for m, c in p.items() if m not in todo}
    for m in todo:
        c = p[m]
        a = next(a for a, e in m if a[0] == "f" and a[1] == "cos" and e >= 2)
        rest = tuple((b, e - 2 if b == a else e) for b, e in m)
        _, rest = _mono(rest)
        _, sq = _mono(rest + ((("f", "sin", a[2]), Fraction(2)),))
        r = _padd(r, {rest: c})
        r = _padd(r, {sq: -c})
    return _trig(r)


_ONE = (((), Fraction(1)),)


def _whole(p):
    """root(p)^e with e >= 1: take out whole powers."""
    for _ in range(40):
        hit = None
        for m in p:
            for a, e in m:
                if a[0] == "f" and a[1] == "root" and e >= 1 and a[2][1] == _ONE:
                    hit = (m, a, e)
        if hit is None:
            return p
        m, a, e = hit
        c = p[m]
        k = math.floor(e)
        p = {n: v for n, v in p.items() if n != m}
        q = {_mono(tuple((b, x - k if b == a else x) for b, x in m))[1]: c}
        for _ in range(k):
            q = _pmul(q, dict(a[2][0]))
        p = _padd(p, q)
    return p


class Rat:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {(): Fraction(1)}
        if not self.den:
            raise Unknown("division by zero")
        if len(self.den) == 1:
            (m, c), = self.den.items()
            if m or c != 1:
                k, inv = _mono(tuple((a, -e) for a, e in m))
                self.num = _pmul(self.num, {inv: k / c})
                self.den = {(): Fraction(1)}
        elif not self.num:
            self.den = {(): Fraction(1)}
        self._roots()

    def _roots(self):
        """Fractional powers of sums have exponents between zero and one."""
        for _ in range(40):
            low = None
            for m in self.num:
                for a, e in m:
                    if a[0] == "f" and a[1] == "root" and e < 0 and a[2][1] == _ONE:
                        low = (a, min(e, low[1]) if low and low[0] == a else e) if low is None or low[0] == a else low
            if low is None:
                break
            a, k = low[0], -math.floor(low[1])
            base, up = dict(a[2][0]), {((a, Fraction(k)),): Fraction(1)}
            self.num = _pmul(self.num, up)
            for _ in range(k):
                self.den = _pmul(self.den, base)
        self.num, self.den = _whole(self.num), _whole(self.den)

    def __add__(self, o):
        if self.den == o.den:
            return Rat(_padd(self.num, o.num), self.den)
        return Rat(_padd(_pmul(self.num, o.den), _pmul(o.num, self.den)), _pmul(self.den, o.den))

    def __sub__(self, o):
        return self + o * const(-1)

    def __mul__(self, o):
        if self.num == o.den and len(self.num) > 1:
            return Rat(o.num, self.den)
        if o.num == self.den and len(o.num) > 1:
            return Rat(self.num, o.den)
        return Rat(_pmul(self.num, o.num), _pmul(self.den, o.den))

    def __truediv__(self, o):
        if not o.num:
            raise Unknown("division by zero")
        return self * Rat(o.den, o.num)

    def same(self, o):
        return _padd(_pmul(self.num, o.den), _pmul(o.num, self.den), -1) == {}

    def value(self):
        """The constant, or None."""
        if len(self.den) == 1 and not self.num:
            return Fraction(0)
        if self.den == {(): Fraction(1)} and list(self.num) == [()]:
            return self.num[()]
        return None

    def key(self):
        d = sorted(self.den.items(), key=repr)
        c = d[0][1]
        return (tuple(sorted(((m, v / c) for m, v in self.num.items()), key=repr)), tuple((m, v / c) for m, v in d))

    def power(self, e):
        v = e.value() if isinstance(e, Rat) else Fraction(e)
        if v is None:
            return self.sympow(e)
        if v.denominator == 1 and abs(v) <= 12:
            r = const(1)
            for _ in range(abs(int(v))):
                r = r * self
            return const(1) / r if v < 0 else r
        c = self.value()
        if c is not None:
            if c == 0 and v > 0:
                return const(0)
            if c <= 0:
                raise Unknown("power")
            return Rat({_mono(((("num", c.numerator), v),))[1]: _mono(((("num", c.numerator), v),))[0]}) / (Rat({_mono(((("num", c.denominator), v),))[1]: _mono(((("num", c.denominator), v),))[0]}) if c.denominator != 1 else const(1))
        if self.den == {(): Fraction(1)} and len(self.num) == 1:
            (m, c), = self.num.items()
            if c > 0:
                k, o = _mono(tuple((a, x * v) for a, x in m))
                return const(c).power(const(v)) * Rat({o: k})
        lead = min(self.num.items(), key=lambda t: repr(t[0]))[1]
        if self.den == {(): Fraction(1)} and lead > 0 and lead != 1:
            return const(lead).power(const(v)) * (self * const(1 / lead)).power(const(v))
        whole = math.floor(v)
        return self.power(const(whole)) * Rat({((("f", "root", self.key()), v - whole),): Fraction(1)})

    def sympow(self, e):
        """b ** e with a symbolic exponent: one atom per part of the exponent."""
        if e.den != {(): Fraction(1)}:
            raise Unknown("exponent")
        r = const(1)
        for m, c in e.num.items():
            if m == ():
                r = r * self.power(const(c))
            else:
                r = r * Rat({((("f", "pow", (self.key(), m)), c),): Fraction(1)})
        return r

    def __repr__(self):
        return show(self)


def const(v):
    v = Fraction(v) if not isinstance(v, float) else Fraction(repr(v))
    return Rat({(): v} if v else {})


def sym(n):
    return Rat({((("s", n), Fraction(1)),): Fraction(1)})


def fun(name, x):
    """Elementary function with its symmetries."""
    v = x.value()
    if name == "exp":
        if x.den != {(): Fraction(1)}:
            return Rat({((("f", "expq", x.key()), Fraction(1)),): Fraction(1)})
        return Rat({_mono(tuple((("f", "exp", m), c) for m, c in x.num.items()))[1]: Fraction(1)})
    if name == "abs" and v is not None:
        return const(abs(v))
    if name == "abs" and x.num:
        lead = abs(min(x.num.items(), key=lambda t: repr(t[0]))[1])
        if lead != 1:
            return const(lead) * fun("abs", x * const(1 / lead))
    if name in ("sin", "cos") and x.den == {(): Fraction(1)}:
        turn = (((("s", "pi"), Fraction(1)),))
        c = x.num.get(turn)
        if c is not None and (2 * c).denominator == 1:
            k = int(2 * c) % 4
            y = Rat({m: w for m, w in x.num.items() if m != turn})
            if k or y.num != x.num:
                other = "cos" if name == "sin" else "sin"
                sign = {"cos": (1, -1, -1, 1), "sin": (1, 1, -1, -1)}[name][k]
                return fun(name if k % 2 == 0 else other, y) * const(sign)
    if v == 0 and name in ("sin", "arctan", "tanh", "erf"):
        return const(0)
    if v == 0 and name == "cos":
        return const(1)
    if name in ("sin", "cos", "arctan", "tanh", "erf", "abs", "cdf"):
        lead = min(x.num.items(), key=lambda t: repr(t[0]))[1] if x.num else 1
        dl = min(x.den.items(), key=lambda t: repr(t[0]))[1]
        neg = lead * dl < 0
        if neg:
            x = x * const(-1)
        r = Rat({((("f", name, x.key()), Fraction(1)),): Fraction(1)})
        if neg and name == "cdf":
            return const(1) - r
        return r * const(-1) if neg and name not in ("cos", "abs") else r
    return Rat({((("f", name, x.key()), Fraction(1)),): Fraction(1)})


def _of(key):
    return Rat(dict(key[0]), dict(key[1]))


def diff(r, s):
    """Derivative with respect to the parameter s."""
    def datom(a):
        if a[0] == "s":
            return const(1 if a[1] == s else 0)
        if a[0] == "num":
            return const(0)
        n, k = a[1], a[2]
        me = Rat({((a, Fraction(1)),): Fraction(1)})
        if n in ("exp", "expq"):
            x = Rat({k: Fraction(1)}) if n == "exp" else _of(k)
            return me * diff(x, s)
        if n == "pow":
            if not diff(_of(k[0]), s).same(const(0)) or not diff(Rat({k[1]: Fraction(1)}), s).same(const(0)):
                raise Unknown("derivative of power")
            return const(0)
        x = _of(k)
        d = diff(x, s)
        if d.same(const(0)):
            return const(0)
        if n == "root":
            return d  # of the base; see below
        if n == "sin":
            return fun("cos", x) * d
        if n == "cos":
            return fun("sin", x) * d * const(-1)
        if n == "tanh":
            return (const(1) - fun("tanh", x).power(2)) * d
        if n == "arctan":
            return d / (const(1) + x * x)
        raise Unknown("derivative of " + n)

    def dpoly(p):
        out = const(0)
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                d = datom(a)
                if not d.num:
                    continue
                rest = tuple(x for j, x in enumerate(m) if j != i)
                if a[0] == "f" and a[1] == "root":
                    t = Rat({m: c * e}) / _of(a[2]) * d
                else:
                    k, o = _mono(rest + ((a, e - 1),))
                    t = Rat({o: c * e * k}) * d
                out = out + t
        return out
    n, d = Rat(r.num), Rat(r.den)
    if r.den == {(): Fraction(1)}:
        return dpoly(r.num)
    return (dpoly(r.num) * d - n * dpoly(r.den)) / (d * d)


def subs(r, table):
    """Replace parameters by entries."""
    def atom(a, e):
        if a[0] == "s" and a[1] in table:
            return table[a[1]].power(const(e))
        if a[0] == "f":
            n, k = a[1], a[2]
            if n == "exp":
                return fun("exp", subs(Rat({k: Fraction(1)}), table) * const(e))
            if n == "root":
                return subs(_of(k), table).power(const(e))
            if n == "expq":
                return fun("exp", subs(_of(k), table)).power(const(e))
            if n == "pow":
                raise Unknown("substitution")
            return fun(n, subs(_of(k), table)).power(const(e))
        return Rat({((a, e),): Fraction(1)})

    def poly(p):
        out = const(0)
        for m, c in p.items():
            t = const(c)
            for a, e in m:
                t = t * atom(a, e)
            out = out + t
        return out
    return poly(r.num) / poly(r.den)


def show(r):
    def poly(p):
        if not p:
            return "0"
        return " + ".join((f"{c}*" if c != 1 or not m else "") + "*".join(str(atom(a)) + (f"^{e}" if e != 1 else "") for a, e in m) if m else str(c) for m, c in sorted(p.items(), key=repr))

    def atom(a):
        if a[0] == "f":
            if a[1] == "exp":
                return f"exp({poly({a[2]: Fraction(1)})})"
            return f"{a[1]}({show(_of(a[2]))})" if a[1] != "pow" else f"pow({show(_of(a[2][0]))}, {poly({a[2][1]: Fraction(1)})})"
        return a[1]
    s = poly(r.num)
    return s if r.den == {(): Fraction(1)} else f"({s}) / ({poly(r.den)})"


# ------------------------------------------------------------------ arrays
class Arr:
    """shape and entries in row-major order; entries are Rat or bool."""

    def __init__(self, shape, xs):
        self.shape, self.xs = tuple(shape), list(xs)
        n = 1
        for k in self.shape:
            n *= k
        if n != len(self.xs):
            raise Unknown("shape")

    def at(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            k = k * n + i
        return self.xs[k]


def scalar(x):
    return Arr((), [x if isinstance(x, (Rat, bool)) else const(x)])


def indices(shape):
    out = [()]
    for n in shape:
        out = [i + (k,) for i in out for k in range(n)]
    return out


def build(shape, f):
    return Arr(shape, [f(i) for i in indices(shape)])


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise Unknown("broadcast")
        out.append(y if x == 1 else x)
    return tuple(out)


def spread(a, shape):
    off = len(shape) - len(a.shape)
    if off < 0:
        raise Unknown("broadcast")
    for x, y in zip(a.shape, shape[off:]):
        if x not in (1, y):
            raise Unknown("broadcast")
    return build(shape, lambda i: a.at(tuple(0 if n == 1 else k for k, n in zip(i[off:], a.shape))))


def zipped(f, *xs):
    shape = ()
    for x in xs:
        shape = bshape(shape, x.shape)
    xs = [spread(x, shape) for x in xs]
    return Arr(shape, [f(*t) for t in zip(*(x.xs for x in xs))])


def reduced(a, axis, f, keep=False):
    if axis is None:
        return Arr((1,) * len(a.shape) if keep else (), [f(a.xs)])
    axes = sorted({k % len(a.shape) for k in (axis if isinstance(axis, tuple) else (axis,))})
    shape = tuple(n for k, n in enumerate(a.shape) if k not in axes)

    def entry(i):
        out = []
        for j in indices([a.shape[k] for k in axes]):
            full, it, jt = [], iter(i), iter(j)
            for k in range(len(a.shape)):
                full.append(next(jt) if k in axes else next(it))
            out.append(a.at(tuple(full)))
        return f(out)
    r = build(shape, entry)
    return Arr(tuple(1 if k in axes else n for k, n in enumerate(a.shape)), r.xs) if keep else r


def total(xs):
    r = const(0)
    for x in xs:
        r = r + num(x)
    return r


def product(xs):
    r = const(1)
    for x in xs:
        r = r * num(x)
    return r


def num(x):
    return const(1 if x else 0) if isinstance(x, bool) else x


UFUNC = {"exp": "exp", "sin": "sin", "cos": "cos", "arctan": "arctan", "atan": "arctan", "tanh": "tanh", "erf": "erf", "abs": "abs", "absolute": "abs", "fabs": "abs"}
SAME = ("asarray", "array", "float", "int", "asfarray", "ascontiguousarray", "copy", "float64", "atleast_1d", "item")


class Eval:
    """Terms to arrays. env: parameter name -> Arr; sign: Rat -> True (positive) / False (not positive) / None."""

    def __init__(self, env, sign=None, extra=None):
        self.env, self.sign, self.extra, self.memo = env, sign or (lambda d: None), extra, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.ev(t)
        return self.memo[t]

    def static(self, t):
        """Python value of an index, axis or shape."""
        if t[0] == "c":
            return t[1]
        if t[0] in ("tup", "list"):
            return tuple(self.static(x) for x in t[1])
        if t[0] == "slice":
            return slice(*(self.static(x) for x in t[1:]))
        if t[0] == "at" and t[2] == "shape":
            return self(t[1]).shape
        if t[0] == "at" and t[2] == "ndim":
            return len(self(t[1]).shape)
        if t[0] == "at" and t[2] == "size":
            return len(self(t[1]).xs)
        if t[0] == "idx" and t[1][0] == "at" and t[1][2] == "shape":
            return self.static(t[1])[self.static(t[2])]
        if t[0] == "call" and str(t[1]).split(".")[-1] == "len":
            return self(t[2][0]).shape[0]
        if t[0] == "call" and str(t[1]).split(".")[-1] in ("asarray", "array"):
            return self.static(t[2][0])
        if t[0] == "at" and t[2] == "newaxis" or t == ("ext", "numpy.newaxis"):
            return None
        a = self(t)
        if isinstance(a, Arr):
            vs = [x if isinstance(x, bool) else x.value() for x in a.xs]
            if all(v is not None for v in vs):
                vs = [int(v) if not isinstance(v, bool) and v.denominator == 1 else v for v in vs]
                return vs[0] if a.shape == () else tuple(vs)
        raise Unknown("static " + t[0])

    def ev(self, t):
        h = t[0]
        if self.extra is not None:
            r = self.extra(self, t)
            if r is not None:
                return r
        if h == "c":
            if isinstance(t[1], bool):
                return scalar(t[1])
            if isinstance(t[1], (int, float, Fraction)) and t[1] == t[1] and t[1] not in (math.inf, -math.inf):
                return scalar(t[1])
            raise Unknown("constant")
        if h == "s":
            if t[1] in self.env:
                return self.env[t[1]]
            raise Unknown("parameter " + str(t[1]))
        if h in ("ext", "at") and str(t[1 if h == "ext" else 2]).split(".")[-1] == "pi":
            return scalar(sym("pi"))
        if h in ("tup", "list", "arr"):
            xs = [self(x) for x in t[1]]
            if not xs:
                return Arr((0,), [])
            sh = xs[0].shape
            if any(x.shape != sh for x in xs):
                raise Unknown("ragged")
            return Arr((len(xs),) + sh, [e for x in xs for e in x.xs])
        if h == "un":
            a = self(t[2])
            if t[1] == "-":
                return zipped(lambda x: num(x) * const(-1), a)
            if t[1] == "+":
                return a
            if t[1] in ("not", "~"):
                return zipped(lambda x: self.boolean(x, neg=True), a)
        if h == "not":
            return zipped(lambda x: self.boolean(x, neg=True), self(t[1]))
        if h == "bin":
            return self.binary(t[1], self(t[2]), self(t[3]))
        if h == "cmp":
            return zipped(lambda x, y: self.compare(t[1], num(x), num(y)), self(t[2]), self(t[3]))
        if h in ("and", "or"):
            xs = [self(x) for x in t[1:]]
            return zipped(lambda *b: (all if h == "and" else any)(self.boolean(x) for x in b), *xs)
        if h == "lat":
            return zipped(lambda *b: self.lattice(t[1], b), *(self(x) for x in t[2]))
        if h == "phi":
            c = self(t[1])
            if c.shape == () and isinstance(c.xs[0], bool):
                return self(t[2] if c.xs[0] else t[3])
            raise Unknown("branch")
        if h == "truth":
            return self(t[1])
        if h == "T":
            return self.transpose(self(t[1]))
        if h == "idx":
            return self.index(self(t[1]), t[2])
        if h == "upd":
            b, k, v = self(t[1]), t[2], self(t[3])
            try:
                m = self(k)
                if m.xs and all(isinstance(x, bool) for x in m.xs):
                    if v.shape == () and m.shape == b.shape[:len(m.shape)]:
                        return build(b.shape, lambda i: v.xs[0] if m.at(i[:len(m.shape)]) else b.at(i))
                    raise Unknown("masked update")
            except Unknown:
                if k[0] not in ("c", "slice", "tup"):
                    raise
            where = self.index(Arr(b.shape, [const(i) for i in range(len(b.xs))]), k)
            vs = spread(v, where.shape)
            pos = {int(w.value() or 0): x for w, x in zip(where.xs, vs.xs)}
            return Arr(b.shape, [pos.get(i, x) for i, x in enumerate(b.xs)])
        if h == "at":
            if t[2] == "T":
                return self.transpose(self(t[1]))
            if t[2] in ("ndim", "size"):
                return scalar(self.static(t))
            if t[2] == "shape":
                s = self.static(t)
                return Arr((len(s),), [const(x) for x in s])
        if h in ("call", "m"):
            name = str(t[1] if h == "call" else t[2]).split(".")[-1]
            args = list(t[2] if h == "call" else (t[1],) + tuple(t[3]))
            kw = dict(t[3] if h == "call" else t[4])
            return self.call(name, args, kw)
        raise Unknown(h)

    def boolean(self, x, neg=False):
        if not isinstance(x, bool):
            v = x.value()
            if v is None:
                raise Unknown("truth")
            x = v != 0
        return (not x) if neg else x

    def compare(self, op, x, y):
        d = x - y
        v = d.value()
        if v is not None:
            return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op] if op in ("<", "<=", ">", ">=", "==", "!=") else self.bad()
        p, n = self.sign(d), self.sign(d * const(-1))
        if op == ">" and p is not None:
            return p
        if op == "<" and n is not None:
            return n
        if op == "<=" and p is not None:
            return not p
        if op == ">=" and n is not None:
            return not n
        raise Unknown("comparison")

    def bad(self):
        raise Unknown("comparison")

    def lattice(self, which, xs):
        r = num(xs[0])
        for y in xs[1:]:
            y = num(y)
            less = None
            for op, res in (("<", True), (">", False), ("<=", True), (">=", False)):
                try:
                    if self.compare(op, r, y):
                        less = res
                        break
                except Unknown:
                    continue
            if less is None:
                raise Unknown("minimum")
            r = (r if less else y) if which == "min" else (y if less else r)
        return r

    def binary(self, op, a, b):
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "**": lambda x, y: x.power(y)}.get(op)
        if f is not None:
            return zipped(lambda x, y: f(num(x), num(y)), a, b)
        if op in ("%", "//"):
            def whole(x, y):
                u, v = num(x).value(), num(y).value()
                if u is None or not v:
                    raise Unknown(op)
                return const(u % v if op == "%" else u // v)
            return zipped(whole, a, b)
        if op == "@":
            if len(a.shape) == 1 and len(b.shape) == 1:
                return Arr((), [total(x * y for x, y in zip(map(num, a.xs), map(num, b.xs)))])
            if len(a.shape) == 2 and len(b.shape) == 1:
                return build(a.shape[:1], lambda i: total(num(a.at((i[0], k))) * num(b.at((k,))) for k in range(b.shape[0])))
            if len(a.shape) == 1 and len(b.shape) == 2:
                return build(b.shape[1:], lambda i: total(num(a.at((k,))) * num(b.at((k, i[0]))) for k in range(a.shape[0])))
            if len(a.shape) == 2 and len(b.shape) == 2 and a.shape[1] == b.shape[0]:
                return build((a.shape[0], b.shape[1]), lambda i: total(num(a.at((i[0], k))) * num(b.at((k, i[1]))) for k in range(a.shape[1])))
            if min(len(a.shape), len(b.shape)) >= 2 and a.shape[-1] == b.shape[-2]:
                lead = bshape(a.shape[:-2], b.shape[:-2])
                a, b = spread(a, lead + a.shape[-2:]), spread(b, lead + b.shape[-2:])
                return build(lead + (a.shape[-2], b.shape[-1]),
                             lambda i: total(num(a.at(i[:-2] + (i[-2], k))) * num(b.at(i[:-2] + (k, i[-1]))) for k in range(a.shape[-1])))
            if len(a.shape) > 2 and len(b.shape) == 1:
                return build(a.shape[:-1], lambda i: total(num(a.at(tuple(i) + (k,))) * num(b.at((k,))) for k in range(b.shape[0])))
        if op in ("&", "|"):
            return zipped(lambda x, y: (self.boolean(x) and self.boolean(y)) if op == "&" else (self.boolean(x) or self.boolean(y)), a, b)
        raise Unknown("operator " + op)

    def transpose(self, a):
        return build(a.shape[::-1], lambda i: a.at(i[::-1]))

    def reshape(self, a, shape):
        shape = [shape] if isinstance(shape, int) else list(shape)
        if -1 in shape:
            k = 1
            for n in shape:
                k *= n if n != -1 else 1
            shape[shape.index(-1)] = len(a.xs) // k
        return Arr(shape, a.xs)

    def index(self, a, k):
        ks = list(k[1]) if k[0] == "tup" and any(x[0] in ("slice",) or x == V.NONE or x == ("c", None) or x == ("c", Ellipsis) for x in k[1]) else None
        if ks is None:
            s = self.static(k)
            if isinstance(s, tuple) and k[0] == "tup" and len(s) == len(a.shape) and len(s) > 1:
                return Arr((), [a.at(tuple(i % n for i, n in zip(s, a.shape)))])
            if isinstance(s, tuple):  # rows by an index array
                if any(isinstance(i, bool) for i in s):
                    s = tuple(i for i, b in enumerate(s) if b)
                rest = a.shape[1:]
                return build((len(s),) + rest, lambda i: a.at((s[i[0]] % a.shape[0],) + i[1:]))
            ks = [k]
        out, ax = [], 0
        real = sum(1 for x in ks if not (x == V.NONE or x == ("c", Ellipsis)))
        full = []
        for x in ks:
            if x == ("c", Ellipsis):
                full += [("slice", V.NONE, V.NONE, V.NONE)] * (len(a.shape) - real)
            else:
                full.append(x)
        for x in full:
            if x == V.NONE or x == ("ext", "numpy.newaxis"):
                out.append((None, None))
                continue
            if ax >= len(a.shape):
                raise Unknown("index")
            s = self.static(x)
            n = a.shape[ax]
            if isinstance(s, slice):
                out.append((ax, list(range(n))[s]))
            elif isinstance(s, int):
                if not -n <= s < n:
                    raise Unknown("index")
                out.append((ax, s % n))
            elif s is None:
                out.append((None, None))
                continue
            else:
                raise Unknown("index")
            ax += 1
        while ax < len(a.shape):
            out.append((ax, list(range(a.shape[ax]))))
            ax += 1
        shape = [1 if k is None else len(v) for k, v in out if not isinstance(v, int)]

        def entry(i):
            it, src = iter(i), {}
            for k, v in out:
                if isinstance(v, int):
                    src[k] = v
                else:
                    j = next(it)
                    if k is not None:
                        src[k] = v[j]
            return a.at(tuple(src[q] for q in range(len(a.shape))))
        return build(shape, entry)

    def call(self, name, args, kw):
        A = lambda i: self(args[i])
        axis = self.static(kw["axis"]) if "axis" in kw else self.static(args[1]) if name in ("sum", "prod", "any", "all", "mean", "cumprod", "cumsum") and len(args) > 1 else None
        if name in UFUNC:
            return zipped(lambda x: fun(UFUNC[name], num(x)), A(0))
        if name == "sqrt":
            return zipped(lambda x: num(x).power(const(Fraction(1, 2))), A(0))
        if name == "square":
            return zipped(lambda x: num(x) * num(x), A(0))
        if name in ("power", "pow"):
            return self.binary("**", A(0), A(1))
        if name in ("add", "subtract", "multiply", "divide", "remainder", "mod"):
            return self.binary({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "remainder": "%", "mod": "%"}[name], A(0), A(1))
        if name in ("matmul", "dot", "inner"):
            a, b = A(0), A(1)
            return self.binary("@", a, b) if a.shape and b.shape else self.binary("*", a, b)
        if name == "cdf" and len(args) <= 4:
            base = args[1:] if args[0][0] in ("ext", "at", "s") and str(args[0][-1]).endswith("norm") else args
            x = self(base[0])
            loc = self(kw["loc"]) if "loc" in kw else self(base[1]) if len(base) > 1 else scalar(0)
            sc = self(kw["scale"]) if "scale" in kw else self(base[2]) if len(base) > 2 else scalar(1)
            return zipped(lambda x, m, s: fun("cdf", (num(x) - num(m)) / num(s)), x, loc, sc)
        if name in SAME:
            return A(0)
        if name in ("sum", "prod", "any", "all", "mean"):
            keep = bool(self.static(kw["keepdims"])) if "keepdims" in kw else False
            a = A(0)
            f = {"sum": total, "prod": product, "any": lambda xs: any([self.boolean(x) for x in xs]), "all": lambda xs: all([self.boolean(x) for x in xs]),
                 "mean": lambda xs: total(xs) / const(len(xs))}[name]
            return reduced(a, axis, f, keep)
        if name in ("cumprod", "cumsum"):
            a = A(0)
            if axis is None:
                a, axis = Arr((len(a.xs),), a.xs), 0
            axis %= len(a.shape)
            f = product if name == "cumprod" else total
            return build(a.shape, lambda i: f(a.at(i[:axis] + (k,) + i[axis + 1:]) for k in range(i[axis] + 1)))
        if name == "reshape":
            return self.reshape(A(0), self.static(args[1]) if len(args) == 2 else tuple(self.static(x) for x in args[1:]) if len(args) > 2 else self.static(kw.get("newshape", kw.get("shape"))))
        if name in ("ravel", "flatten"):
            return Arr((len(A(0).xs),), A(0).xs)
        if name == "squeeze":
            return Arr([n for n in A(0).shape if n != 1], A(0).xs)
        if name == "transpose" and len(args) == 1:
            return self.transpose(A(0))
        if name == "broadcast_to":
            s = self.static(args[1] if len(args) > 1 else kw["shape"])
            return spread(A(0), (s,) if isinstance(s, int) else s)
        if name in ("ones", "zeros", "full", "empty"):
            s = self.static(args[0] if args else kw["shape"])
            s = (s,) if isinstance(s, int) else s
            v = scalar(1 if name == "ones" else 0) if name != "full" else self(args[1] if len(args) > 1 else kw["fill_value"])
            return spread(v, s)
        if name in ("ones_like", "zeros_like"):
            return spread(scalar(1 if name == "ones_like" else 0), A(0).shape)
        if name == "eye":
            n = self.static(args[0])
            m = self.static(args[1]) if len(args) > 1 else n
            return build((n, m), lambda i: const(1 if i[0] == i[1] else 0))
        if name == "arange":
            r = range(*(self.static(x) for x in args))
            return Arr((len(r),), [const(k) for k in r])
        if name == "roll":
            a, k = A(0), self.static(kw["shift"] if "shift" in kw else args[1])
            if len(a.shape) != 1:
                raise Unknown("roll")
            n = len(a.xs)
            return Arr(a.shape, [a.xs[(i - k) % n] for i in range(n)])
        if name == "repeat":
            a, k = A(0), self.static(args[1] if len(args) > 1 else kw["repeats"])
            if axis is None and "axis" not in kw and len(args) < 3:
                return Arr((len(a.xs) * k,), [x for x in a.xs for _ in range(k)])
            ax = self.static(kw["axis"] if "axis" in kw else args[2]) % len(a.shape)
            return build(a.shape[:ax] + (a.shape[ax] * k,) + a.shape[ax + 1:], lambda i: a.at(i[:ax] + (i[ax] // k,) + i[ax + 1:]))
        if name == "tile":
            a, s = A(0), self.static(args[1] if len(args) > 1 else kw["reps"])
            s = (s,) if isinstance(s, int) else tuple(s)
            n = max(len(s), len(a.shape))
            sh, s = (1,) * (n - len(a.shape)) + a.shape, (1,) * (n - len(s)) + s
            b = Arr(sh, a.xs)
            return build(tuple(x * y for x, y in zip(sh, s)), lambda i: b.at(tuple(j % x for j, x in zip(i, sh))))
        if name in ("concatenate", "stack", "vstack", "hstack"):
            xs = [self(x) for x in (V.finite(args[0]) or ())]
            ax = axis if axis is not None else self.static(args[1]) if len(args) > 1 else 0
            if name == "stack" and ax == 0:
                return Arr((len(xs),) + xs[0].shape, [e for x in xs for e in x.xs])
            if name == "vstack":
                xs = [Arr((1,) + x.shape, x.xs) if len(x.shape) == 1 else x for x in xs]
            if name == "hstack":
                ax = 0 if len(xs[0].shape) == 1 else 1
            if ax == 0:
                return Arr((sum(x.shape[0] for x in xs),) + xs[0].shape[1:], [e for x in xs for e in x.xs])
            if ax == 1 and len(xs[0].shape) == 2:
                return Arr((xs[0].shape[0], sum(x.shape[1] for x in xs)), [e for r in range(xs[0].shape[0]) for x in xs for e in x.xs[r * x.shape[1]:(r + 1) * x.shape[1]]])
        if name in ("minimum", "maximum", "fmin", "fmax") and len(args) == 2:
            return zipped(lambda x, y: self.lattice("min" if "min" in name else "max", (x, y)), A(0), A(1))
        if name == "where" and len(args) == 3:
            return zipped(lambda c, x, y: x if self.boolean(c) else y, A(0), A(1), A(2))
        if name == "factorial":
            v = A(len(args) - 1).xs[0].value()
            if v is None or v.denominator != 1:
                raise Unknown("factorial")
            return scalar(math.factorial(int(v)))
        if name == "norm" and len(args) >= 1:
            a = A(0)
            return zipped(lambda x: x.power(const(Fraction(1, 2))), reduced(zipped(lambda x: num(x) * num(x), a), axis, total))
        if name == "diag" and len(args) == 1:
            a = A(0)
            if len(a.shape) == 1:
                return build((len(a.xs),) * 2, lambda i: a.xs[i[0]] if i[0] == i[1] else const(0))
            return build((min(a.shape),), lambda i: a.at((i[0], i[0])))
        raise Unknown("call " + name)
