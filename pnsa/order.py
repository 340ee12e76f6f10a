"""Order-type domain for value numbering: short sequences of symbols whose relative order is known.

An analysis picks an order type (for instance l0 < q < l1 < l2) by giving each time symbol a rank; comparisons,
sorting, searching and masking of sequences of such symbols are then decided from the ranks alone, so index
arithmetic over a grid becomes concrete while the symbols themselves stay uninterpreted.
"""
from __future__ import annotations

from fractions import Fraction

NONE = ("c", None)


def is_num(t):
    return t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


class Order:
    def __init__(self, ranks=None):
        self.ranks = {k: Fraction(v) for k, v in (ranks or {}).items()}

    # ------------------------------------------------------------------ ranks
    def rank(self, t):
        if t in self.ranks:
            return self.ranks[t]
        if t[0] == "c" and isinstance(t[1], (int, float)):
            if t[1] in (float("inf"), float("-inf")):
                return t[1]
            try:
                return Fraction(t[1])
            except (OverflowError, ValueError):
                return None
        if t == ("ext", "numpy.inf"):
            return float("inf")
        if t[0] == "bin" and t[1] == "**":
            a, b = self.rank(t[2]), self.rank(t[3])
            if isinstance(a, Fraction) and isinstance(b, Fraction) and b.denominator == 1 and abs(b) <= 8 and (a != 0 or b > 0):
                return a ** int(b)
            if isinstance(a, Fraction) and isinstance(b, Fraction) and a > 0 and b.denominator <= 8 and abs(b.numerator) <= 8:
                return exact_root(a, b.denominator, b.numerator)
            return None
        if t[0] == "bin" and t[1] in ("+", "-", "*", "/"):
            a, b = self.rank(t[2]), self.rank(t[3])
            if a is None or b is None:
                return None
            if t[1] == "+":
                return a + b
            if t[1] == "-":
                return a - b
            if t[1] == "*":
                return a * b
            return a / b if b != 0 else None
        if t[0] == "un" and t[1] == "-":
            a = self.rank(t[2])
            return None if a is None else -a
        if t[0] == "call" and t[1] == "numpy.abs" and len(t[2]) == 1:
            a = self.rank(t[2][0])
            return None if a is None else abs(a)
        if t[0] == "lat":
            rs = [self.rank(x) for x in t[2]]
            if any(r is None for r in rs):
                return None
            return min(rs) if t[1] == "min" else max(rs)
        return None

    def items(self, t):
        return t[1] if t[0] in ("arr", "list", "tup") and not any(x[0] == "star" for x in t[1]) else None

    # --------------------------------------------------------------- operators
    def compare(self, op, a, b):
        """Result term or None."""
        if op not in ("==", "!=", "<", "<=", ">", ">="):
            return None
        if "arr" in (a[0], b[0]):
            xs = self.pair(a, b)
            if xs is None:
                return None
            out = tuple(self.compare(op, x, y) for x, y in xs)
            return None if any(o is None for o in out) else ("arr", out)
        if a[0] in ("tup", "list") and b[0] == a[0] and op in ("==", "!="):
            x, y = self.items(a), self.items(b)
            if x is None or y is None:
                return None
            if len(x) != len(y):
                return ("c", op == "!=")
            if x == y:
                return ("c", op == "==")
            rs = [self.compare("==", u, v) for u, v in zip(x, y)]
            if any(r == ("c", False) for r in rs):
                return ("c", op == "!=")
            if all(r == ("c", True) for r in rs):
                return ("c", op == "==")
            return None
        if a == b and op in ("==", "<=", ">=") and a[0] != "unk":
            return ("c", True)
        if (a == NONE) != (b == NONE) and op in ("==", "!="):
            o = b if a == NONE else a
            if self.rank(o) is not None:
                return ("c", op == "!=")
        x, y = self.rank(a), self.rank(b)
        if x is None or y is None:
            return None
        return ("c", {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])

    def pair(self, a, b):
        x = a[1] if a[0] == "arr" else None
        y = b[1] if b[0] == "arr" else None
        if x is None and b[0] == "arr" and a[0] in ("list", "tup"):
            x = self.items(a)
        if y is None and a[0] == "arr" and b[0] in ("list", "tup"):
            y = self.items(b)
        if x is None:
            x = (a,) * len(y)
        if y is None:
            y = (b,) * len(x)
        if len(x) != len(y):
            if len(x) == 1:
                x = x * len(y)
            elif len(y) == 1:
                y = y * len(x)
            else:
                return None
        return tuple(zip(x, y))

    def binop(self, op, a, b, mk):
        if "arr" not in (a[0], b[0]):
            if op in ("&", "|") and a[0] == b[0] == "c" and isinstance(a[1], bool) and isinstance(b[1], bool):
                return ("c", (a[1] and b[1]) if op == "&" else (a[1] or b[1]))
            return None
        if op == "@":
            return None
        xs = self.pair(a, b)
        if xs is None:
            return None
        out = []
        for x, y in xs:
            if op in ("&", "|"):
                r = self.binop(op, x, y, mk)
                if r is None:
                    return None
                out.append(r)
            else:
                out.append(mk(op, x, y))
        return ("arr", tuple(out))

    def unary(self, op, v):
        if v[0] != "arr":
            return None
        if op == "-":
            return ("arr", tuple(("c", -x[1]) if is_num(x) else ("un", "-", x) for x in v[1]))
        if op == "~" and all(x[0] == "c" and isinstance(x[1], bool) for x in v[1]):
            return ("arr", tuple(("c", not x[1]) for x in v[1]))
        return None

    # ---------------------------------------------------------------- indexing
    def index(self, b, i):
        xs = self.items(b)
        if xs is None:
            return None
        if i[0] == "tup" and len(i[1]) == 1:
            i = i[1][0]
        if i[0] in ("arr", "list") and (b[0] == "arr" or b[0] == "list"):
            ks = self.items(i)
            if ks is None:
                return None
            if all(k[0] == "c" and isinstance(k[1], bool) for k in ks) and ks:
                if len(ks) != len(xs):
                    return None
                return ("arr", tuple(x for x, k in zip(xs, ks) if k[1]))
            if all(is_num(k) for k in ks):
                try:
                    return ("arr", tuple(xs[k[1]] for k in ks))
                except IndexError:
                    return None
        if i[0] == "slice" and all(x[0] == "c" for x in i[1:]) and b[0] == "arr":
            return ("arr", tuple(xs[slice(*(x[1] for x in i[1:]))]))
        if i[0] == "c" and isinstance(i[1], int) and not isinstance(i[1], bool) and b[0] == "arr":
            try:
                return xs[i[1]]
            except IndexError:
                return None
        return None

    def update(self, b, k, v):
        if b[0] not in ("arr", "list"):
            return None
        xs = list(b[1])
        if k[0] == "c" and isinstance(k[1], int) and not isinstance(k[1], bool):
            try:
                xs[k[1]] = v
            except IndexError:
                return None
            return (b[0], tuple(xs))
        if b[0] != "arr":
            return None
        if k[0] == "slice" and all(x[0] == "c" for x in k[1:]):
            idx = list(range(len(xs)))[slice(*(x[1] for x in k[1:]))]
        elif k[0] == "arr" and len(k[1]) == len(xs) and all(x[0] == "c" and isinstance(x[1], bool) for x in k[1]):
            idx = [j for j, x in enumerate(k[1]) if x[1]]
        elif k[0] == "arr" and all(is_num(x) for x in k[1]):
            idx = [x[1] for x in k[1]]
        else:
            return None
        vals = v[1] if v[0] == "arr" else (v,) * len(idx)
        if len(vals) != len(idx):
            return None
        for j, x in zip(idx, vals):
            xs[j] = x
        return ("arr", tuple(xs))

    def attr(self, b, a):
        if b[0] != "arr":
            return None
        if a == "shape":
            return ("tup", (("c", len(b[1])),))
        if a == "size":
            return ("c", len(b[1]))
        if a == "ndim":
            return ("c", 1)
        if a == "T":
            return b
        return None

    # ------------------------------------------------------------------- calls
    def call(self, d, args, kwargs, mk):
        """Result of an external function on known sequences, or None."""
        kw = dict(kwargs)
        n = d.split(".")[-1]
        if not d.startswith(("numpy.", "builtins.", "bisect.", "math.")) or not args:
            return None
        a = args[0]
        xs = self.items(a)
        if n in ("asarray", "array", "atleast_1d", "asanyarray", "copy", "ravel") and d.startswith("numpy"):
            if xs is not None and all(x[0] not in ("tup", "list", "arr") for x in xs):
                return ("arr", xs)
            if n == "atleast_1d" and self.rank(a) is not None:
                return ("arr", (a,))
            return None
        if n == "isscalar" and (a[0] == "arr" or self.rank(a) is not None):
            return ("c", a[0] != "arr")
        if n == "len" and a[0] == "arr":
            return ("c", len(xs))
        if n == "ndim" and d.startswith("numpy") and (a[0] == "arr" or self.rank(a) is not None):
            return ("c", 1 if a[0] == "arr" else 0)
        if n in ("searchsorted", "bisect_left", "bisect_right", "bisect") and len(args) >= 2 and xs is not None:
            side = kw.get("side", args[2] if len(args) > 2 else ("c", "left"))
            if n in ("bisect_right", "bisect"):
                side = ("c", "right")
            rs = [self.rank(x) for x in xs]
            ys = self.items(args[1])
            vs = [self.rank(y) for y in (ys if ys is not None else (args[1],))]
            if any(r is None for r in rs + vs) or side[0] != "c":
                return None
            out = tuple(("c", sum(1 for r in rs if (r < v if side[1] == "left" else r <= v))) for v in vs)
            return ("arr", out) if ys is not None else out[0]
        if n == "diff" and a[0] == "arr" and len(args) == 1 and not kw:
            return ("arr", tuple(mk("-", y, x) for x, y in zip(xs, xs[1:])))
        if n in ("all", "any") and len(args) == 1 and not kw:
            if a[0] == "c" and isinstance(a[1], bool):
                return a
            if xs is not None and all(x[0] == "c" and isinstance(x[1], bool) for x in xs):
                return ("c", all(x[1] for x in xs) if n == "all" else any(x[1] for x in xs))
            return None
        if n in ("amin", "amax", "min", "max") and len(args) == 1 and not kw and xs:
            rs = [self.rank(x) for x in xs]
            if any(r is None for r in rs):
                return None
            best = min(rs) if n.endswith("min") else max(rs)
            return xs[rs.index(best)]
        if n in ("minimum", "maximum", "min", "max") and len(args) == 2 and not kw:
            if a[0] == "arr" or args[1][0] == "arr":
                ps = self.pair(a, args[1])
                out = []
                for x, y in ps or ():
                    r, s = self.rank(x), self.rank(y)
                    if r is None or s is None:
                        return None
                    out.append(x if (r <= s) == (n.startswith("min")) else y)
                return ("arr", tuple(out)) if ps is not None else None
            r, s = self.rank(a), self.rank(args[1])
            if r is None or s is None:
                return None
            return a if (r <= s) == n.startswith("min") else args[1]
        if n == "clip" and d.startswith("numpy"):
            lo = args[1] if len(args) > 1 else kw.get("a_min", NONE)
            hi = args[2] if len(args) > 2 else kw.get("a_max", NONE)
            t = a
            if lo != NONE:
                t = self.call("numpy.maximum", (t, lo), (), mk)
            if t is not None and hi != NONE:
                t = self.call("numpy.minimum", (t, hi), (), mk)
            return t
        if n in ("ones_like", "zeros_like") and (a[0] == "arr" or self.rank(a) is not None):
            v = ("c", 1.0 if n == "ones_like" else 0.0)
            return ("arr", (v,) * len(xs)) if a[0] == "arr" else v
        if n == "full_like" and a[0] == "arr" and len(args) > 1:
            return ("arr", (args[1],) * len(xs))
        if n in ("union1d", "unique", "sort", "sorted", "intersect1d", "setdiff1d") and xs is not None:
            ys = None
            if n in ("union1d", "intersect1d", "setdiff1d"):
                if len(args) < 2:
                    return None
                ys = self.items(args[1])
                if ys is None:
                    ys = (args[1],)
            elif kw or len(args) > 1:
                return None
            rs = {}
            for x in xs + (ys or ()) if n in ("union1d", "unique", "sort", "sorted") else xs:
                r = self.rank(x)
                if r is None:
                    return None
                rs.setdefault(r, []).append(x)
            if ys is not None and n != "union1d":
                other = {self.rank(y) for y in ys}
                rs = {r: v for r, v in rs.items() if (r in other) == (n == "intersect1d")}
            out = []
            for r in sorted(rs):
                out += rs[r] if n in ("sort", "sorted") else [min(rs[r], key=repr)]
            return ("arr" if n != "sorted" else "list", tuple(out))
        if n == "union1d" and xs is None and self.rank(a) is not None:
            return self.call(d, (("arr", (a,)),) + args[1:], kwargs, mk)
        if n in ("isin", "in1d") and len(args) == 2 and not kw:
            ys = self.items(args[1])
            ys = ys if ys is not None else (args[1],)
            other = [self.rank(y) for y in ys]
            if any(o is None for o in other):
                return None
            if xs is None:
                r = self.rank(a)
                return None if r is None else ("c", r in other)
            rs = [self.rank(x) for x in xs]
            if any(r is None for r in rs):
                return None
            return ("arr", tuple(("c", r in other) for r in rs))
        if n in ("where", "nonzero", "flatnonzero", "argwhere") and len(args) == 1 and a[0] == "arr" and all(
                x[0] == "c" and isinstance(x[1], bool) for x in xs):
            r = ("arr", tuple(("c", i) for i, x in enumerate(xs) if x[1]))
            return r if n == "flatnonzero" else ("tup", (r,)) if n != "argwhere" else None
        if n == "where" and len(args) == 3 and a[0] == "arr" and all(x[0] == "c" and isinstance(x[1], bool) for x in xs):
            p = self.pair(args[1], args[2]) if "arr" in (args[1][0], args[2][0]) else ((args[1], args[2]),) * len(xs)
            if p is None or len(p) != len(xs):
                return None
            return ("arr", tuple(u if x[1] else v for x, (u, v) in zip(xs, p)))
        if n == "where" and len(args) == 3 and a[0] == "c":
            return args[1] if a[1] else args[2]
        if n == "concatenate" and xs is not None:
            parts = [self.items(x) for x in xs]
            if all(p is not None for p in parts) and parts:
                return ("arr", tuple(y for p in parts for y in p))
        if n == "append" and len(args) == 2 and a[0] == "arr" and not kw:
            ys = self.items(args[1])
            return ("arr", xs + (ys if ys is not None else (args[1],)))
        if n == "flip" and a[0] == "arr":
            return ("arr", tuple(reversed(xs)))
        if n == "arange" and d.startswith("numpy") and all(is_num(x) and isinstance(x[1], int) for x in args) and not kw:
            r = range(*(x[1] for x in args))
            if len(r) <= 12:
                return ("arr", tuple(("c", i) for i in r))
        if n == "take" and len(args) >= 2 and a[0] == "arr":
            return self.index(a, args[1])
        if n in ("count_nonzero", "sum") and a[0] == "arr" and not kw and all(x[0] == "c" and isinstance(x[1], bool) for x in xs):
            return ("c", sum(1 for x in xs if x[1]))
        if n == "abs" and is_num(a):
            return ("c", abs(a[1]))
        if n in ("less", "less_equal", "greater", "greater_equal", "equal") and len(args) == 2:
            return self.compare({"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "=="}[n], a, args[1])
        if n in ("logical_and", "logical_or") and len(args) == 2:
            return self.binop("&" if n.endswith("and") else "|", a, args[1], mk)
        if n == "logical_not" and len(args) == 1:
            return self.unary("~", a)
        return None

    def method(self, b, name, args, kwargs, mk):
        if b[0] != "arr":
            return None
        kw = dict(kwargs)
        if name in ("min", "max", "all", "any") and not args and not kw:
            return self.call("numpy." + name, (b,), (), mk)
        if name in ("copy", "ravel", "flatten", "astype", "squeeze") and name != "squeeze":
            return b
        if name == "tolist":
            return ("list", b[1])
        if name == "searchsorted" and args:
            return self.call("numpy.searchsorted", (b,) + args, kwargs, mk)
        if name == "clip":
            return self.call("numpy.clip", (b,) + args, kwargs, mk)
        return None


def exact_root(a, n, m):
    """a ** (m / n) when a is the n-th power of a rational number, else None."""
    def root(k):
        r = round(k ** (1.0 / n))
        return next((x for x in (r - 1, r, r + 1) if x >= 0 and x ** n == k), None)
    p, q = root(a.numerator), root(a.denominator)
    return None if p is None or q is None else Fraction(p, q) ** m
