"""Normal forms for value-numbering terms: polynomials over non-commutative words.

A poly is a dict {mono: coefficient}; a mono is a sorted tuple of (word, exponent)
factors that commute with each other (scalars, Hadamard factors); a word is a tuple of
letters (atom, transposed, inverted) multiplied with `@`.  Products are distributed,
transposes and inverses are pushed to the letters, inverse pairs cancel and square-root
factors are recombined, so that two formulas that are equal by ring/matrix axioms get the
same normal form.
"""
from fractions import Fraction

from . import vn as V

I = ("I",)
ONES = ("ones",)


class TooBig(Exception):
    pass


def _frac(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v)) if "e" not in repr(v) and "E" not in repr(v) else Fraction(v)
    return None


class Alg:
    """Converts vn terms to normal forms.

    scalar(atom_term) -> bool, symmetric(atom_term) -> bool, sem(term, self) -> term or None
    (rewrites a term before it is normalised).
    """

    TRANSPARENT = {
        "numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.real", "numpy.float64", "numpy.double",
        "numpy.copy", "builtins.float", "probnum.linops.aslinop", "probnum.linops._utils.aslinop", "numpy.squeeze_",
        "copy.copy", "copy.deepcopy", "numpy.intp", "numpy.int_", "probnum.utils._arrays.as_numpy_scalar",
        "probnum.utils.argutils.as_numpy_scalar",
    }
    TRANSPARENT_P = {"as_numpy_scalar": "x", "aslinop": "A", "as_shape": "x"}
    PROTO = {
        "_todense": ("id", None), "todense": ("id", None), "_transpose": ("T", None), "_inverse": ("inv", None),
        "inv": ("inv", None), "_solve": ("solve", "B"), "solve": ("solve", "b"), "_matmul": ("matmul", "x"),
        "_det": ("det", None), "det": ("det", None), "_logabsdet": ("logabsdet", None), "logabsdet": ("logabsdet", None),
        "_trace": ("trace", None), "trace": ("trace", None), "_diagonal": ("diagonal", None),
        "diagonal": ("diagonal", None), "_rank": ("rank", None), "rank": ("rank", None), "_eigvals": ("eigvals", None),
        "eigvals": ("eigvals", None), "_cond": ("cond", "p"), "cond": ("cond", "p"),
        "_cholesky": ("cholesky", "lower"), "cholesky": ("cholesky", "lower"), "astype": ("id", None),
        "_astype": ("id", None), "_symmetrize": ("symmetrize", None), "symmetrize": ("symmetrize", None),
    }
    TRANSPARENT_M = {"todense", "astype", "copy", "toarray"}

    def __init__(self, scalar=None, symmetric=None, sem=None, limit=4000):
        self.scalar_fn = scalar or (lambda t: False)
        self.sym_fn = symmetric or (lambda t: False)
        self.sem = sem
        self.limit = limit
        self.memo = {}
        self.polys = {}  # atom of an inverted sum -> poly
        self.chols = {}
        self.suspicious = False

    # ------------------------------------------------------------------ building blocks
    def const(self, v):
        return {(): v} if v != 0 else {}

    def letter(self, atom, t=False, i=False):
        return (atom, t, i)

    def word_poly(self, word, exp=Fraction(1)):
        return {((word, exp),): Fraction(1)}

    def atom(self, a):
        return self.word_poly(((a, False, False),))

    def is_scalar_atom(self, a):
        if a[0] == "pow":
            return self.is_scalar_poly(dict(a[1])) if True else False
        if a[0] == "S":
            return True
        return self.scalar_fn(a)

    def is_scalar_word(self, w):
        return len(w) == 1 and self.is_scalar_atom(w[0][0])

    def is_scalar_poly(self, p):
        return all(all(self.is_scalar_word(w) for w, _ in m) for m in p)

    def key(self, p):
        return tuple(sorted(p.items(), key=repr))

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > self.limit:
            raise TooBig()
        return r

    def mono(self, factors):
        """Canonical mono from a list of (word, exp); returns poly (rewrites may branch)."""
        acc = {}
        for w, e in factors:
            acc[w] = acc.get(w, 0) + e
        ones = ((ONES, False, False),)
        if ones in acc:
            if any(w != ones and not self.is_scalar_word(w) for w in acc):
                del acc[ones]
            else:
                acc[ones] = 1
        fs = tuple(sorted(((w, e) for w, e in acc.items() if e != 0), key=repr))
        return fs

    def mul(self, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mono(list(m1) + list(m2))
                opened = next(((w, e) for w, e in m if w[0][0][0] in ("S", "E") and len(w) == 1 and 1 <= e <= 8
                               or e < 0 and _prime_atom(w)), None)
                if opened is not None:
                    w, e = opened
                    k = e.numerator // e.denominator  # whole powers are multiplied out
                    keep = [(w, e - k)] if e != k else []
                    rest = {self.mono([x for x in m if x != opened] + keep): c1 * c2}
                    base = dict(w[0][0][1])
                    if k < 0:
                        rest = self.scale(rest, base[()] ** k)
                        k = 0
                    for _ in range(k):
                        rest = self.mul(rest, base)
                    r = self.add(r, rest)
                    continue
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > self.limit:
            raise TooBig()
        return r

    def scale(self, a, c):
        return {m: v * c for m, v in a.items()} if c != 0 else {}

    # ------------------------------------------------------------------ matrix product
    def split(self, m):
        """(scalar factors, word or None) of a mono; word None: purely scalar."""
        sc, ws = [], []
        for w, e in m:
            (sc if self.is_scalar_word(w) else ws).append((w, e))
        if not ws:
            return sc, None
        if len(ws) == 1 and ws[0][1] == 1:
            return sc, ws[0][0]
        # Hadamard product of several arrays: one opaque letter
        key = tuple(ws)
        self.suspicious = True
        return sc, ((("had", key), False, False),)

    def matmul(self, a, b):
        r = {}
        for m1, c1 in a.items():
            s1, w1 = self.split(m1)
            for m2, c2 in b.items():
                s2, w2 = self.split(m2)
                if w1 is None or w2 is None:
                    # a scalar constant as matrix factor
                    w = (w1 or ()) + (w2 or ())
                else:
                    w = w1 + w2
                p = self.reduce_word(w)
                base = {self.mono(s1 + s2): c1 * c2}
                r = self.add(r, self.mul(base, p))
        return r

    def reduce_word(self, w):
        """Normal form of a word as poly: identities, inverse pairs, square roots."""
        w = list(w)
        if len(w) > 1:
            w = [l for l in w if l[0] != I] or [(I, False, False)]
        changed = True
        while changed:
            changed = False
            for k in range(len(w) - 1):
                x, y = w[k], w[k + 1]
                # a a^-1
                if x[0] == y[0] and x[1] == y[1] and x[2] != y[2]:
                    w = w[:k] + w[k + 2:]
                    if not w:
                        w = [(I, False, False)]
                    changed = True
                    break
                # kron(a,b) kron(c,d)
                if x[0][0] == "kron" and y[0][0] == "kron":
                    A = self.matmul(self.push(dict(x[0][1]), x[1], x[2]), self.push(dict(y[0][1]), y[1], y[2]))
                    B = self.matmul(self.push(dict(x[0][2]), x[1], x[2]), self.push(dict(y[0][2]), y[1], y[2]))
                    k_ = self.kron(A, B)
                    return self.splice(w[:k], k_, w[k + 2:])
                if x[0][0] == "diag" and y[0][0] == "diag":
                    return self.splice(w[:k], self.diag(self.mul(dict(x[0][1]), dict(y[0][1]))), w[k + 2:])
                # chol(P) chol(P)^T
                if x[0][0] == "chol" and y[0] == x[0] and not x[1] and y[1] and not x[2] and not y[2]:
                    return self.splice(w[:k], dict(x[0][1]), w[k + 2:])
                if x[0][0] == "chol" and y[0] == x[0] and x[1] and not y[1] and x[2] and y[2]:
                    return self.splice(w[:k], self.inv(dict(x[0][1])), w[k + 2:])
                # S^-1 m  with m a monomial word of S
                if x[0][0] == "sum" and x[2]:
                    p = self.inv_rule(x, w[k + 1:], left=True)
                    if p is not None:
                        n, q = p
                        return self.splice(w[:k], q, w[k + 1 + n:])
                if y[0][0] == "sum" and y[2]:
                    p = self.inv_rule(y, w[:k + 1], left=False)
                    if p is not None:
                        n, q = p
                        return self.splice(w[:k + 1 - n], q, w[k + 2:])
        return self.word_poly(tuple(w))

    def splice(self, pre, p, post):
        r = p
        if pre:
            r = self.matmul(self.reduce_word(tuple(pre)), r)
        if post:
            r = self.matmul(r, self.reduce_word(tuple(post)))
        return r

    def inv_rule(self, l, rest, left):
        """S^-1 * m* = (1/c)(I - S^-1 (S - c m*)) for the leading word m* of S."""
        P = dict(l[0][1])
        if l[1]:
            P = self.T(P)
        lead = None
        for m in sorted(P, key=repr):
            sc, w = self.split(m)
            if w is not None and not sc and w != ((I, False, False),):
                if lead is None or (len(w), repr(w)) > (len(lead[1]), repr(lead[1])):
                    lead = (m, w)
        if lead is None:
            return None
        m, w = lead
        n = len(w)
        if left and tuple(rest[:n]) == w or (not left and len(rest) >= n and tuple(rest[-n:]) == w):
            c = P[m]
            q = dict(P)
            del q[m]
            li = self.word_poly((l,))
            rem = self.matmul(li, q) if left else self.matmul(q, li)
            return n, self.scale(self.add(self.word_poly(((I, False, False),)), rem, -1), 1 / c)
        return None

    # ------------------------------------------------------------------ T, inverse, kron
    def push(self, p, t, i):
        if t:
            p = self.T(p)
        if i:
            p = self.inv(p)
        return p

    def diag(self, p):
        """Diagonal matrix of a vector (linear; diag of ones is the identity)."""
        r = {}
        for m, c in p.items():
            sc = [(w, e) for w, e in m if self.is_scalar_word(w)]
            vs = [(w, e) for w, e in m if not self.is_scalar_word(w)]
            if not vs or all(w == ((ONES, False, False),) for w, _ in vs):
                f = self.word_poly(((I, False, False),))
            else:
                f = self.atom(("diag", self.key({self.mono(vs): Fraction(1)})))
            r = self.add(r, self.mul({self.mono(sc): c}, f))
        return r

    def flipT(self, l):
        a, t, i = l
        if a[0] in ("diag",) or a == ONES:
            return (a, False, i)
        if a == I or self.sym(a) or self.is_scalar_atom(a):
            return (a, False, i)
        if a[0] == "kron":
            return None
        return (a, not t, i)

    def sym(self, a):
        if a[0] == "sum":
            P = dict(a[1])
            return self.T_raw(P) == P
        return self.sym_fn(a)

    def T_raw(self, p):
        return self.T(p)

    def T(self, p):
        r = {}
        for m, c in p.items():
            facs = {(): Fraction(1)}
            for w, e in m:
                facs = self.mul(facs, self.powe(self.T_word(w), e))
            r = self.add(r, self.scale(facs, c))
        return r

    def powe(self, p, e):
        if e == 1:
            return p
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1:
                return {self.mono([(w, x * e) for w, x in m]): Fraction(1)}
        return self.atom(("pow", self.key(p), e))

    def T_word(self, w):
        out = {((), ): 1}
        res = None
        letters = []
        for l in reversed(w):
            a, t, i = l
            if a[0] == "kron":
                q = self.kron(self.T(dict(a[1])), self.T(dict(a[2])))
                q = self.push(q, t, i)
            elif a[0] == "bd":
                q = self.push(self.bd(a[1], self.T(dict(a[2]))), t, i)
            elif a[0] == "fold@":
                q = self.word_poly(((self.fold_T(a), t, i),))
            elif a[0] == "fold+":
                q = self.push(self.sumfold(self.rebuild_seq(a[1]), self.T(dict(a[2])), a[3], a[4]), t, i)
            elif a[0] == "had":
                q = self.atom(("had", tuple(sorted(((ww, e) for w2, e in a[1] for ww in [self._tw(w2)]), key=repr))))
            else:
                q = self.word_poly((self.flipT(l),))
            res = q if res is None else self.matmul(res, q)
        return res

    def _tw(self, w):
        p = self.T_word(w)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1 and m[0][1] == 1:
                return m[0][0]
        return ((("T", self.key(p)), False, False),)

    def rebuild_seq(self, s):
        return s

    def fold_T(self, a):
        # transposed product of a sequence: reversed sequence of transposed factors
        return ("fold@", self.rev_key(a[1]), self.key(self.T(dict(a[2]))), a[3], a[4])

    def fold_inv(self, a):
        return ("fold@", self.rev_key(a[1]), self.key(self.inv(dict(a[2]))), a[3], a[4])

    @staticmethod
    def rev_key(s):
        return s[1] if s[0] == "rev" else ("rev", s)

    def inv(self, p):
        if not p:
            return self.atom(("inv0",))
        if len(p) == 1:
            (m, c), = p.items()
            sc, w = self.split(m)
            sc = [(x, -e) for x, e in sc]
            r = {self.mono(sc): 1 / c}
            if w is None:
                return r
            res = None
            for a, t, i in reversed(w):
                if a == I:
                    q = self.word_poly(((I, False, False),))
                elif a[0] == "kron":
                    q = self.kron(self.inv(dict(a[1])), self.inv(dict(a[2])))
                    q = self.push(q, t, i)
                elif a[0] == "bd":
                    q = self.push(self.bd(a[1], self.inv(dict(a[2]))), t, i)
                elif a[0] == "diag":
                    q = self.diag(self.epow(dict(a[1]), Fraction(-1)))
                elif a[0] == "fold@" and not i:
                    q = self.push(self.atom(self.fold_inv(a)), t, False)
                else:
                    q = self.word_poly(((a, t, not i),))
                res = q if res is None else self.matmul(res, q)
            return self.mul(r, res)
        # inverse of a sum: opaque, normalised by its leading coefficient
        if self.is_scalar_poly(p):
            return self.spow(p, Fraction(-1))
        ms = sorted(p, key=repr)
        c = p[ms[0]]
        q = self.scale(p, 1 / c)
        return self.scale(self.word_poly(((("sum", self.key(q)), False, True),)), 1 / c)

    def spow(self, p, e):
        """Elementwise power of a sum: one opaque factor."""
        ms = sorted(p, key=repr)
        c = p[ms[0]]
        k = Fraction(1)
        if e.denominator == 1 and c != 1:
            p = self.scale(p, 1 / c)
            k = c ** int(e)
        elif c > 0 and c != 1:
            p = self.scale(p, 1 / c)
            return self.mul(self.epow(self.const(c), e), self.spow(p, e))
        atom = ("S" if self.is_scalar_poly(p) else "E", self.key(p))
        return {((((atom, False, False),), e),): k}

    def epow(self, p, e):
        """Elementwise power with rational exponent."""
        if e == 1:
            return p
        if e == 0:
            return self.const(Fraction(1))
        if not p:
            return {} if e > 0 else self.atom(("inv0",))
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                cc = c ** int(e)
                return self.mul({self.mono([(w, x * e) for w, x in m]): cc}, self.const(Fraction(1)))
            root = _root(c, e)
            r = {self.mono([(w, x * e) for w, x in m]): Fraction(1) if root is None else root}
            if root is None:
                for q, k in _factors(c):
                    r = self.mul(r, {self.mono([(((("S", (((), q),)), False, False),), e * k)]): Fraction(1)})
            return self.mul(r, self.const(Fraction(1)))
        if e.denominator == 1 and 1 < e <= 4:
            r = p
            for _ in range(int(e) - 1):
                r = self.mul(r, p)
            return r
        return self.spow(p, e)

    def gpow(self, p, e):
        """Elementwise power with an exponent that is an expression: sums of exponents and powers of powers are split."""
        r = self.const(Fraction(1))
        scalars = lambda q: all(self.split(m)[1] is None for m in q)
        if not scalars(p) or not scalars(e):
            return self.atom(("pow", self.key(p), self.key(e)))
        base = None
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and m:
                base = [({self.mono([(w, Fraction(1))]): Fraction(1)}, x) for w, x in m] + ([({(): c}, Fraction(1))] if c != 1 else [])
        if base is None:
            base = [(p, Fraction(1))]
        for q, x in base:
            for m, c in e.items():
                if not m:
                    r = self.mul(r, self.epow(q, c * x))
                else:
                    a = self.atom(("pow", self.key(q), self.key({m: Fraction(1)})))
                    r = self.mul(r, self.epow(a, c * x))
        return r

    def kron(self, A, B):
        r = {}
        for m1, c1 in A.items():
            s1, w1 = self.split(m1)
            for m2, c2 in B.items():
                s2, w2 = self.split(m2)
                if w1 is None or w2 is None:
                    if w1 is None and w2 is None:
                        r = self.add(r, {self.mono(s1 + s2): c1 * c2})
                    else:
                        r = self.add(r, {self.mono(s1 + s2 + [((w1 or w2), Fraction(1))]): c1 * c2})
                    continue
                k1, k2 = self.key(self.word_poly(w1)), self.key(self.word_poly(w2))
                if w1 == w2 == ((I, False, False),):
                    a = ((I, False, False),)
                else:
                    a = ((("kron", k1, k2), False, False),)
                r = self.add(r, {self.mono(s1 + s2 + [(a, Fraction(1))]): c1 * c2})
        return r

    def chol(self, p):
        """Lower square root L with L L^T = p."""
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            sc, w = self.split(m)
            if w is not None:
                if w == ((I, False, False),):
                    return self.mul(self.epow({self.mono(sc): c}, Fraction(1, 2)), self.word_poly(w))
                if len(w) == 2 and w[0][0] == w[1][0] and not w[0][1] and w[1][1] and w[0][2] == w[1][2] and self.is_root(w[0][0]):
                    return self.mul(self.epow({self.mono(sc): c}, Fraction(1, 2)), self.word_poly((w[0],)))
                if len(w) == 1 and w[0][0][0] == "diag":
                    return self.mul(self.epow({self.mono(sc): c}, Fraction(1, 2)),
                                    self.diag(self.epow(dict(w[0][0][1]), Fraction(1, 2))))
                if len(w) == 1 and w[0][0][0] == "bd" and not w[0][1] and not w[0][2] and not sc and c == 1:
                    return self.bd(w[0][0][1], self.chol(dict(w[0][0][2])))
                if len(w) == 1 and w[0][0][0] == "kron" and not w[0][1] and not w[0][2]:
                    return self.mul(self.epow({self.mono(sc): c}, Fraction(1, 2)),
                                    self.kron(self.chol(dict(w[0][0][1])), self.chol(dict(w[0][0][2]))))
                if sc or c != 1:
                    return self.mul(self.epow({self.mono(sc): c}, Fraction(1, 2)), self.chol(self.word_poly(w)))
        return self.atom(("chol", self.key(p)))

    def cholsym(self, L, P, low):
        """Cholesky factor for a `lower` flag that is not a constant."""
        if self.T(L) == L:
            return L
        if len(L) == 1:
            (m, c), = L.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0][0][0] == "bd":
                a = m[0][0][0][0]
                body = self.nfkey_P(P)
                if body is not None:
                    return self.bd(a[1], self.cholsym(dict(a[2]), body, low))
        return self.atom(("f", "cholesky", (self.key(P), self.canon(low)), ()))

    def nfkey_P(self, P):
        if len(P) == 1:
            (m, c), = P.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0][0][0] == "bd":
                return dict(m[0][0][0][0][2])
        return None

    def is_root(self, a):
        return a[0] == "chol" or (a[0] == "at" and a[2] in ("cov_cholesky", "proc_noise_cov_cholesky"))

    # ------------------------------------------------------------------ conversion
    def nf(self, t):
        k = t
        try:
            if k in self.memo:
                return self.memo[k]
        except TypeError:
            k = None
        r = self._nf(t)
        if k is not None:
            self.memo[k] = r
        return r

    def canon(self, t):
        """Hashable canonical form of any term."""
        if not isinstance(t, tuple) or not t:
            return t
        p = self.nf(t)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1:
                a, tt, ii = m[0][0][0]
                if not tt and not ii:
                    return a
            if m == ():
                return ("c", c)
        if not p:
            return ("c", Fraction(0))
        return ("P", self.key(p))

    def opaque(self, t):
        return self.atom(t)

    def _nf(self, t):
        if self.sem is not None:
            r = self.sem(t, self)
            if r is not None:
                if isinstance(r, dict):
                    return r
                return self.nf(r)
        h = t[0]
        if h == "c":
            f = _frac(t[1])
            if f is None:
                return self.atom(t)
            return self.const(f)
        if h == "s":
            return self.atom(t)
        if h == "bin":
            op = t[1]
            if op == "+":
                return self.add(self.nf(t[2]), self.nf(t[3]))
            if op == "-":
                return self.add(self.nf(t[2]), self.nf(t[3]), -1)
            if op in ("*", "/"):
                r = self.rowscale(t)
                if r is not None:
                    return r
            if op == "*":
                for x, n in ((t[2], t[3]), (t[3], t[2])):
                    if x[0] in ("tup", "list") and n[0] not in ("tup", "list"):
                        k = self.nf(n)
                        n = k.get((), Fraction(0))
                        if (not k or (len(k) == 1 and () in k)) and n.denominator == 1 and 0 <= n <= 8:
                            return self.nf((x[0], x[1] * int(n)))
                return self.mul(self.nf(t[2]), self.nf(t[3]))
            if op == "@":
                return self.matmul(self.nf(t[2]), self.nf(t[3]))
            if op == "/":
                return self.mul(self.nf(t[2]), self.epow(self.nf(t[3]), Fraction(-1)))
            if op == "**":
                e = self.nf(t[3])
                if e == {}:
                    return self.const(Fraction(1))
                if len(e) == 1 and () in e:
                    return self.epow(self.nf(t[2]), e[()])
                if self.nf(t[2]) == {(): Fraction(1)}:
                    return self.const(Fraction(1))
                return self.gpow(self.nf(t[2]), e)
            return self.atom(("bin", op, self.canon(t[2]), self.canon(t[3])))
        if h == "un":
            if t[1] == "-":
                return self.scale(self.nf(t[2]), -1)
            return self.atom(("un", t[1], self.canon(t[2])))
        if h == "T":
            return self.T(self.nf(t[1]))
        if h == "inv":
            return self.inv(self.nf(t[1]))
        if h == "at":
            return self.atom(("at", self.canon(t[1]), t[2]))
        if h == "fold":
            return self.fold(t)
        if h == "call":
            return self.call(t)
        if h == "m":
            return self.meth(t)
        if h in ("tup", "list"):
            return self.atom(("tup", tuple(self.canon(x) for x in t[1])))
        if h == "new":
            return self.atom(("new", t[1], tuple((k, self.canon(v)) for k, v in t[2])))
        if h == "dict":
            return self.atom(("dict", tuple(sorted(((self.canon(k), self.canon(v)) for k, v in t[1]), key=repr))))
        if h == "map" and not t[3] and self.nf(t[2]) == self.atom(("bv", t[4])):
            return self.nf(t[1])
        if h == "map":
            return self.atom(("map", self.canon(t[1]), self.canon(t[2]), tuple(self.canon(x) for x in t[3]), t[4]))
        if h == "pcall" and len(t) == 4:
            nm = t[1].split(".")[-1]
            d = dict(t[3])
            if nm in self.TRANSPARENT_P:
                return self.nf(d[self.TRANSPARENT_P[nm]])
            if t[2] and nm in self.PROTO:
                pub, par = self.PROTO[nm]
                b = t[2][0]
                if pub == "id":
                    return self.nf(b)
                if pub == "T":
                    return self.T(self.nf(b))
                if pub == "matmul":
                    return self.matmul(self.nf(b), self.nf(d[par]))
                args = (d[par],) if par is not None and par in d else ()
                return self.meth(("m", b, pub, args, ()))
        if h == "pcall":
            return self.atom(("pcall", t[1], tuple(self.canon(x) for x in t[2]),
                              tuple((k, self.canon(v)) if isinstance(k, str) else self.canon((k, v)) for k, v in t[3]))
                             if len(t) == 4 else t)
        if h == "idx" and t[2][0] == "c" and isinstance(t[2][1], int):
            p = self.nf(t[1])
            if p and all(sum(1 for w, _ in m if not self.is_scalar_word(w)) == 1 and
                         any(w == ((ONES, False, False),) for w, _ in m) for m in p):
                return {self.mono([(w, e) for w, e in m if w != ((ONES, False, False),)]): c for m, c in p.items()}
        if h == "idx":
            return self.atom(("idx", self.canon(t[1]), self.canon(t[2])))
        if h == "lat":
            return self.atom(("lat", t[1], tuple(sorted((self.canon(x) for x in t[2]), key=repr))))
        if h in ("slice", "cmp", "and", "or", "not", "star", "upd", "rev", "last", "phi", "bound"):
            return self.atom((h,) + tuple(self.canon(x) if isinstance(x, tuple) else x for x in t[1:]))
        return self.atom(t)

    def axis_of(self, t):
        """(vector, axis) if t is v[:, None] or v[None, :]."""
        if t[0] == "idx" and t[2][0] == "tup" and len(t[2][1]) == 2:
            i, j = t[2][1]
            full = ("slice", V.NONE, V.NONE, V.NONE)
            if i == full and j == V.NONE:
                return t[1], 0
            if j == full and i == V.NONE:
                return t[1], 1
        return None

    def rowscale(self, t):
        """v[:, None] * X is diag(v) @ X."""
        for a, b, swap in ((t[2], t[3], False), (t[3], t[2], True)):
            if t[1] == "/" and not swap:
                continue
            k = self.axis_of(a)
            if k is None or self.axis_of(b) is not None:
                continue
            v, x = self.nf(k[0]), self.nf(b)
            if self.is_scalar_poly(x):
                continue
            if t[1] == "/":
                v = self.epow(v, Fraction(-1))
            d = self.diag(v)
            return self.matmul(d, x) if k[1] == 0 else self.matmul(x, d)
        return None

    # -------------------------------------------------------------------- folds
    def fold(self, t):
        op, seq = t[1], t[2]
        if seq[0] == "map" and not seq[3]:
            base, body, lv = seq[1], seq[2], seq[4]
        else:
            base, body, lv = seq, ("bv", 99), 99
        if op == "+":
            return self.sumfold(self.canon(base), self.nf(body), lv, "+")
        if op == "@":
            return self.atom(("fold@", self.canon(base), self.key(self.renorm(self.nf(body), lv)), 99, "@"))
        return self.atom(("fold" + op, self.canon(base), self.key(self.renorm(self.nf(body), lv)), 99, op) + tuple(
            self.canon(x) if isinstance(x, tuple) else x for x in t[3:]))

    def blockdiag(self, seq):
        if seq[0] == "map" and not seq[3]:
            base, body, lv = seq[1], seq[2], seq[4]
        else:
            base, body, lv = seq, ("bv", 99), 99
        return self.bd(self.canon(base), self.renorm(self.nf(body), lv))

    def bd(self, base, body):
        return self.atom(("bd", base, self.key(body)))

    def renorm(self, p, lv):
        if lv == 99:
            return p
        return _subst_bv(p, lv)

    def sumfold(self, base, body, lv, op):
        body = self.renorm(body, lv)
        has = lambda x: _mentions(x, ("bv", 99))
        r = {}
        for m, c in body.items():
            out, inn = [], []
            for w, e in m:
                (inn if has(w) else out).append((w, e))
            pre, post = (), ()
            if len(inn) == 1 and inn[0][1] == 1 and not self.is_scalar_word(inn[0][0]):
                w = list(inn[0][0])
                while w and not has(w[0]):
                    pre += (w.pop(0),)
                while w and not has(w[-1]):
                    post = (w.pop(),) + post
                inn = [(tuple(w), Fraction(1))]
            core = {self.mono(inn): Fraction(1)}
            f = self.atom(("fold+", base, self.key(core), 99, op))
            if pre:
                f = self.matmul(self.reduce_word(pre), f)
            if post:
                f = self.matmul(f, self.reduce_word(post))
            r = self.add(r, self.mul({self.mono(out): c}, f))
        return r

    # -------------------------------------------------------------------- calls
    def call(self, t):
        d, args, kw = t[1], t[2], dict(t[3]) if all(isinstance(x[0], str) for x in t[3]) else {}
        if isinstance(d, str):
            if d in self.TRANSPARENT and args:
                return self.nf(args[0])
            if d.split(".")[-1] in ("as_numpy_scalar", "aslinop") and args:
                return self.nf(args[0])
            if d in ("numpy.eye", "numpy.identity", "scipy.sparse.eye"):
                if d == "numpy.eye" and len(args) > 1:
                    if self.canon(args[0]) != self.canon(args[1]):
                        return self.generic(t)
                if set(kw) - {"dtype", "order"}:
                    return self.generic(t)
                return self.word_poly(((I, False, False),))
            if d in ("numpy.zeros", "numpy.zeros_like"):
                return {}
            if d == "numpy.fill_diagonal" and len(args) == 2 and not kw and self.nf(args[0]) == {}:
                return self.diag(self.nf(args[1]))
            if d == "numpy.ones":
                return self.atom(ONES)
            if d == "numpy.full" and (len(args) >= 2 or "fill_value" in kw):
                v = self.nf(args[1] if len(args) > 1 else kw["fill_value"])
                if self.is_scalar_poly(v):
                    return self.mul(v, self.atom(ONES))
                return self.generic(t)
            if d in ("linalg.inv",):
                return self.inv(self.nf(args[0]))
            if d == "numpy.sqrt" and len(args) == 1:
                return self.epow(self.nf(args[0]), Fraction(1, 2))
            if d == "numpy.square" and len(args) == 1:
                return self.epow(self.nf(args[0]), Fraction(2))
            if d in ("linalg.solve",) and len(args) >= 2:
                return self.matmul(self.inv(self.nf(args[0])), self.nf(args[1]))
            if d == "linalg.cho_solve" and len(args) >= 2 and args[0][0] == "tup" and len(args[0][1]) == 2:
                L = self.nf(args[0][1][0])
                low = args[0][1][1]
                if low == ("c", True):
                    M = self.matmul(L, self.T(L))
                elif low == ("c", False):
                    M = self.matmul(self.T(L), L)
                else:
                    return self.generic(t)
                return self.matmul(self.inv(M), self.nf(args[1]))
            if d == "linalg.cho_solve" and len(args) >= 2 and args[0][0] == "call" and args[0][1] == "linalg.cho_factor":
                return self.matmul(self.inv(self.nf(args[0][2][0])), self.nf(args[1]))
            if d == "linalg.solve_triangular" and len(args) >= 2:
                A = self.nf(args[0])
                tr = kw.get("trans", args[2] if len(args) > 2 else ("c", 0))
                if tr in (("c", "T"), ("c", 1)):
                    A = self.T(A)
                elif tr not in (("c", 0), ("c", "N")):
                    return self.generic(t)
                low = kw.get("lower", args[3] if len(args) > 3 else ("c", False))
                raw = self.nf(args[0])
                if low[0] == "c" and len(raw) == 1:
                    sc, w = self.split(next(iter(raw)))
                    if w is not None and len(w) == 1 and self.is_root(w[0][0]) and not w[0][2] and bool(low[1]) == w[0][1]:
                        return self.matmul(self.inv(self.atom(("other triangle", self.key(A)))), self.nf(args[1]))
                return self.matmul(self.inv(A), self.nf(args[1]))
            if d == "linalg.lu_solve" and len(args) >= 2 and (
                args[0][0] == "call" and args[0][1] == "linalg.lu_factor"
                or args[0][0] == "m" and args[0][2] == "_lu_factor"
                or args[0][0] == "pcall" and args[0][1] == "_lu_factor"
            ):
                A = self.nf(args[0][1] if args[0][0] == "m" else args[0][2][0])
                if kw.get("trans", ("c", 0)) in (("c", 1), ("c", 2)):
                    A = self.T(A)
                return self.matmul(self.inv(A), self.nf(args[1]))
            if d == "linalg.cholesky" and args:
                L = self.chol(self.nf(args[0]))
                low = kw.get("lower", args[1] if len(args) > 1 else ("c", False))
                if t[1] == "linalg.cholesky" and "lower" not in kw and len(args) == 1:
                    low = ("c", True)  # numpy flavour
                if low == ("c", True):
                    return L
                if low == ("c", False):
                    return self.T(L)
                return self.cholsym(L, self.nf(args[0]), low)
            if d == "numpy.kron" and len(args) == 2:
                return self.kron(self.nf(args[0]), self.nf(args[1]))
            if d == "numpy.swapaxes" and len(args) == 3 and {args[1], args[2]} == {("c", -1), ("c", -2)}:
                return self.T(self.nf(args[0]))
            if d == "numpy.outer" and len(args) == 2:
                return self.matmul(self.nf(args[0]), self.T(self.nf(args[1])))
            if d in ("numpy.trace", "linalg.trace") and len(args) == 1 and not kw:
                return self.linfun("trace", self.nf(args[0]))
            if d == "linalg.block_diag" and len(args) == 1 and args[0][0] == "star" and not kw:
                return self.blockdiag(args[0][1])
            if d == "numpy.sum" and len(args) == 1 and not kw:
                return self.linfun("sum", self.nf(args[0]))
            if d == "numpy.diag" and len(args) == 1 and not kw:
                return self.diag(self.nf(args[0]))
            if d == "numpy.diagonal" and len(args) == 1 and not kw:
                return self.linfun(d, self.nf(args[0]))
        return self.generic(t)

    def generic(self, t):
        if t[0] == "call":
            d = t[1] if isinstance(t[1], str) else self.canon(t[1])
            kw = tuple((k, self.canon(v)) for k, v in t[3])
            return self.atom(("f", d, tuple(self.canon(a) for a in t[2]), kw))
        kw = tuple((k, self.canon(v)) for k, v in t[4])
        return self.atom(("mf", self.canon(t[1]), t[2], tuple(self.canon(a) for a in t[3]), kw))

    def linfun(self, name, p):
        """Linear function of a matrix: scalars and sums pulled out."""
        r = {}
        for m, c in p.items():
            sc, w = self.split(m)
            if w is None:
                r = self.add(r, self.mul({self.mono(sc): c}, self.atom(("f", name, (("P", self.key({(): Fraction(1)})),), ()))))
            else:
                if name == "sum" and len(w) == 1 and w[0][0][0] == "f" and w[0][0][1] == "numpy.diagonal":
                    r = self.add(r, self.mul({self.mono(sc): c}, self.linfun("trace", self.word_poly(w[0][0][2][0]))))
                    continue
                if name == "trace":
                    ws = [w[i:] + w[:i] for i in range(len(w))]
                    w = min(ws, key=repr)
                r = self.add(r, self.mul({self.mono(sc): c}, self.atom(("f", name, (w,), ()))))
        return r

    def meth(self, t):
        b, name, args, kws = t[1], t[2], t[3], t[4]
        kw = dict(kws) if all(isinstance(x[0], str) for x in kws) else {}
        if name in self.TRANSPARENT_M:
            return self.nf(b)
        if name == "inv" and not args:
            return self.inv(self.nf(b))
        if name in ("det", "logabsdet", "rank", "eigvals", "cond") and not kw:
            if name in ("det", "logabsdet") and self.canon(b) == I:
                return self.const(Fraction(1 if name == "det" else 0))
            return self.atom(("f", name, (self.canon(b),) + tuple(self.canon(a) for a in args), ()))
        if name == "cond" and set(kw) == {"p"}:
            return self.atom(("f", name, (self.canon(b), self.canon(kw["p"])), ()))
        if name == "symmetrize" and not args:
            p = self.nf(b)
            if p and len(p) == 1:
                (m, c), = p.items()
                sc, w = self.split(m)
                if w is not None:
                    return self.mul({self.mono(sc): c}, self.atom(("f", "symmetrize", (w,), ())))
            return self.atom(("f", "symmetrize", (self.canon(b),), ()))
        if name == "solve" and len(args) == 1:
            return self.matmul(self.inv(self.nf(b)), self.nf(args[0]))
        if name == "cholesky":
            L = self.chol(self.nf(b))
            low = kw.get("lower", args[0] if args else ("c", True))
            if low == ("c", True):
                return L
            if low == ("c", False):
                return self.T(L)
            return self.cholsym(L, self.nf(b), low)
        if name == "trace" and not args:
            return self.linfun("trace", self.nf(b))
        if name == "sum" and not args and not kw:
            return self.linfun("sum", self.nf(b))
        if name == "diagonal" and not args:
            return self.linfun("numpy.diagonal", self.nf(b))
        if name == "swapaxes" and len(args) == 2 and {args[0], args[1]} == {("c", -1), ("c", -2)}:
            return self.T(self.nf(b))
        if name == "reshape" and len(args) > 1:
            args = (("tup", args),)
            t = ("m", b, name, args, kws)
        if name in ("sum", "mean", "max", "min", "prod", "reshape", "ravel", "flatten", "dot"):
            return self.generic(("call", "numpy." + name, (b,) + tuple(args), tuple(kws)))
        return self.generic(t)


def _prime_atom(w):
    a = w[0][0]
    return len(w) == 1 and a[0] == "S" and len(a[1]) == 1 and a[1][0][0] == ()


def _factors(c):
    """Prime factors of a positive rational with their exponents; other numbers are one factor."""
    n, d = c.numerator, c.denominator
    if n <= 0 or n > 10**6 or d > 10**6:
        return [(c, 1)]
    out = {}
    for v, s in ((n, 1), (d, -1)):
        q = 2
        while v > 1:
            while v % q == 0:
                out[q] = out.get(q, 0) + s
                v //= q
            q += 1
            if q * q > v > 1:
                out[v] = out.get(v, 0) + s
                break
    return [(Fraction(q), k) for q, k in sorted(out.items())]


def _root(c, e):
    if c <= 0:
        return None
    if e == Fraction(1, 2) or e == Fraction(-1, 2):
        import math
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            r = Fraction(rn, rd)
            return r if e > 0 else 1 / r
    return None


def _mentions(x, what):
    if x == what:
        return True
    if isinstance(x, tuple):
        return any(_mentions(y, what) for y in x)
    return False


def _subst_bv(p, lv):
    def go(x):
        if x == ("bv", lv):
            return ("bv", 99)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return {go(m): c for m, c in p.items()}


# ---------------------------------------------------------------------- conditions
def conditions(t, out=None, memo=None):
    """All phi conditions occurring in a term."""
    if out is None:
        out, memo = [], set()
    if not isinstance(t, tuple) or id(t) in memo:
        return out
    memo.add(id(t))
    if t and t[0] == "phi":
        for c in leaves_of_cond(t[1]):
            k, _ = V.canon_cond(c)
            if k not in out and k[0] != "c":
                out.append(k)
    for x in t:
        if isinstance(x, tuple):
            conditions(x, out, memo)
    return out


def leaves_of_cond(c):
    if c[0] in ("and", "or"):
        r = []
        for x in c[1:]:
            r += leaves_of_cond(x)
        return r
    if c[0] == "not":
        return leaves_of_cond(c[1])
    return [c]


def truth(c, asg):
    if c[0] == "c":
        return bool(c[1])
    if c[0] == "and":
        vs = [truth(x, asg) for x in c[1:]]
        return False if False in vs else (None if None in vs else True)
    if c[0] == "or":
        vs = [truth(x, asg) for x in c[1:]]
        return True if True in vs else (None if None in vs else False)
    if c[0] == "not":
        v = truth(c[1], asg)
        return None if v is None else not v
    k, pol = V.canon_cond(c)
    if k[0] == "c":
        return bool(k[1]) == pol
    if k in asg:
        return asg[k] == pol
    return None


def resolve(t, asg, memo=None):
    """Term with phis decided by an assignment of conditions."""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple):
        return t
    k = id(t)
    if k in memo:
        return memo[k][1]
    if t and t[0] == "phi":
        v = truth(t[1], asg)
        if v is not None:
            r = resolve(t[2] if v else t[3], asg, memo)
        else:
            r = tuple(resolve(x, asg, memo) if isinstance(x, tuple) else x for x in t)
    else:
        r = tuple(resolve(x, asg, memo) if isinstance(x, tuple) else x for x in t)
    memo[k] = (t, r)
    return r


def feasible(asg):
    """Rejects assignments that contradict themselves."""
    true = [k for k, v in asg.items() if v]
    none = {k[2] for k in true if k[0] == "cmp" and k[1] == "is" and k[3] == V.NONE}
    for k in true:
        if k[0] == "isinstance" and k[1] in none:
            return False
        if k[0] == "truth" and k[1] in none:
            return False
    eqs = {}
    for k in true:
        if k[0] == "cmp" and k[1] == "==" and (k[2][0] == "c") != (k[3][0] == "c"):
            x, c = (k[3], k[2]) if k[2][0] == "c" else (k[2], k[3])
            if x in eqs and eqs[x] != c:
                return False
            eqs[x] = c
            if x in none:
                return False
    lts = {(k[2], k[3]) for k in true if k[0] == "cmp" and k[1] == "<"}
    if any((b, a) in lts for a, b in lts):
        return False
    return True
