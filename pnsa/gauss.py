"""Meaning of Gaussian random variables and square-root (QR) arithmetic for normal forms."""
from __future__ import annotations

from fractions import Fraction

from . import alg as A
from . import vn as V

RECORDS = {
    "Normal": {"mean": "mean", "cov": "cov", "cov_cholesky": "cov_cholesky"},
    "Constant": {"mean": "support", "support": "support"},
}
I = ((A.I, False, False),)


def is_rv(t, name):
    return t[0] == "new" and t[1].split(".")[-1] == name


class Gauss:
    """Rewrites random variable attributes, QR factors and Cholesky updates."""

    def __init__(self, subst=None, zeros=(), widths=None, extra=None, rvterm=None):
        self.rvterm = rvterm or (lambda t: False)
        self.subst = subst or {}  # term -> term
        self.zeros = set(zeros)  # terms known to be zero
        self.widths = widths or {}  # bound term -> name of the column block ("n1", "n2")
        self.extra = extra

    def __call__(self, t, alg):
        if t in self.zeros:
            return {}
        if t in self.subst:
            r = self.subst[t]
            return r(alg) if callable(r) else r
        h = t[0]
        if h == "at":
            r = self.attr(t, alg)
            if r is not None:
                return r
        elif h == "pcall" and len(t) == 4:
            nm = t[1].split(".")[-1]
            d = dict(t[3])
            if nm == "cholesky_update" and "S1" in d:
                S1 = alg.nf(d["S1"])
                P = alg.matmul(S1, alg.T(S1))
                if d.get("S2", V.NONE) != V.NONE:
                    S2 = alg.nf(d["S2"])
                    P = alg.add(P, alg.matmul(S2, alg.T(S2)))
                return alg.chol(P)
            if nm == "tril_to_positive_tril" and "tril_mat" in d:
                return alg.nf(d["tril_mat"])
        elif h == "new":
            d = dict(t[2])
            nm = t[1].split(".")[-1]
            if nm == "IdentityKronecker" and "B" in d:
                return alg.kron(alg.word_poly(I), alg.nf(d["B"]))
            if nm == "Kronecker" and {"A", "B"} <= set(d):
                return alg.kron(alg.nf(d["A"]), alg.nf(d["B"]))
            if nm == "Scaling" and "factors" in d:
                v = alg.nf(d["factors"])
                return alg.mul(v, alg.word_poly(I)) if alg.is_scalar_poly(v) else alg.diag(v)
            if nm == "Identity":
                return alg.word_poly(I)
            if nm == "Zero":
                return {}
            if nm == "Matrix" and "A" in d:
                return alg.nf(d["A"])
        elif h == "call" and t[1] == "linalg.qr":
            r = self.qr(t, alg)
            if r is not None:
                return r
        elif h == "idx":
            r = self.qr_block(t, alg)
            if r is not None:
                return r
        if self.extra is not None:
            return self.extra(t, alg)
        return None

    def is_rv(self, t):
        return is_rv(t, "Normal") or is_rv(t, "Constant") or self.rvterm(t) or (
            t[0] == "bin" and t[1] in "+-*@" and (self.is_rv(t[2]) or self.is_rv(t[3])))

    def moment(self, b, a, alg):
        """Moments of sums, shifts and scalings of independent random variables."""
        x, y = b[2], b[3]
        rx, ry = self.is_rv(x), self.is_rv(y)
        mom = lambda z, r, k: alg.nf(("at", z, k)) if r else (alg.nf(z) if k == "mean" else {})
        if b[1] in "+-":
            return alg.add(mom(x, rx, a), mom(y, ry, a), -1 if b[1] == "-" and a == "mean" else 1)
        if b[1] == "*" and rx != ry:
            c, r = (y, x) if rx else (x, y)
            c = alg.nf(c)
            if alg.is_scalar_poly(c):
                return alg.mul(c if a == "mean" else alg.mul(c, c), mom(r, True, a))
        return None

    def attr(self, t, alg):
        b, a = t[1], t[2]
        if b[0] == "bin" and a in ("mean", "cov") and self.is_rv(b):
            return self.moment(b, a, alg)
        if a == "cov_cholesky":
            if is_rv(b, "Constant"):
                return {}
            return alg.chol(alg.nf(("at", b, "cov") if not is_rv(b, "Normal") else dict(b[2]).get("cov", ("at", b, "cov"))))
        if is_rv(b, "Constant"):
            if a == "cov":
                return {}
            if a in ("mean", "support"):
                return alg.nf(dict(b[2])["support"])
        if is_rv(b, "Normal") and a in ("mean", "cov"):
            d = dict(b[2])
            if a in d:
                return alg.nf(d[a])
        return None

    # ------------------------------------------------------------------ QR
    def rows(self, t):
        """Row blocks of a stacked matrix: list of lists of terms."""
        if t[0] != "call" or not isinstance(t[1], str):
            return None
        if t[1] in ("numpy.vstack", "numpy.concatenate", "numpy.row_stack") and t[2]:
            kw = dict(t[3])
            if t[1] == "numpy.concatenate" and (kw.get("axis", t[2][1] if len(t[2]) > 1 else ("c", 0)) != ("c", 0)):
                return None
            xs = t[2][0]
            if xs[0] in ("tup", "list"):
                out = []
                for x in xs[1]:
                    r = self.rows(x)
                    out += r if r is not None else [[x]]
                return out
            if t[1] == "numpy.vstack":
                return [[xs]]
        if t[1] == "numpy.hstack" and t[2] and t[2][0][0] in ("tup", "list"):
            return [list(t[2][0][1])]
        if t[1] == "numpy.block" and t[2] and t[2][0][0] in ("tup", "list"):
            rs = t[2][0][1]
            if all(x[0] in ("tup", "list") for x in rs):
                return [list(x[1]) for x in rs]
        return None

    def gram(self, t, alg):
        """G[i][j] = sum over block rows of column_i' column_j."""
        rs = self.rows(t)
        if rs is None or len({len(r) for r in rs}) != 1:
            return None
        n = len(rs[0])
        nf = [[alg.nf(x) for x in r] for r in rs]
        G = [[{} for _ in range(n)] for _ in range(n)]
        for r in nf:
            for i in range(n):
                for j in range(n):
                    G[i][j] = alg.add(G[i][j], alg.matmul(alg.T(r[i]), r[j]))
        return G

    @staticmethod
    def r_of_qr(t):
        """The stacked matrix if t is the R factor of its QR decomposition."""
        if t[0] == "idx" and t[2] == ("c", 1):
            t = t[1]
            modes = (("c", "reduced"), ("c", "economic"), None)
        elif t[0] == "idx" and t[2] == ("c", 0):
            t = t[1]
            modes = ()
        else:
            modes = (("c", "r"),)
        if t[0] != "call" or t[1] != "linalg.qr" or not t[2]:
            return None
        kw = dict(t[3])
        mode = kw.get("mode", t[2][1] if len(t[2]) > 1 else None)
        return t[2][0] if mode in modes else None

    def qr(self, t, alg):
        x = self.r_of_qr(t)
        if x is None:
            return None
        G = self.gram(x, alg)
        if G is None:
            p = alg.nf(x)
            return alg.T(alg.chol(alg.matmul(alg.T(p), p)))
        if len(G) == 1:
            return alg.T(alg.chol(G[0][0]))
        return None

    def qr_block(self, t, alg):
        x = self.r_of_qr(t)
        if x is not None:
            return self.qr(t[1], alg) if False else None
        if t[2][0] != "tup" or len(t[2][1]) != 2:
            return None
        x = self.r_of_qr(t[1])
        if x is None:
            return None
        G = self.gram(x, alg)
        if G is None or len(G) != 2:
            return None
        i, j = (self.section(s) for s in t[2][1])
        if i is None or j is None:
            return None
        L1 = alg.chol(G[0][0])
        R12 = alg.matmul(alg.inv(L1), G[0][1])
        if (i, j) == (0, 0):
            return alg.T(L1)
        if (i, j) == (0, 1):
            return R12
        if (i, j) == (1, 0):
            return {}
        if (i, j) == (1, 1):
            return alg.T(alg.chol(alg.add(G[1][1], alg.matmul(alg.T(R12), R12), -1)))
        return alg.atom(("wrong block of the triangular factor", i, j))

    def section(self, s):
        """0: first block, 1: second block, 'bad': a slice that is neither, None: not understood."""
        if s[0] != "slice" or s[3] != V.NONE:
            return None
        lo, hi = self.bound(s[1]), self.bound(s[2])
        if lo is None or hi is None:
            return None
        if lo in ((), "none") and hi == ("n1",):
            return 0
        if lo == ("n1",) and hi in (("n1", "n2"), "none"):
            return 1
        return "bad"

    def bound(self, t):
        if t == V.NONE:
            return "none"
        if t == ("c", 0):
            return ()
        if t in self.widths:
            return (self.widths[t],)
        if t[0] == "bin" and t[1] == "+":
            a, b = self.bound(t[2]), self.bound(t[3])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(sorted(a + b))
        return None


def normals(t, out=None, seen=None):
    """All Normal(...) constructions inside a term."""
    if out is None:
        out, seen = [], set()
    if not isinstance(t, tuple) or id(t) in seen:
        return out
    seen.add(id(t))
    if t and t[0] == "new" and isinstance(t[1], str) and t[1].split(".")[-1] == "Normal":
        out.append(t)
    for x in t:
        if isinstance(x, tuple):
            normals(x, out, seen)
    return out
