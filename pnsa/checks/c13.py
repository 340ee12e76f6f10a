"""C13: every linear operator behaves as one matrix."""
from __future__ import annotations

import ast

from .. import alg as A
from .. import vn as V
from ..common import loc, param_names, public_class
from ..oblig import SELF, Eval, compare, pretty
from ..prog import walk_own

LEVEL = "proof-of-formula"
EXPLANATION = (
    "For every linear operator class the value of each protocol method (product with an array, dense form, transpose, "
    "inverse, solve, trace, diagonal, determinant, rank, Cholesky factor, cast, negation) and of every registered binary "
    "operation is computed as a term over the constructor arguments by value numbering (constructors, closures and helper "
    "functions inlined) and compared, under every assignment of the branch conditions, with the same operation applied to "
    "the matrix the class denotes; both sides are brought to a normal form of matrix words."
)
ASSUMPTIONS = [
    "Dense numpy/scipy kernels compute what they document; floating-point rounding and dtype casts are not modelled.",
    "Nested operators obey the same property (assume-guarantee over the operator tree).",
]

BASEQ = "LinearOperator"
PROTO = [
    "_matmul", "_todense", "_transpose", "_inverse", "_solve", "_trace", "_diagonal", "_det", "_logabsdet", "_rank",
    "_cholesky", "_symmetrize", "_cond", "_astype", "__neg__",
]
PUB = ["inv", "todense", "solve", "trace", "diagonal", "det", "logabsdet", "cholesky", "rank", "eigvals", "symmetrize",
       "cond", "astype", "_lu_factor"]

# what each class denotes, over its constructor parameters
DEN = {
    "ScaledLinearOperator": "scalar * linop",
    "NegatedLinearOperator": "-linop",
    "SumLinearOperator": "sum(summands)",
    "ProductLinearOperator": "functools.reduce(operator.matmul, factors)",
    "TransposedLinearOperator": "linop.T",
    "_InverseLinearOperator": "linop.inv()",
    "_TypeCastLinearOperator": "linop",
    "Matrix": "A",
    "Identity": "np.eye(shape)",
    "Kronecker": "np.kron(A, B)",
    "IdentityKronecker": "np.kron(np.eye(num_blocks), B)",
    "SymmetricKronecker": "np.kron(A, A) if B is None else 0.5 * (np.kron(A, B) + np.kron(B, A))",
    "Zero": "np.zeros(shape)",
    "BlockDiagonalMatrix": "linalg.block_diag(*blocks)",
    "Symmetrize": "SYM",
    "Selection": "np.take(np.eye(shape[1]), indices=indices, axis=-2)",
    "Scaling": "np.diag(factors) if np.ndim(factors) == 1 else factors * np.eye(shape)",
}
# references that are not obtained by applying the operation to the denotation
REF = {
    "*": {
        "_matmul": ["D @ x"], "_todense": ["D"], "_transpose": ["D.T"], "_inverse": ["D.inv()"], "_solve": ["D.inv() @ B"],
        "_trace": ["D.trace()"], "_diagonal": ["D.diagonal()"], "_det": ["D.det()"], "_logabsdet": ["D.logabsdet()"],
        "_rank": ["D.rank()"], "_cholesky": ["D.cholesky(lower)"], "_symmetrize": ["0.5 * (D + D.T)", "D.symmetrize()"],
        "_cond": ["D.cond(p)"], "_astype": ["D"], "__neg__": ["-D"],
    },
    "ScaledLinearOperator": {
        "_det": ["scalar ** linop.shape[0] * linop.det()", "scalar ** linop.shape[1] * linop.det()"],
        "_logabsdet": ["linop.shape[0] * np.log(np.abs(scalar)) + linop.logabsdet()"],
        "_cond": ["linop.cond(p)"],
        "_rank": ["linop.rank()"],
    },
    "NegatedLinearOperator": {
        "_det": ["(-1) ** linop.shape[0] * linop.det()"], "_logabsdet": ["linop.logabsdet()"], "_cond": ["linop.cond(p)"],
        "_rank": ["linop.rank()"],
    },
    "SumLinearOperator": {
        "_trace": ["sum(s.trace() for s in summands)"], "_diagonal": ["sum(s.diagonal() for s in summands)"],
        "_symmetrize": ["sum(s.symmetrize() for s in summands)"],
    },
    "ProductLinearOperator": {
        "_det": ["math.prod(f.det() for f in factors)"], "_logabsdet": ["sum(f.logabsdet() for f in factors)"],
    },
    "TransposedLinearOperator": {
        "_det": ["linop.det()"], "_logabsdet": ["linop.logabsdet()"], "_trace": ["linop.trace()"],
        "_diagonal": ["linop.diagonal()"], "_rank": ["linop.rank()"], "_symmetrize": ["linop.symmetrize()"],
    },
    "_InverseLinearOperator": {
        "_det": ["1 / linop.det()"], "_logabsdet": ["-linop.logabsdet()"], "_cond": ["linop.cond(p)"],
        "_rank": ["linop.rank()", "linop.shape[0]"],
    },
    "Kronecker": {
        "_trace": ["A.trace() * B.trace()"], "_diagonal": ["np.kron(A.diagonal(), B.diagonal())"],
        "_det": ["A.det() ** B.shape[0] * B.det() ** A.shape[0]"],
        "_logabsdet": ["B.shape[0] * A.logabsdet() + A.shape[0] * B.logabsdet()"],
        "_rank": ["A.rank() * B.rank()"], "_cond": ["A.cond(p) * B.cond(p)"],
        "_cholesky": ["np.kron(A.cholesky(lower), B.cholesky(lower))"],
        "_symmetrize": ["np.kron(A.symmetrize(), B.symmetrize())"],
        "_matmul": ["VEC(A, B, x)"],
    },
    "IdentityKronecker": {
        "_trace": ["np.eye(num_blocks).trace() * B.trace()", "num_blocks * B.trace()"],
        "_diagonal": ["np.kron(np.eye(num_blocks).diagonal(), B.diagonal())"],
        "_det": ["B.det() ** num_blocks", "B.det() ** np.eye(num_blocks).shape[0]"],
        "_logabsdet": ["num_blocks * B.logabsdet()", "np.eye(num_blocks).shape[0] * B.logabsdet()"],
        "_rank": ["num_blocks * B.rank()", "np.eye(num_blocks).rank() * B.rank()"],
        "_cond": ["np.eye(num_blocks).cond(p) * B.cond(p)"],
        "_cholesky": ["np.kron(np.eye(num_blocks), B.cholesky(lower))"],
        "_symmetrize": ["np.kron(np.eye(num_blocks), B.symmetrize())"],
        "_matmul": ["VEC(np.eye(num_blocks), B, x)"],
    },
    "SymmetricKronecker": {
        "_trace": ["A.trace() ** 2 if B is None else A.trace() * B.trace()"],
        "_det": ["A.det() ** (2 * A.shape[0])"], "_logabsdet": ["2 * A.shape[0] * A.logabsdet()"],
        "_rank": ["A.rank() ** 2"], "_cond": ["A.cond(p) ** 2"], "_matmul": ["VEC(A, A, x) if B is None else VEC2(A, B, x)"],
        "_cholesky": ["np.kron(A.cholesky(lower), A.cholesky(lower))"],
        "_symmetrize": ["np.kron(A.symmetrize(), A.symmetrize()) if B is None else "
                        "0.5 * (np.kron(A.symmetrize(), B.symmetrize()) + np.kron(B.symmetrize(), A.symmetrize()))"],
        "_diagonal": ["np.kron(A.diagonal(), A.diagonal()) if B is None else "
                      "0.5 * (np.kron(A.diagonal(), B.diagonal()) + np.kron(B.diagonal(), A.diagonal()))"],
    },
    "Identity": {
        "_trace": ["shape[0]"], "_diagonal": ["np.ones(shape[0])"], "_det": ["1"], "_logabsdet": ["0"],
        "_rank": ["shape[0]"], "_cholesky": ["D"], "_cond": [None],
    },
    "Symmetrize": {
        "_matmul": ["VECS(n, x)"], "_symmetrize": [None], "_trace": [None], "_diagonal": [None], "_cond": [None], "_rank": [None],
        "_transpose": [None], "_todense": [None], "_inverse": [None], "_solve": [None], "_det": [None], "_logabsdet": [None],
        "_cholesky": [None], "__neg__": [None],
    },
    "Selection": {
        "_matmul": ["np.take(x, indices=indices, axis=-2)"], "_symmetrize": [None], "_trace": [None], "_diagonal": [None],
        "_cond": [None], "_rank": [None], "_transpose": [None], "_inverse": [None], "_solve": [None], "_det": [None],
        "_logabsdet": [None], "_cholesky": [None], "__neg__": [None],
    },
    "BlockDiagonalMatrix": {
        "_trace": ["sum(b.trace() for b in blocks)"], "_det": ["math.prod(b.det() for b in blocks)"],
        "_logabsdet": ["sum(b.logabsdet() for b in blocks)"], "_rank": ["sum(b.rank() for b in blocks)"],
        "_diagonal": ["np.concatenate([b.diagonal() for b in blocks])"],
    },
    "Zero": {
        "_trace": ["0"], "_diagonal": ["np.zeros(1)"], "_det": ["0"], "_rank": ["0"],
    },
    "Scaling": {
        "_trace": ["np.sum(factors) if np.ndim(factors) == 1 else shape[0] * factors"],
        "_diagonal": ["factors if np.ndim(factors) == 1 else factors * np.ones(1)"],
        "_det": ["np.prod(factors) if np.ndim(factors) == 1 else factors ** shape[0]"],
        "_logabsdet": ["np.sum(np.log(np.abs(factors))) if np.ndim(factors) == 1 else shape[0] * np.log(np.abs(factors))"],
        "_rank": ["np.count_nonzero(factors, axis=0) if np.ndim(factors) == 1 else 0 if self._scalar == 0 else shape[0]"],
        "_cond": [None],
        "_cholesky": ["np.diag(np.sqrt(factors)) if np.ndim(factors) == 1 else np.sqrt(factors) * np.eye(shape)"],
    },
}
VECPRE = (
    "np.swapaxes({E}.reshape({E}.shape[:-2] + (-1,)), -1, -2)"
)
SCALARS = {"scalar", "num_blocks", "p", "_scalar"}
SHAPEY = {"shape", "size", "ndim"}


def is_scalar(a):
    h = a[0]
    if h == "s":
        return a[1] in SCALARS
    if h == "par":
        return a[2] in SCALARS
    if h == "at":
        return a[2] in SCALARS | SHAPEY
    if h == "f":
        return a[1] in ("det", "logabsdet", "trace", "rank", "cond", "sum", "numpy.prod", "numpy.count_nonzero",
                        "builtins.len", "numpy.ndim") or (a[1] in ("numpy.log", "numpy.abs", "numpy.exp", "numpy.intp") and
                                                           all(is_scalar(x) for x in a[2]))
    if h == "idx":
        return is_shape(a[1])
    if h == "pow":
        return all(all(len(w) == 1 and is_scalar(w[0][0]) for w, _ in m) for m, _ in a[1])
    if h in ("S",):
        return True
    if h == "fold*" or h == "fold+":
        return all(all(len(w) == 1 and is_scalar(w[0][0]) for w, _ in m) for m, _ in a[2])
    return False


def is_shape(a):
    return (a[0] == "at" and a[2] == "shape") or (a[0] in ("s",) and a[1] == "shape") or (a[0] == "par" and a[2] == "shape")


def unwrap(t):
    while t[0] == "pcall" and len(t) == 4 and t[1].split(".")[-1] in A.Alg.TRANSPARENT_P:
        t = dict(t[3])[A.Alg.TRANSPARENT_P[t[1].split(".")[-1]]]
    return t


# mutually exclusive situations of a class: assumptions on conditions and what attributes mean
CASES = {
    "Scaling": [
        dict(assume=[("np.ndim(factors) == 0", True), ("np.ndim(factors) == 1", False), ("self._scalar is None", False),
                     ("self._factors is None", True), ("self.is_isotropic", True)],
             mean={("at", SELF, "_scalar"): "factors", ("at", SELF, "_factors"): "factors * np.ones(1)"},
             scalars={"factors"}),
        dict(assume=[("np.ndim(factors) == 0", False), ("np.ndim(factors) == 1", True), ("self._scalar is None", True),
                     ("self._factors is None", False), ("self.is_isotropic", False)],
             mean={("at", SELF, "_factors"): "factors"}, scalars=set()),
    ],
    "TransposedLinearOperator": [dict(assume=[("matmul is None", True)], mean={}, scalars=set())],
}


class Linops:
    def __init__(self, p, eff=None):
        self.p = p
        self.base = public_class(p, "probnum.linops.LinearOperator")
        self.lam = next((c for c in self.base.all_subclasses() if c.name == "LambdaLinearOperator"), None)
        bq = self.base.qual + "."
        self.opaque = {bq + m for m in PROTO + PUB if m != "__neg__"} | {"aslinop", "as_numpy_scalar", "as_shape", "is_isotropic"}
        self.classes = {c.name: c for c in self.base.all_subclasses()}
        self._state = {}

    def eval(self, types=None):
        ev = Eval(self.p, opaque=self.opaque, types=types or {})
        ev.identity_calls = {"broadcast_matmat", "broadcast_matvec", "vectorize_matmat", "vectorize_matvec"}
        return ev

    # --------------------------------------------------------------- denotations
    def den(self, cls, ev, vn, env, f):
        """Term of the matrix denoted by class cls over parameter environment env."""
        for c in cls.mro():
            if c.name in DEN:
                return ev.text(DEN[c.name], f, cls, vn, env)
        return None

    def obj_env(self, ev, vn, x, cls):
        """Attributes of a typed symbol, as terms over its constructor arguments."""
        st = ev.state(cls, vn)
        init = cls.find("__init__")
        names = set(param_names(init)) if init is not None else set()
        out = {}

        def sub(n):
            if n == SELF:
                return x
            if n[0] == "s" and n[1].lstrip("*") in names:
                return ("par", x, n[1].lstrip("*"))
            return n

        for k, v in st.items():
            if V.contains(v, lambda n: n[0] in ("fn", "bound", "unk")):
                continue
            out[("@", x, k[2])] = V.subst(v, lambda n: sub(n) if n else n)
        return out, {n: ("par", x, n) for n in names}

    # ------------------------------------------------------------------- algebra
    def alg(self, asg, selfden=None, dens=None, extra=None):
        """Normaliser under an assignment: `self` and typed symbols are their matrices."""
        eqs = {}
        sym = set()
        for k, v in asg.items():
            if v and k[0] == "cmp" and k[1] in ("is", "=="):
                a, b = unwrap(k[2]), unwrap(k[3])
                if len(repr(a)) < len(repr(b)):
                    a, b = b, a
                if a != b and a[0] != "c" and not V.contains(b, lambda n: n == a) and not (b[0] == "c" and b[1] is None):
                    eqs[a] = b
            if v and k[0] == "at" and k[2] == "is_symmetric":
                sym.add(k[1])
        busy = []

        def sem(t, al):
            if t in eqs:
                return eqs[t]
            if t == SELF and selfden is not None and SELF not in busy:
                return A.resolve(selfden, asg)
            if dens and t in dens:
                return A.resolve(dens[t], asg)
            if extra is not None:
                r = extra(t)
                if r is not None:
                    return r
            if t[0] == "idx":
                b = unwrap(t[1])
                if b[0] == "bin" and b[1] == "*" and b[2] == ("c", 2):
                    return ("idx", b[3], ("c", 0))
                if b is not t[1]:
                    return ("idx", b, t[2])
            if t[0] == "new":
                c = self.p.class_by_qual.get(t[1])
                if c is not None and c.is_subclass_of(self.base):
                    return self.den_new(c, dict(t[2]), asg, al)
            return None

        def symf(a):
            return a in sym or any(a == al.canon(s) for s in sym if s != SELF)

        al = A.Alg(scalar=is_scalar, symmetric=symf, sem=sem)
        if SELF in sym and selfden is not None:
            al.self_symmetric = True
        return al

    @staticmethod
    def consistent(asg, al):
        """False if two equalities with constants contradict each other."""
        seen = {}
        for k, v in asg.items():
            if k[0] == "cmp" and k[1] == "==" and (k[2][0] == "c") != (k[3][0] == "c"):
                x, c = (k[3], k[2]) if k[2][0] == "c" else (k[2], k[3])
                x = al.canon(x)
                if v:
                    if seen.get(x, c) != c or ("not", x, c) in seen:
                        return False
                    seen[x] = c
                elif seen.get(x) == c:
                    return False
                else:
                    seen[("not", x, c)] = True
        return True

    def den_new(self, c, d, asg, al=None):
        ev = self.eval()
        vn = ev.new_vn()
        f = c.find("__init__") or next(iter(c.methods.values()))
        env = {**NPENV, **d}
        t = self.den(c, ev, vn, env, f)
        if t is None:
            return None
        # `X is None` and `ndim(X)` of concrete arguments are decided by value
        asg2 = dict(asg)
        for k in A.conditions(t):
            if k in asg2 or k[0] != "cmp":
                continue
            if k[1] == "is" and k[3] == V.NONE:
                x = unwrap(k[2])
                if x == V.NONE:
                    asg2[k] = True
                elif x[0] not in ("s", "par", "at", "phi", "unk"):
                    asg2[k] = False
            elif k[1] == "==" and al is not None:
                for x, n in ((k[2], k[3]), (k[3], k[2])):
                    if x[0] == "call" and x[1] == "numpy.ndim" and n[0] == "c":
                        sc = al.is_scalar_poly(al.nf(x[2][0]))
                        asg2[k] = n[1] == (0 if sc else 1)
        return A.resolve(t, asg2)


def vec_product(a, b, x):
    """Reference for (a kron b) x through matrices: vec(a X b^T)."""
    return vec_of(a, b, x, lambda X: ("bin", "@", ("bin", "@", a, X), ("T", b)))


def vec_sym(a, b, x):
    def y(X):
        return ("bin", "*", ("c", 0.5), ("bin", "+", ("bin", "@", ("bin", "@", a, X), ("T", b)),
                                         ("bin", "@", ("bin", "@", b, X), ("T", a))))
    return vec_of(a, a, x, y)


def vec_of(a, b, x, f, sizes=None):
    sizes = sizes or (("idx", ("at", a, "shape"), ("c", 1)), ("idx", ("at", b, "shape"), ("c", 1)))
    x = ("T", x)
    X = ("m", x, "reshape", (("bin", "+", ("idx", ("at", x, "shape"), ("slice", V.NONE, ("c", -1), V.NONE)),
                              ("tup", sizes)),), ())
    Y = f(X)
    R = ("m", Y, "reshape", (("bin", "+", ("idx", ("at", Y, "shape"), ("slice", V.NONE, ("c", -2), V.NONE)),
                              ("tup", (("c", -1),))),), ())
    return ("T", R)


def check_protocol(L, res):
    p = L.p
    for cls in L.base.all_subclasses():
        spec = next((c.name for c in cls.mro() if c.name in DEN), None)
        if spec is None or cls is L.base or cls is L.lam:
            if cls not in (L.base, L.lam) and ".linops." in cls.qual:
                res.undecided.append(f"{cls.name}: no denotation")
            continue
        if ".linops." not in cls.qual:
            continue
        for m in PROTO:
            f = cls.find(m)
            if f is None:
                continue
            unit = f"{cls.name}.{m}"
            try:
                v = protocol_one(L, cls, spec, m, f)
            except Exception as e:  # the unit is not decided
                res.undecided.append(f"{unit}: {type(e).__name__}")
                continue
            if v is None:
                continue
            res.count("obligations")
            if v.kind == "equal":
                res.count("decided")
                res.count("leaves", v.leaves)
            elif v.kind == "differs":
                res.add("value", unit, f"the result {v.detail}", **loc(f))
            else:
                res.undecided.append(f"{unit}: {v.detail}")


def protocol_one(L, cls, spec, m, f):
    out = None
    for case in CASES.get(spec, [dict(assume=[], mean={}, scalars=set())]):
        v = protocol_case(L, cls, spec, m, f, case)
        if v is None or v.kind == "differs":
            return v
        if out is None or v.kind == "undecided":
            v.leaves += out.leaves if out else 0
            out = v
        else:
            out.leaves += v.leaves
    return out


NPENV = {"math": ("ext", "math"), "np": ("ext", "numpy"), "functools": ("ext", "functools"), "operator": ("ext", "operator"),
         "linalg": ("ext", "linalg")}


def protocol_case(L, cls, spec, m, f, case):
    ev = L.eval()
    init = cls.find("__init__")
    a = init.node.args
    env = dict(NPENV)
    for n in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]:
        env[n] = ("s", n)
    if a.vararg:
        env[a.vararg.arg] = ("s", "*" + a.vararg.arg)
    vn = ev.new_vn()
    assume = {}
    for tx, val in case["assume"]:
        t = ev.text(tx, init, None, vn, {**env, "self": SELF})
        k, pol = V.canon_cond(t)
        assume[k] = val == pol
    vn = ev.new_vn(assume)
    st = ev.state(cls, vn)
    margs = f.node.args
    names = [x.arg for x in margs.posonlyargs + margs.args][1:]
    canon = {"_matmul": ["x"], "_solve": ["B"], "_cholesky": ["lower"], "_cond": ["p"],
             "_astype": ["dtype", "order", "casting", "copy"]}.get(m, [])
    if len(names) != len(canon):
        return None
    args = {n: ("s", "arg:" + c) for n, c in zip(names, canon)}
    impl, _ = ev.method(cls, m, args, vn=vn, state=st)
    if impl is None:
        return None
    seq = seq_of(cls, ev, vn, st, spec)
    if seq is not None:
        impl = V.subst(impl, lambda n: seq.get(n, n))
    den = L.den(cls, ev, vn, dict(env), init)
    renv = dict(env)
    renv["D"] = den
    renv["self"] = SELF
    for c in canon:
        renv[c] = ("s", "arg:" + c)
    texts = REF.get(spec, {}).get(m, []) + REF["*"].get(m, [])
    refs = []
    for tx in texts:
        if tx is None:
            return None
        renv["VEC"], renv["VEC2"], renv["VECS"] = ("vec",), ("vec2",), ("vecs",)
        refs.append(expand_vec(ev.text(tx, init, None, vn, renv)))
    mean = {k: ev.text(tx, init, None, vn, renv) for k, tx in case["mean"].items()}

    cur = [None]

    def extra(t):
        if t in mean:
            return mean[t]
        if spec == "BlockDiagonalMatrix" and t[0] == "call" and t[1] == "numpy.concatenate":
            return blocks_apply(ev, init, vn, env, t, cur[0])
        if spec in ("SymmetricKronecker",) and t[0] == "idx" and t[2] == ("c", 1) and t[1][0] == "at" and t[1][2] == "shape":
            return ("idx", t[1], ("c", 0))
        return None

    def accept(al, leaf):
        if leaf[0] == "pcall" and leaf[1] == m and leaf[2] == (SELF,):
            return True  # inherited default, decided on its own
        if leaf[0] == "ext" and leaf[1].endswith("NotImplemented"):
            return True
        return V.contains(leaf, lambda n: n == ("ext", "numpy.inf"))  # singular operator

    def factory(asg):
        asg = {**asg, **assume}
        al = L.alg(asg, selfden=den, extra=extra)
        cur[0] = al
        al.scalar_fn = lambda x: is_scalar(x) or (x[0] == "s" and x[1] in case["scalars"])
        return al

    if m == "_transpose":
        v = custom_transpose(L, ev, vn, cls, f, st, impl, den, factory)
        if v is not None and v.kind != "equal":
            return v
    return compare(impl, refs, factory, max_conds=9, accept=accept,
                   consistent=lambda asg: L.consistent(asg, factory({})),
                   known_heads={"det", "logabsdet", "trace", "rank", "cond", "symmetrize", "numpy.diagonal", "sum", "cholesky",
                                "numpy.abs"})


def custom_transpose(L, ev, vn, cls, f, st, impl, den, factory):
    """A transposed view with its own product routine: that routine must multiply with the transpose."""
    found = []

    def go(n):
        if n and n[0] == "new" and n[1].endswith(".TransposedLinearOperator"):
            mm = dict(n[2]).get("matmul", V.NONE)
            if mm != V.NONE:
                found.append(mm)
        return n
    V.subst(impl, go)
    for mm in found:
        env = dict(st)
        if f.self_name:
            env[f.self_name] = SELF
        fr = V.Frame(vn, f, env, cls)
        x = ("s", "arg:x")
        got = fr.call(mm, (x,), ())
        v = compare(got, [("bin", "@", ("T", den), x)], factory, max_conds=9)
        if v.kind == "differs":
            v.detail = "of the transposed product " + v.detail
            return v
        if v.kind == "undecided":
            return v
    return None


def blocks_apply(ev, f, vn, env, t, al):
    """concatenate(block_i op x_i) over the row split of x is the block operator applied to x."""
    kw = dict(t[3])
    seq = t[2][0] if t[2] else None
    ax = kw.get("axis", t[2][1] if len(t[2]) > 1 else ("c", 0))
    if seq is None or ax != ("c", -2) or seq[0] != "map" or seq[3]:
        return None
    z, body, lv = seq[1], seq[2], seq[4]
    if not (z[0] == "call" and z[1] == "builtins.zip" and len(z[2]) == 2):
        return None
    blocks, parts = z[2]
    if parts[0] == "call" and parts[1] == "numpy.split":
        pk = dict(parts[3])
        pa = parts[2]
        x, ind = pa[0], pa[1] if len(pa) > 1 else pk.get("indices_or_sections")
        pax = pk.get("axis", pa[2] if len(pa) > 2 else ("c", 0))
    else:
        return None
    if ind is None or pax != ("c", -2):
        return None
    want = ev.text("np.array(tuple(b.shape[1] for b in blocks)).cumsum()[:-1]", f, None, vn, env)
    wrong = ev.text("np.array(tuple(b.shape[0] for b in blocks)).cumsum()[:-1]", f, None, vn, env)
    k = al.canon(norm_cumsum(ind))
    bad = k == al.canon(norm_cumsum(wrong))
    if not bad and k != al.canon(norm_cumsum(want)):
        return None
    A_, B_ = ("idx", ("bv", lv), ("c", 0)), ("idx", ("bv", lv), ("c", 1))
    body = V.subst(body, lambda n: ("bv", lv) if n == A_ else (("s", "<rows>") if n == B_ else n))
    p = al.renorm(al.nf(body), lv)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    w = m[0][0]
    if w[-1] != (("s", "<rows>"), False, False) or any(l[0] == ("s", "<rows>") for l in w[:-1]):
        return None
    op = al.bd(al.canon(blocks), al.word_poly(w[:-1]))
    solved = any(l[2] for l in w[:-1])
    if bad and not solved:
        return al.matmul(op, al.atom(("s", "rows split by output sizes")))
    return al.matmul(op, al.nf(x))


def norm_cumsum(t):
    def go(n):
        if n and n[0] == "call" and n[1] == "numpy.cumsum" and len(n[2]) == 1:
            return ("m", n[2][0], "cumsum", (), ())
        if n and n[0] == "call" and n[1] in ("numpy.asarray", "numpy.array") and n[2]:
            return n[2][0]
        return n
    return V.subst(t, go)


def expand_vec(t):
    def go(n):
        if n and n[0] == "call" and n[1] == ("vec",):
            return vec_product(*n[2])
        if n and n[0] == "call" and n[1] == ("vec2",):
            return vec_sym(*n[2])
        if n and n[0] == "call" and n[1] == ("vecs",):
            k, x = n[2]
            return vec_of(None, None, x, lambda X: ("bin", "*", ("c", 0.5), ("bin", "+", X, ("T", X))), (k, k))
        return n
    return V.subst(t, go)


def seq_of(cls, ev, vn, st, spec):
    """Sum/Product: the flattened operand sequence stands for the operands themselves."""
    name = {"SumLinearOperator": "summands", "ProductLinearOperator": "factors"}.get(spec)
    if name is None:
        return None
    t, _ = ev.method(cls, name, {}, vn=vn, state=st)
    if t is None:
        return None
    return {t: ("s", "*" + name)}


# ------------------------------------------------------------------ binary operations
OPS = {"add": "+", "sub": "-", "mul": "*", "matmul": "@"}


def public_ops(L):
    """The four binary entry points of the linear-operator package: name -> FuncInfo."""
    out = {}
    for m in L.p.modules.values():
        if not m.name.startswith("probnum.linops"):
            continue
        for f in m.functions.values():
            if f.name in OPS and f.cls is None and f.parent is None:
                out.setdefault(f.name, f)
    return out


def registry_entries(L, fns):
    """[(op name, key classes, function expression, host function)] in registration order (last one wins)."""
    table = {}
    for name, f in fns.items():
        reg = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in f.module.assigns:
                reg = n.args[0].id
        if reg is None:
            continue

        def scan(stmts, env):
            for s in stmts:
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                    it = s.iter
                    if isinstance(it, ast.Name):
                        it = f.module.assigns.get(it.id)
                    if isinstance(it, (ast.List, ast.Tuple)):
                        for e in it.elts:
                            scan(s.body, {**env, s.target.id: e})
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == reg and \
                                isinstance(t.slice, ast.Tuple) and len(t.slice.elts) == 2:
                            ks = []
                            for e in t.slice.elts:
                                if isinstance(e, ast.Name) and e.id in env:
                                    e = env[e.id]
                                r = L.p.resolve_expr(e, f.module, f)
                                if r is not None and r[0] == "class":
                                    ks.append(r[1])
                                elif r is not None and r[0] == "ext" and r[1] == "numpy.number":
                                    ks.append("number")
                                else:
                                    ks.append(None)
                            table[(name, tuple(k if isinstance(k, str) or k is None else k.qual for k in ks))] = (
                                name, tuple(ks), s.value, f, s.lineno)
        scan(f.module.tree.body, {})
    return list(table.values())


def case_list(spec):
    return CASES.get(spec, [dict(assume=[], mean={}, scalars=set())]) if spec == "Scaling" else [dict(assume=[], mean={}, scalars=set())]


def binary_one(L, name, kinds, fexpr, host):
    import itertools
    xs = (("s", "op1"), ("s", "op2"))
    specs = []
    for k in kinds:
        if k == "number":
            specs.append("number")
        elif k is None:
            return None
        else:
            specs.append(next((c.name for c in k.mro() if c.name in DEN), None))
    out = None
    for combo in itertools.product(*(case_list(sp) for sp in specs)):
        types = {x: k for x, k in zip(xs, kinds) if k != "number"}
        ev = L.eval(types)
        vn0 = ev.new_vn()
        env = {**NPENV, "op1": xs[0], "op2": xs[1]}
        dens, means, assume, scal = {}, {}, {}, set()
        for x, k, sp, case in zip(xs, kinds, specs, combo):
            if k == "number":
                scal.add(x)
                continue
            oenv, pars = L.obj_env(ev, vn0, x, k)
            env.update({kk: v for kk, v in oenv.items() if kk[2] not in ("_scalar", "_factors") or sp != "Scaling"})
            init = k.find("__init__")
            penv = {**NPENV, **pars, "self": x}
            if sp is not None:
                dens[x] = L.den(k, ev, vn0, dict(penv), init)
            for tx, val in case["assume"]:
                kk, pol = V.canon_cond(ev.text(tx, init, None, vn0, penv))
                assume[kk] = val == pol
            for kk, tx in case["mean"].items():
                means[("at", x, kk[2])] = ev.text(tx, init, None, vn0, penv)
            for nm in case["scalars"]:
                scal.add(("par", x, nm))
        vn = ev.new_vn(assume)
        fr = V.Frame(vn, host, env, None)
        callee = fr.ev(fexpr)
        impl = fr.call(callee, xs, ())
        refs = [("bin", OPS[name], xs[0], xs[1])]
        if name == "mul" and "number" not in kinds:
            refs.append(("bin", "@", xs[0], xs[1]))

        if specs[1] == "Scaling" and combo[1]["scalars"] == set() and xs[0] in dens:
            # broadcasting a vector over the last axis scales the columns
            refs.append(("bin", "*", xs[0], ("par", xs[1], "factors")))

        def factory(asg):
            asg = {**asg, **assume}
            al = L.alg(asg, dens=dens, extra=lambda t: means.get(t))
            al.asg = asg
            al.scalar_fn = lambda a: is_scalar(a) or a in scal
            return al

        def accept(al, leaf):
            if leaf[0] == "ext" and leaf[1].endswith("NotImplemented"):
                return True
            if None in specs and "number" not in specs:
                # index operators: the product may only be simplified under a condition on every index set involved
                used = set()
                for k, v in al.asg.items():
                    if v:
                        V.subst(k, lambda n: (used.add(n[2] if n[0] in ("at", "par") else None), n)[1] if n else n)
                used = {u.lstrip("_") for u in used if isinstance(u, str)}
                need = {q for k in kinds for q in param_names(k.find("__init__")) if q.endswith("indices")}
                return need <= used
            return False

        v = compare(impl, refs, factory, max_conds=9, accept=accept, known_heads={"idx:const", "numpy.abs"})
        if v.kind == "equal":
            leaf = one_sided_cast(impl, xs)
            if leaf:
                v.kind, v.detail = "differs", leaf
        if v.kind == "differs":
            return v
        if out is None or v.kind == "undecided":
            out = v
    return out


def one_sided_cast(t, xs):
    """A result built from both operands but given the dtype of one of them loses the other's precision."""
    bad = []

    def go(n):
        if n and n[0] == "new" and "dtype" in dict(n[2]):
            d = dict(n[2])
            dt = d.pop("dtype")
            rest = tuple(v for k, v in d.items() if k != "shape")
            if all(V.contains(rest, lambda m, x=x: m == x) for x in xs):
                src = [x for x in xs if V.contains(dt, lambda m, x=x: m == x)]
                if len(src) == 1:
                    bad.append(f"is cast to the dtype of {src[0][1]} alone")
        return n
    V.subst(t, go)
    return bad[0] if bad else None


def check_binary(L, res):
    fns = public_ops(L)
    if set(fns) != set(OPS):
        raise LookupError("binary operation entry points of probnum.linops not found")
    n = 0
    for name, kinds, fexpr, host, line in registry_entries(L, fns):
        kn = [k if isinstance(k, str) or k is None else k.name for k in kinds]
        unit = f"{name}({kn[0]}, {kn[1]})"
        n += 1
        try:
            v = binary_one(L, name, kinds, fexpr, host)
        except Exception as e:  # the unit is not decided
            res.undecided.append(f"{unit}: {type(e).__name__}")
            continue
        if v is None:
            res.undecided.append(f"{unit}: unresolved operand class")
            continue
        res.count("binary_obligations")
        if v.kind == "equal":
            res.count("binary_decided")
        elif v.kind == "differs":
            res.add("binary", unit, f"the registered result {v.detail}", file=host.module.relpath, line=line)
        else:
            res.undecided.append(f"{unit}: {v.detail}")
    # fallbacks
    for name, f in fns.items():
        try:
            for n_ in ast.walk(f.node):
                if not isinstance(n_, ast.Call):
                    continue
                fb = next((k.value for k in n_.keywords if k.arg and "fallback" in k.arg), n_.args[3] if len(n_.args) == 4 else None)
                if fb is None:
                    continue
                v = fallback_one(L, name, fb, f)
                res.count("binary_obligations")
                if v.kind == "equal":
                    res.count("binary_decided")
                elif v.kind == "differs":
                    res.add("binary", f"{name}: fallback", f"the generic result {v.detail}", **loc(f))
                else:
                    res.undecided.append(f"{name} fallback: {v.detail}")
        except Exception as e:  # the unit is not decided
            res.undecided.append(f"{name} fallback: {type(e).__name__}")


def fallback_one(L, name, fexpr, host):
    xs = (("s", "op1"), ("s", "op2"))
    ev = L.eval()
    vn = ev.new_vn()
    fr = V.Frame(vn, host, {**NPENV, "op1": xs[0], "op2": xs[1]}, None)
    impl = fr.call(fr.ev(fexpr), xs, ())

    def accept(al, leaf):
        return leaf[0] == "ext" and leaf[1].endswith("NotImplemented")

    return compare(impl, [("bin", OPS[name], xs[0], xs[1])], lambda asg: L.alg(asg), accept=accept)


DUNDER = {"__add__": ("add", 0), "__radd__": ("add", 1), "__sub__": ("sub", 0), "__rsub__": ("sub", 1), "__mul__": ("mul", 0),
          "__rmul__": ("mul", 1), "__matmul__": ("matmul", 0), "__rmatmul__": ("matmul", 1)}


def check_dunders(L, res):
    fns = public_ops(L)
    byq = {f.qual: n for n, f in fns.items()}
    for m, (name, swap) in DUNDER.items():
        f = L.base.find(m)
        if f is None:
            continue
        ev = L.eval()
        ev.opaque |= set(byq)
        try:
            names = [a.arg for a in f.node.args.args][1:]
            if len(names) != 1:
                continue
            O = ("s", "other")
            vn = ev.new_vn()
            impl, _ = ev.method(L.base, m, {names[0]: O}, vn=vn, state={})

            full = ("slice", V.NONE, V.NONE, V.NONE)

            def go(n):
                if n and n[0] == "pcall" and len(n) == 4:
                    q = next((byq[k] for k in byq if k == n[1] or k.endswith("." + n[1])), None)
                    d = dict(n[3])
                    if q is not None and len(d) == 2:
                        a, b = (d[k] for k in [x.arg for x in fns[q].node.args.args])
                        return ("bin", OPS[q], a, b)
                if n and n[0] == "idx" and n[2] in (("tup", (full, V.NONE)), ("tup", (full, ("c", 0)))):
                    return n[1]
                if n and n[0] == "call" and n[1] == ("T", SELF) and dict(n[3]).get("axis") == ("c", -1) and len(n[2]) == 1:
                    return ("bin", "@", n[2][0], SELF)
                return n
            impl = V.subst(impl, go)
            a, b = (O, SELF) if swap else (SELF, O)
            v = compare(impl, [("bin", OPS[name], a, b)], lambda asg: L.alg({}))
        except Exception as e:  # the unit is not decided
            res.undecided.append(f"{m}: {type(e).__name__}")
            continue
        res.count("binary_obligations")
        if v.kind == "equal":
            res.count("binary_decided")
        elif v.kind == "differs":
            res.add("operator", m, f"the result {v.detail}", **loc(f))
        else:
            res.undecided.append(f"{m}: {v.detail}")


def check_flatten(L, res):
    """Nested sums and products are flattened into the operands, each once and (for products) in order."""
    for cname, attr in (("SumLinearOperator", "summands"), ("ProductLinearOperator", "factors")):
        cls = L.classes.get(cname)
        if cls is None:
            continue
        try:
            ev = L.eval()
            vn = ev.new_vn()
            t, _ = ev.method(cls, attr, {}, vn=vn, state=ev.state(cls, vn))
            init = cls.find("__init__")
            src = ("s", "*" + init.node.args.vararg.arg)
            verdict = flatten_verdict(L, cls, attr, t, src)
        except Exception as e:  # the unit is not decided
            res.undecided.append(f"{cname} operands: {type(e).__name__}")
            continue
        res.count("obligations")
        if verdict is True:
            res.count("decided")
        elif verdict is None:
            res.undecided.append(f"{cname} operands: not understood")
        else:
            res.add("operands", cname, verdict, **loc(cls.find(attr) or init))


def flatten_verdict(L, cls, attr, t, src):
    ordered = cls.name.startswith("Product")
    if t == src:
        return True
    if t[0] != "ifold" or t[1] not in (("list", ()), ("tup", ())):
        return None
    seq = t[2]
    if seq != src:
        if seq[0] == "rev" and seq[1] == src:
            if ordered:
                return "the operands are taken in reverse order"
        else:
            return None
    lv = t[4]
    bv, acc = ("bv", lv), ("acc", lv)
    out = []

    def leaves(x, conds):
        if x[0] == "phi":
            leaves(x[2], conds + [(x[1], True)])
            leaves(x[3], conds + [(x[1], False)])
        else:
            out.append((x, conds))
    leaves(t[3], [])
    for x, conds in out:
        if x == acc:
            return "an operand is dropped when " + " and ".join(("" if v else "not ") + c[0] for c, v in conds)
        if x[0] == "mut" and x[2] == acc and len(x[3]) == 1:
            a = x[3][0]
            if x[1] == "append":
                if a == bv:
                    continue
                if V.contains(a, lambda n: n == bv):
                    return "an operand is replaced by another expression"
                return None
            if x[1] == "extend":
                r = a[1] if a[0] == "rev" else a
                if not (r[0] == "at" and r[1] == bv and r[2].strip("_") == attr):
                    return None
                if a[0] == "rev" and ordered:
                    return "nested factors are taken in reverse order"
                cl = [c for c, v in conds if v and c[0] == "isinstance" and c[1] == bv]
                if not cl:
                    return None
                if not any(cls.qual in q for c in cl for q in c[2]):
                    return None
                continue
        return None
    return True


BASEREF = {"T": "D.T", "inv": "D.inv()", "symmetrize": "D.symmetrize()", "_symmetrize": "0.5 * (D + D.T)",
           "solve": "D.inv() @ arg", "todense": "D", "_todense": "D", "_solve": "D.inv() @ arg", "trace": "D.trace()",
           "diagonal": "D.diagonal()", "det": "D.det()", "logabsdet": "D.logabsdet()", "rank": "D.rank()",
           "cholesky": "D.cholesky(arg)", "_cholesky": "D.cholesky(arg)", "_trace": "D.trace()", "_diagonal": "D.diagonal()"}


def check_base(L, res):
    """Public methods of the base class: they hand the question to the class unchanged."""
    for m, ref in BASEREF.items():
        f = L.base.find(m)
        if f is None:
            continue
        try:
            ev = L.eval()
            ev.opaque -= {L.base.qual + "." + m}
            vn = ev.new_vn()
            names = f.params()
            args = {n: ("s", "arg:" + n) for n in names}
            impl, _ = ev.method(L.base, m, args, vn=vn, state={})
            D = ("s", "D")
            refs = [ev.text(ref, f, None, vn, {**NPENV, "D": SELF, "arg": ("s", "arg:" + names[0]) if names else V.NONE})]

            full = ("slice", V.NONE, V.NONE, V.NONE)
            impl = V.subst(impl, lambda n: n[1] if n and n[0] == "idx" and n[2] in (
                ("tup", (full, V.NONE)), ("tup", (full, ("c", 0)))) else n)

            def factory(asg):
                al = L.alg(asg)
                al.asg = asg
                sym = any(v for k, v in asg.items() if k[0] == "at" and k[1] == SELF and k[2].strip("_") == "is_symmetric")
                al.sym_fn = lambda a: a == SELF and bool(sym)
                al.scalar_fn = is_scalar
                return al

            def accept(al, leaf):
                if m == "symmetrize" and leaf == SELF:
                    return al.sym_fn(SELF)
                flip = leaf[0] == "T"
                c = leaf[1] if flip else leaf
                if not (c[0] == "at" and c[1] == SELF and "cache" in c[2]):
                    return False
                if not m.endswith("cholesky"):
                    return not flip
                flag = {k[2].strip("_"): v for k, v in al.asg.items() if k[0] == "at" and k[1] == c}
                lw, up = flag.get("is_lower_triangular"), flag.get("is_upper_triangular")
                want = next((v for k, v in al.asg.items() if k[0] == "s" and k[1].startswith("arg:")), None)
                as_lower = lw is True or up is False
                as_upper = up is True or lw is False
                lower_ok, upper_ok = (as_upper, as_lower) if flip else (as_lower, as_upper)
                return (lower_ok and upper_ok) if want is None else (lower_ok if want else upper_ok)

            v = compare(impl, refs, factory, max_conds=9, accept=accept)
        except Exception as e:  # the unit is not decided
            res.undecided.append(f"LinearOperator.{m}: {type(e).__name__}")
            continue
        res.count("obligations")
        if v.kind == "equal":
            res.count("decided")
        elif v.kind == "differs":
            res.add("value", f"LinearOperator.{m}", f"the result {v.detail}", **loc(f))
        else:
            res.undecided.append(f"LinearOperator.{m}: {v.detail}")


def check(ctx, res):
    L = Linops(ctx.prog)
    check_base(L, res)
    check_flatten(L, res)
    check_protocol(L, res)
    check_binary(L, res)
    check_dunders(L, res)
    try:
        check_stacks(L, res)
    except Exception as e:  # pragma: no cover - unknown construct
        res.undecided.append(f"stacks: {type(e).__name__}")


def check_stacks(L, res):
    """A product accepts stacks of matrices: axes of the operand are exchanged counted from the end."""
    todo = []
    for c in L.base.all_subclasses():
        f = c.methods.get("_matmul")
        if f is not None:
            todo.append((f, [x for x in f.params() if x != f.self_name][:1]))
    done = set()
    while todo:
        f, operands = todo.pop()
        if f in done or f.decorators or not operands:
            continue
        done.add(f)
        res.count("product_implementations")
        t = set(operands)
        uses = lambda e: any(isinstance(n, ast.Name) and n.id in t for n in ast.walk(e))
        for _ in range(3):
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and uses(n.value):
                    t |= {x.id for g in n.targets for x in ast.walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = ast.unparse(n.func)
            if name.endswith("swapaxes"):
                axes = n.args[-2:]
                whole = n.args[0] if len(n.args) == 3 else n.func.value if isinstance(n.func, ast.Attribute) else None
                if whole is None or not uses(whole) or len(axes) != 2:
                    continue
                try:
                    a, b = (ast.literal_eval(x) for x in axes)
                except ValueError:
                    continue
                if isinstance(a, int) and isinstance(b, int) and (a < 0) != (b < 0):
                    res.add("stack-axes", f"{f.qual}|{a},{b}", f"`{ast.unparse(n)}` exchanges an axis counted from the front with one counted from the end: right for a single matrix only, wrong for stacks of matrices",
                            file=f.file, line=n.lineno)
            elif isinstance(n.func, ast.Name):
                q = L.p.resolve_expr(n.func, f.module, f)
                g = next((x for x in q if hasattr(x, "params")), None) if isinstance(q, tuple) else None
                if g is not None and g.module.name.startswith("probnum.linops"):
                    ps = g.params()
                    hit = [ps[i] for i, a in enumerate(n.args) if i < len(ps) and uses(a)] + [k.arg for k in n.keywords if k.arg in ps and uses(k.value)]
                    todo.append((g, hit))
