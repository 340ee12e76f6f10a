"""C12: matrix properties an operator states are true."""
from __future__ import annotations

import ast
import itertools
import operator as _op
from fractions import Fraction

from ..common import loc, public_class

LEVEL = "abstract-interpretation"
EXPLANATION = (
    "Constructors of composite operators, transposition, inversion and symmetrisation are interpreted over the finite domain of stated "
    "properties (true, false, open) of their operands; every stated property of the result is compared with the properties that the "
    "denoted matrix expression can have for operands with those properties, enumerated from small matrices as counterexamples."
)
ASSUMPTIONS = [
    "Counterexamples are looked for among 2x2 matrices with entries -1, 0 and 2 (and 1x2, 2x1 blocks); a property that fails only for larger ones is not seen.",
    "Operands state only properties they have.",
    "Statements under conditions that do not depend on stated properties, shapes or signs are left undecided.",
]
FLAGS = ("is_symmetric", "is_lower_triangular", "is_upper_triangular", "is_positive_definite")
LO = "probnum.linops."


class Top:
    def __repr__(self):
        return "?"


TOP = Top()


class Raised(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Jump(Exception):
    pass


class GiveUp(Exception):
    pass


class Op:
    def __init__(self, flags=None, shape=(2, 2), cls=None, name="operand"):
        self.flags = {k: None for k in FLAGS} if flags is None else dict(zip(FLAGS, flags))
        self.shape, self.cls, self.name, self.attrs, self.unsure = shape, cls, name, {}, set()


class Lam:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Fn:
    def __init__(self, f, self_=None, frame=None):
        self.f, self.self_, self.frame = f, self_, frame


class Cls:
    def __init__(self, c):
        self.c = c


class Ext:
    def __init__(self, name):
        self.name = name


BIN = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Mod: _op.mod, ast.FloorDiv: _op.floordiv, ast.Pow: _op.pow}
CMP = {ast.Eq: _op.eq, ast.NotEq: _op.ne, ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}


def known(*vs):
    return not any(v is TOP or isinstance(v, (tuple, list)) and not known(*v) for v in vs)


def plain(v):
    return v is None or isinstance(v, (bool, int, float, str, Fraction)) or isinstance(v, (tuple, list)) and all(plain(x) for x in v)


class Interp:
    """One run of a constructor or method along one path."""

    def __init__(self, prog, root, fresh, path):
        self.p, self.root, self.fresh = prog, root, fresh
        self.path, self.taken, self.taint, self.steps = list(path), [], 0, 0
        self.known = None

    def fork(self):
        i = len(self.taken)
        v = self.path[i] if i < len(self.path) else True
        self.taken.append(v)
        self.taint += 1
        if len(self.taken) > 8:
            raise GiveUp
        return v

    def truth(self, v):
        if v is TOP:
            return None
        if isinstance(v, (Op, Lam, Fn, Cls, Ext)):
            return True
        return bool(v)

    # ---- functions
    def call(self, f, self_, args, kwargs, frame=None):
        node = f.node
        self.steps += 1
        if self.steps > 400:
            raise GiveUp
        a = node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        given = ([self_] if self_ is not None else []) + list(args)
        if any(isinstance(x, Top) and False for x in given):
            raise GiveUp
        for n, v in zip(pos, given):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(given[len(pos):])
        rest = {}
        for k, v in kwargs.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = TOP
        fr = Frame(self, f, env, frame)
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = fr.ev(d)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in env and d is not None:
                env[n.arg] = fr.ev(d)
        for n in pos:
            env.setdefault(n, TOP)
        if isinstance(node, ast.Lambda):
            return fr.ev(node.body)
        try:
            fr.block(node.body)
        except Return as r:
            return r.v
        return None


class Frame:
    def __init__(self, it, f, env, outer=None):
        self.it, self.f, self.env, self.outer = it, f, env, outer

    # ---- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Return):
            raise Return(self.ev(s.value) if s.value is not None else None)
        if isinstance(s, ast.Raise):
            raise Raised
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.store(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            ld = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
            self.store(s.target, self.ev(ast.BinOp(left=ld, op=s.op, right=s.value)))
        elif isinstance(s, ast.If):
            self.branch(s)
        elif isinstance(s, ast.Assert):
            if self.it.truth(self.ev(s.test)) is False:
                raise Raised
        elif isinstance(s, ast.For):
            seq = self.ev(s.iter)
            if not isinstance(seq, (tuple, list)):
                self.havoc(s)
                return
            for x in seq:
                self.store(s.target, x)
                try:
                    self.block(s.body)
                except Jump as j:
                    if j.args[0] == "break":
                        return
            self.block(s.orelse)
        elif isinstance(s, ast.Break):
            raise Jump("break")
        elif isinstance(s, ast.Continue):
            raise Jump("continue")
        elif isinstance(s, ast.FunctionDef):
            fi = next((x for x in self.f.nested if x.node is s), None)
            self.env[s.name] = Fn(fi, None, self) if fi is not None else TOP
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body)
            except Raised:
                self.it.taint += 1
                if s.handlers:
                    self.block(s.handlers[0].body)
                else:
                    raise
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            self.block(s.body)
        elif isinstance(s, ast.Delete):
            return
        else:
            self.havoc(s)

    def havoc(self, s):
        self.it.taint += 1
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.env[n.id] = TOP
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                b = self.ev(n.value)
                if isinstance(b, Op):
                    self.setattr(b, n.attr, TOP)

    def branch(self, s):
        c = self.it.truth(self.ev(s.test))
        if c is None:
            def ends(b):
                return bool(b) and isinstance(b[-1], ast.Raise)
            if ends(s.body):
                c = False
            elif ends(s.orelse):
                c = True
            else:
                c = self.it.fork()
        self.block(s.body if c else s.orelse)

    def store(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (tuple, list)) and len(v) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v):
                    self.store(e, x)
            else:
                for e in t.elts:
                    self.store(e.value if isinstance(e, ast.Starred) else e, TOP)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if isinstance(b, Op):
                self.setattr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            if isinstance(b, list) and isinstance(k, int) and -len(b) <= k < len(b):
                b[k] = v

    def setattr(self, b, a, v):
        raw = a.startswith("_is_") and a[1:] in FLAGS
        if raw:
            a = a[1:]
        if a in FLAGS:
            if v is TOP or v is not None and not isinstance(v, bool):
                b.flags[a] = TOP
                return
            if not raw and b.flags[a] is not TOP:
                if b.flags[a] == v:
                    return
                if b.flags[a] is not None or v is None:
                    raise Raised
                if v and (a == "is_symmetric" and b.shape[0] != b.shape[1] or a == "is_positive_definite" and not b.flags["is_symmetric"]):
                    raise Raised
            b.flags[a] = v
            if self.it.taint:
                b.unsure.add(a)
            else:
                b.unsure.discard(a)
            return
        b.attrs[a] = v

    # ---- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        return m(e) if m is not None else TOP

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        fr = self
        while fr is not None:
            if e.id in fr.env:
                return fr.env[e.id]
            fr = fr.outer
        r = self.it.p.resolve_expr(e, self.f.module, self.f) if self.f.module is not None else None
        return self.entity(r, e.id)

    def entity(self, r, name):
        if r is None:
            return Ext(name)
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "ext":
            return Ext(str(r[1]))
        return Ext(name)

    def e_Attribute(self, e):
        if not (isinstance(e.value, ast.Name) and self.bound(e.value.id)):
            try:
                r = self.it.p.resolve_expr(e, self.f.module, self.f)
            except Exception:
                r = None
            if r is not None and r[0] in ("class", "func"):
                return self.entity(r, e.attr)
        b = self.ev(e.value)
        return self.getattr(b, e.attr)

    def bound(self, name):
        fr = self
        while fr is not None:
            if name in fr.env:
                return True
            fr = fr.outer
        return False

    def getattr(self, b, a):
        if isinstance(b, Op):
            if a in FLAGS:
                return b.flags[a]
            if a.startswith("_is_") and a[1:] in FLAGS:
                return b.flags[a[1:]]
            if a in b.attrs:
                return b.attrs[a]
            if a == "shape":
                return b.shape
            if a == "ndim":
                return 2
            if a == "is_square":
                return b.shape[0] == b.shape[1]
            if a in ("__class__",):
                return Cls(b.cls) if b.cls is not None else TOP
            if a == "T" and b.name == "operand":
                f = b.flags
                return Op((f[FLAGS[0]], f[FLAGS[2]], f[FLAGS[1]], f[FLAGS[3]]), b.shape[::-1], b.cls)
            if a in self.it.fresh and b.name == "self":
                return Ext("fresh")
            if b.cls is not None:
                m = b.cls.find(b.cls.mangle(a)) or b.cls.find(a)
                if self.f.cls is not None and a.startswith("__") and not a.endswith("__"):
                    m = self.f.cls.methods.get(self.f.cls.mangle(a), m)
                if m is not None:
                    if m.is_property:
                        if b.name == "operand":
                            return TOP
                        return self.it.call(m, b, (), {})
                    return Fn(m, None if m.is_static else b)
            return TOP
        if isinstance(b, Cls):
            m = b.c.find(a)
            return Fn(m, None) if m is not None else TOP
        if isinstance(b, Ext):
            return Ext(b.name + "." + a)
        if isinstance(b, list) and a in ("append", "extend", "insert"):
            return ("@list", b, a)
        return TOP

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if not isinstance(v, (tuple, list)):
                    return TOP
                out += list(v)
            else:
                out.append(self.ev(x))
        return tuple(out)

    def e_List(self, e):
        v = self.e_Tuple(e)
        return v if v is TOP else list(v)

    def e_Lambda(self, e):
        return Lam(e, self)

    def e_JoinedStr(self, e):
        out = ""
        for v in e.values:
            x = v.value if isinstance(v, ast.Constant) else self.ev(v.value)
            if not isinstance(x, (str, int)):
                return TOP
            out += str(x)
        return out

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store(e.target, v)
        return v

    def e_IfExp(self, e):
        c = self.it.truth(self.ev(e.test))
        if c is None:
            c = self.it.fork()
        return self.ev(e.body if c else e.orelse)

    def e_BoolOp(self, e):
        v = None
        unknown = False
        for x in e.values:
            v = self.ev(x)
            t = self.it.truth(v)
            if t is None:
                unknown = True
                continue
            if t is isinstance(e.op, ast.Or):
                return v
        return TOP if unknown else v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.it.truth(v)
            return TOP if t is None else not t
        if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
            return -v
        return TOP

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if known(a, b) and plain(a) and plain(b):
            if isinstance(e.op, (ast.BitAnd, ast.BitOr)) and isinstance(a, bool) and isinstance(b, bool):
                return a & b if isinstance(e.op, ast.BitAnd) else a | b
            try:
                return BIN[type(e.op)](a, b)
            except Exception:
                return TOP
        if isinstance(e.op, ast.Add) and isinstance(a, (tuple, list)) and type(a) is type(b):
            return a + b
        return TOP

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = True
        for o, c in zip(e.ops, e.comparators):
            r = self.ev(c)
            v = self.compare(o, left, r)
            if v is TOP:
                out = TOP
            elif not v:
                return False
            left = r
        return out

    def compare(self, o, a, b):
        if isinstance(o, (ast.Is, ast.IsNot)):
            if a is TOP or b is TOP:
                return TOP
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, Op) and isinstance(b, Op):
                r = a is b
            else:
                return TOP
            return r if isinstance(o, ast.Is) else not r
        if isinstance(o, (ast.In, ast.NotIn)):
            if isinstance(b, (tuple, list)) and plain(a) and plain(b):
                return (a in b) == isinstance(o, ast.In)
            return TOP
        if known(a, b) and plain(a) and plain(b):
            try:
                return CMP[type(o)](a, b)
            except Exception:
                return TOP
        return TOP

    def e_Subscript(self, e):
        b = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            k = [None if x is None else self.ev(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if isinstance(b, (tuple, list)) and all(x is None or isinstance(x, int) for x in k):
                return b[slice(*k)]
            return TOP
        k = self.ev(e.slice)
        if isinstance(b, (tuple, list)) and isinstance(k, int) and -len(b) <= k < len(b):
            return b[k]
        return TOP

    def comp(self, e):
        out = []

        def go(i, fr):
            if i == len(e.generators):
                out.append(fr.ev(e.elt))
                return
            g = e.generators[i]
            seq = fr.ev(g.iter)
            if not isinstance(seq, (tuple, list)):
                raise LookupError
            for x in seq:
                fr.store(g.target, x)
                keep = [fr.it.truth(fr.ev(c)) for c in g.ifs]
                if None in keep:
                    raise LookupError
                if all(keep):
                    go(i + 1, fr)
        try:
            go(0, Frame(self.it, self.f, {}, self))
        except LookupError:
            return TOP
        return out

    e_ListComp = e_GeneratorExp = comp

    def e_Call(self, e):
        # super()
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            fr = self
            while fr is not None and not (fr.f.cls is not None and fr.f.self_name):
                fr = fr.outer
            if fr is None:
                return TOP
            me = fr.env.get(fr.f.self_name)
            if not isinstance(me, Op) or me.cls is None:
                return TOP
            mro = me.cls.mro()
            after = mro[mro.index(fr.f.cls) + 1:] if fr.f.cls in mro else []
            m = next((k.methods[f.attr] for k in after if f.attr in k.methods), None)
            args, kwargs = self.args(e)
            return self.invoke(Fn(m, me), args, kwargs) if m is not None else None
        if isinstance(f, ast.Name) and not self.bound(f.id):
            r = self.builtin(f.id, e)
            if r is not NotImplemented:
                return r
        fn = self.ev(f)
        args, kwargs = self.args(e)
        return self.invoke(fn, args, kwargs)

    def args(self, e):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                args += list(v) if isinstance(v, (tuple, list)) else [TOP]
            else:
                args.append(self.ev(x))
        return args, {k.arg: self.ev(k.value) for k in e.keywords if k.arg is not None}

    def builtin(self, n, e):
        if n in ("all", "any") and len(e.args) == 1:
            v = self.ev(e.args[0])
            if not isinstance(v, (tuple, list)):
                return TOP
            ts = [self.it.truth(x) for x in v]
            hit = n == "any"
            if hit in ts:
                return hit
            return TOP if None in ts else not hit
        if n == "isinstance" and len(e.args) == 2:
            v, c = self.ev(e.args[0]), self.ev(e.args[1])
            cs = c if isinstance(c, tuple) else (c,)
            if isinstance(v, Op):
                if any(isinstance(x, Cls) and v.cls is not None and (v.cls is x.c or v.cls.is_subclass_of(x.c)) for x in cs):
                    return True
                return False
            if isinstance(v, bool):
                return any(isinstance(x, Ext) and x.name == "bool" for x in cs) or TOP
            return TOP
        if n in ("tuple", "list", "len", "bool", "abs", "reversed", "zip", "enumerate", "sum", "range", "set", "int", "float", "max", "min"):
            vs = [self.ev(x) for x in e.args]
            if n == "bool" and vs:
                t = self.it.truth(vs[0])
                return TOP if t is None else t
            if not vs:
                return [] if n == "list" else () if n == "tuple" else TOP
            if n in ("tuple", "list", "len", "reversed", "enumerate"):
                if not isinstance(vs[0], (tuple, list)):
                    return TOP
                return {"tuple": tuple, "list": list, "len": len, "reversed": lambda x: tuple(reversed(x)), "enumerate": lambda x: tuple(enumerate(x))}[n](vs[0])
            if n == "zip":
                return tuple(zip(*vs)) if all(isinstance(x, (tuple, list)) for x in vs) else TOP
            if n == "set":
                return list(vs[0]) if isinstance(vs[0], (tuple, list)) and False else TOP
            if known(*vs) and all(plain(x) for x in vs):
                try:
                    r = {"abs": abs, "sum": sum, "range": lambda *a: tuple(range(*a)), "int": int, "float": float, "max": max, "min": min}[n](*vs)
                    return r
                except Exception:
                    return TOP
            return TOP
        if n in ("getattr", "setattr"):
            vs = [self.ev(x) for x in e.args]
            if len(vs) >= 2 and isinstance(vs[0], Op):
                if not isinstance(vs[1], str):
                    if n == "setattr":
                        for k in FLAGS:
                            vs[0].flags[k] = TOP
                    return TOP
                if n == "getattr":
                    return self.getattr(vs[0], vs[1])
                self.setattr(vs[0], vs[1], vs[2] if len(vs) > 2 else TOP)
                return None
            return TOP
        if n == "map":
            vs = [self.ev(x) for x in e.args]
            if len(vs) == 2 and isinstance(vs[1], (tuple, list)):
                return tuple(self.invoke(vs[0], [x], {}) for x in vs[1])
            return TOP
        if n == "type" and len(e.args) == 1:
            v = self.ev(e.args[0])
            return Cls(v.cls) if isinstance(v, Op) and v.cls is not None else TOP
        return NotImplemented

    def invoke(self, fn, args, kwargs):
        it = self.it
        if isinstance(fn, tuple) and fn and fn[0] == "@list":
            if fn[2] == "append":
                fn[1].append(args[0])
            elif fn[2] == "extend" and isinstance(args[0], (tuple, list)):
                fn[1].extend(args[0])
            else:
                raise GiveUp
            return None
        if isinstance(fn, Lam):
            return it.call(_L(fn.node, fn.frame.f), None, args, kwargs, fn.frame)
        if isinstance(fn, Cls):
            if fn.c.is_subclass_of(it.root) or fn.c is it.root:
                if fn.c.name == "Identity":
                    return Op((True, True, True, True), (2, 2), fn.c, "made")
                o = Op(None, (2, 2), fn.c, "made")
                for k in FLAGS:
                    o.flags[k] = TOP
                return o
            return TOP
        if isinstance(fn, Fn):
            name = fn.f.name
            if name == "aslinop" and args:
                return args[0]
            if name == "as_shape" and args and isinstance(args[0], (int, tuple, list)):
                return (args[0],) if isinstance(args[0], int) else tuple(args[0])
            if name in ("as_numpy_scalar",):
                return args[0] if args else TOP
            if name == "_set_property" and len(args) == 2 and isinstance(fn.self_, Op) and isinstance(args[0], str):
                self.setattr(fn.self_, "is_" + args[0], args[1])
                return None
            if name == "__init__" and fn.f.cls is not None and fn.f.cls.name in ("LinearOperator", "LambdaLinearOperator"):
                me = fn.self_ if fn.self_ is not None else args[0]
                if isinstance(me, Op):
                    me.flags = {k: None for k in FLAGS}
                    me.unsure = set()
                    if me.shape[0] != me.shape[1]:
                        me.flags["is_symmetric"] = False
                return None
            if isinstance(fn.self_, Op) and fn.self_.name == "operand":
                return TOP
            touches = any(isinstance(x, Op) for x in list(args) + list(kwargs.values()) + [fn.self_]) or any(isinstance(x, (tuple, list)) and any(isinstance(y, Op) for y in x) for x in args)
            if touches or fn.frame is not None or all(plain(x) for x in args):
                return it.call(fn.f, fn.self_, args, kwargs, fn.frame)
            return TOP
        if isinstance(fn, Ext):
            n = fn.name.split(".")[-1]
            if n == "fresh":
                return Op(it.known, (2, 2), it.root, "made")
            if n == "ndim" and args and isinstance(args[0], (int, float, Fraction)):
                return 0
            if n in ("asarray", "array", "float64", "double", "bool_") and args and isinstance(args[0], (int, float)):
                return args[0]
            if n in ("all", "any") and args and isinstance(args[0], bool):
                return args[0]
            if n == "sign" and args and isinstance(args[0], (int, float)):
                return (args[0] > 0) - (args[0] < 0)
            if n == "isscalar" and args and isinstance(args[0], (int, float)):
                return True
            if n == "isclose" and len(args) == 2 and all(isinstance(x, (int, float)) for x in args):
                return args[0] == args[1]
        return TOP


class _L:
    """A lambda seen as a function."""

    def __init__(self, node, f):
        self.node, self.module, self.cls, self.nested, self.name, self.self_name = node, f.module, f.cls, [], "<lambda>", None
        self.parent, self.local_imports, self.qual = f, {}, f.qual + ".<lambda>"

    def __getattr__(self, a):
        return getattr(self.parent, a)


# ------------------------------------------------------------------ matrices
def det(m):
    n = len(m)
    if n == 0:
        return 1
    m = [[Fraction(x) for x in r] for r in m]
    d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            q = m[r][i] / m[i][i]
            if q:
                m[r] = [a - q * b for a, b in zip(m[r], m[i])]
    return d


def facts(m):
    n, k = len(m), len(m[0])
    sym = n == k and all(m[i][j] == m[j][i] for i in range(n) for j in range(i))
    low = all(m[i][j] == 0 for i in range(n) for j in range(i + 1, k))
    up = all(m[i][j] == 0 for i in range(n) for j in range(min(i, k)))
    pd = sym and all(det([r[:i] for r in m[:i]]) > 0 for i in range(1, n + 1))
    return (sym, low, up, pd)


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def add(*ms):
    return [[sum(x) for x in zip(*rs)] for rs in zip(*ms)]


def scale(c, a):
    return [[c * x for x in r] for r in a]


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def blocks(*bs):
    k = sum(len(b[0]) for b in bs)
    out, o = [], 0
    for b in bs:
        for r in b:
            out.append([0] * o + list(r) + [0] * (k - o - len(r)))
        o += len(b[0])
    return out


def inv(a):
    d = det(a)
    if d == 0:
        return None
    return [[Fraction(a[1][1]) / d, -Fraction(a[0][1]) / d], [-Fraction(a[1][0]) / d, Fraction(a[0][0]) / d]]


P4 = [[Fraction(1), 0, 0, 0], [0, Fraction(1, 2), Fraction(1, 2), 0], [0, Fraction(1, 2), Fraction(1, 2), 0], [0, 0, 0, Fraction(1)]]


def symkron(a, b):
    return mm(P4, mm(kron(a, b), P4))


_pool = {}


def pool(shape):
    """Representatives of small matrices by their facts."""
    if shape not in _pool:
        out = {}
        for xs in itertools.product((-1, 0, 2), repeat=shape[0] * shape[1]):
            m = [list(xs[i * shape[1]:(i + 1) * shape[1]]) for i in range(shape[0])]
            out.setdefault(facts(m), []).append(m)
        # a few definite matrices with a negative off-diagonal entry
        if shape == (2, 2):
            for m in ([[2, 1], [1, 2]], [[2, -1], [-1, 1]], [[3, 1], [1, 1]], [[1, 0], [0, 3]]):
                out.setdefault(facts(m), []).append(m)
        _pool[shape] = out
    return _pool[shape]


def stated(shape):
    """All consistent statements about an operand."""
    out = []
    for fl in itertools.product((None, True, False), repeat=4):
        if shape[0] != shape[1] and (fl[0] is not False or fl[3] is True):
            continue
        if fl[3] is True and fl[0] is not True:
            continue
        if any(agrees(fl, t) for t in pool(shape)):
            out.append(fl)
    return out


def agrees(fl, t):
    return all(a is None or a == b for a, b in zip(fl, t))


_rel = {}


def results(key, denote, ts, shapes):
    """Facts the denoted matrix can have for operands with facts ts."""
    k = (key, ts)
    if k not in _rel:
        out = {}
        few = (lambda v: v) if len(ts) < 3 else (lambda v: v[:: max(1, len(v) // 4)][:5])
        for ms in itertools.product(*(few(pool(s)[t]) for s, t in zip(shapes, ts))):
            r = denote(*ms)
            if r is not None:
                out.setdefault(facts(r), ms)
        _rel[k] = out
    return _rel[k]


WORD = dict(zip(FLAGS, ("symmetric", "lower triangular", "upper triangular", "positive definite")))


class Check:
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res
        self.root = public_class(self.p, LO + "LinearOperator")
        self.seen = set()
        if self.root is None:
            raise RuntimeError("probnum.linops.LinearOperator not found")

    def cls(self, name):
        r = public_class(self.p, LO + name)
        if r is not None:
            return r
        cs = [c for c in self.root.all_subclasses() if c.name.lstrip("_") == name]
        return cs[0] if len(cs) == 1 else None

    def paths(self, run):
        todo, n = [()], 0
        while todo and n < 64:
            path = todo.pop()
            it = Interp(self.p, self.root, run.fresh, path)
            n += 1
            try:
                r = run(it)
            except (Raised, Return, Jump):
                r = None
            for i in range(len(path), len(it.taken)):
                todo.append(tuple(it.taken[:i]) + (not it.taken[i],))
            if isinstance(r, Op):
                yield r

    def judge(self, label, f, key, denote, operands, run, shapes):
        """operands: statements about the operands; run(it) -> resulting Op."""
        res = self.res
        for r in self.paths(run):
            for i, k in enumerate(FLAGS):
                v = r.flags[k]
                if v is TOP or k in r.unsure:
                    res.count("statements left undecided")
                    continue
                if v is None:
                    continue
                res.count("statements of results judged")
                if (label, k, v) in self.seen:
                    continue
                for ts in itertools.product(*(pool(s) for s in shapes)):
                    if not all(agrees(fl, t) for fl, t in zip(operands, ts)):
                        continue
                    bad = [(t, ms) for t, ms in results(key, denote, ts, shapes).items() if t[i] != v]
                    if bad:
                        self.seen.add((label, k, v))
                        ms = bad[0][1]
                        what = ", ".join(str([list(map(str, x)) for x in m]).replace("'", "") for m in ms)
                        res.add("stated-property", f"{label}: {WORD[k]}", f"{label} states that it is {'' if v else 'not '}{WORD[k]} "
                                f"for operands with matching statements, but for {what} it is {'not' if v else 'so'}", **loc(f))
                        break

    def construct(self, name, label, denote, shapes, make, pick=None, key=None):
        c = self.cls(name)
        if c is None:
            self.res.undecided.append(f"{label}: class not found")
            return
        f = c.find("__init__")
        total = shapes_of(denote, shapes)
        for fls in itertools.product(*(stated(s) for s in shapes)):
            if pick is not None and not pick(fls):
                continue

            def run(it):
                ops = [Op(fl, s, self.root) for fl, s in zip(fls, shapes)]
                me = Op(None, total, c, "self")
                args, kwargs = make(ops)
                it.call(f, me, args, kwargs)
                return me
            run.fresh = ()
            self.res.count("operand statements enumerated")
            self.judge(label, f, key or label, denote, fls, run, shapes)

    def method(self, name, label, denote, fresh):
        f = self.root.find(name)
        if f is None:
            self.res.undecided.append(f"{label}: not found")
            return
        for fl in stated((2, 2)):
            def run(it):
                me = Op(fl, (2, 2), self.root, "self")
                return it.call(f, me, (), {})
            run.fresh = fresh
            self.res.count("operand statements enumerated")
            self.judge(label, f, label, denote, (fl,), run, ((2, 2),))
            # the derived operator may already state what is true of it
            for t in pool((2, 2)):
                if not agrees(fl, t) or (label, "fails") in self.seen:
                    continue
                for u in results(label, denote, (t,), ((2, 2),)):
                    it = Interp(self.p, self.root, fresh, ())
                    it.known = u
                    self.res.count("derived operators with known properties")
                    try:
                        run(it)
                    except Raised:
                        if not it.taint:
                            self.seen.add((label, "fails"))
                            says = ", ".join(f"{'' if v else 'not '}{WORD[k]}" for k, v in zip(FLAGS, fl) if v is not None) or "nothing"
                            self.res.add("stated-property", f"{label}: raises", f"{label} of an operator that states {says} raises when the derived operator "
                                         f"already states its own properties", **loc(f))
                            break
                    except (Return, Jump):
                        pass

    def unit(self, label, fn):
        try:
            fn()
        except GiveUp:
            self.res.undecided.append(f"{label}: too many paths")
        except Exception as e:
            import os
            if os.environ.get("PNSA_TRACE"):
                raise
            self.res.undecided.append(f"{label}: {type(e).__name__}: {e}")


def shapes_of(denote, shapes):
    m = None
    for ms in itertools.product(*(sum(pool(s).values(), []) for s in shapes)):
        m = denote(*ms)
        if m is not None:
            break
    return (len(m), len(m[0]))


def check(ctx, res):
    k = Check(ctx, res)
    sq = (2, 2)

    def C(name, label, denote, shapes, make, pick=None):
        k.unit(label, lambda: k.construct(name, label, denote, shapes, make, pick))
    for s in (3, -2, 0, 1, -1):
        C("ScaledLinearOperator", f"{s} times an operator", lambda a, s=s: scale(s, a), (sq,), lambda o, s=s: ([o[0], s], {}))
    C("NegatedLinearOperator", "the negated operator", lambda a: scale(-1, a), (sq,), lambda o: ([o[0]], {}))
    C("SumLinearOperator", "the sum of two operators", lambda a, b: add(a, b), (sq, sq), lambda o: (o, {}))
    few = lambda fls: all(x in (None, True) for fl in fls for x in fl)
    C("SumLinearOperator", "the sum of three operators", lambda a, b, c: add(a, b, c), (sq, sq, sq), lambda o: (o, {}), few)
    C("ProductLinearOperator", "the product of two operators", mm, (sq, sq), lambda o: (o, {}))
    C("Kronecker", "the Kronecker product", kron, (sq, sq), lambda o: (o, {}))
    C("SymmetricKronecker", "the symmetric Kronecker product", symkron, (sq, sq), lambda o: (o, {}))
    C("SymmetricKronecker", "the symmetric Kronecker product of an operator with itself", lambda a: symkron(a, a), (sq,), lambda o: (o, {}))
    C("IdentityKronecker", "the Kronecker product with the identity", lambda a: kron([[1, 0], [0, 1]], a), (sq,), lambda o: ([2, o[0]], {}))
    C("BlockDiagonalMatrix", "the block-diagonal operator", blocks, (sq, sq), lambda o: (o, {}))
    C("BlockDiagonalMatrix", "the block-diagonal operator of one block", blocks, (sq,), lambda o: (o, {}))
    C("BlockDiagonalMatrix", "the block-diagonal operator of a wide and a tall block", blocks, ((1, 2), (2, 1)), lambda o: (o, {}))
    C("BlockDiagonalMatrix", "the block-diagonal operator of a tall and a wide block", blocks, ((2, 1), (1, 2)), lambda o: (o, {}))
    C("InverseLinearOperator", "the inverse", inv, (sq,), lambda o: (o, {}))
    C("TransposedLinearOperator", "the transposed operator", tr, (sq,), lambda o: (o, {}))
    C("Identity", "the identity", lambda: [[1, 0], [0, 1]], (), lambda o: ([2], {}))
    for s in (3, -2, 0):
        C("Scaling", f"the scaling by {s}", lambda s=s: [[s, 0], [0, s]], (), lambda o, s=s: ([s], {"shape": (2, 2)}))
    C("Scaling", "the scaling by two factors", lambda: [[2, 0], [0, -1]], (), lambda o: ([TOP], {}))
    C("Zero", "the zero operator", lambda: [[0, 0], [0, 0]], (), lambda o: ([(2, 2)], {}))
    C("Zero", "the zero operator of non-square shape", lambda: [[0, 0, 0], [0, 0, 0]], (), lambda o: ([(2, 3)], {}))
    k.unit("T", lambda: k.method("T", "the transpose", tr, ("_transpose",)))
    k.unit("symmetrize", lambda: k.method("symmetrize", "the symmetrised operator", lambda a: scale(Fraction(1, 2), add(a, tr(a))), ("_symmetrize",)))
    k.unit("inv", lambda: k.method("inv", "the inverted operator", inv, ("_inverse",)))
