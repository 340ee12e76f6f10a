"""Value numbering: the value every variable of a function holds, as a term over the inputs.

One structured forward pass per function (a Herbrand-style abstract interpretation):
assignments bind names to terms, merges produce gated phi terms, project functions are
inlined, loops become fold/map terms or unknowns.  Nothing is executed and no path is
handed to a solver; terms are compared by the normal forms of alg.py.
"""
import ast
import itertools

HOLE = ("hole",)
RAISE = ("raise",)
NONE = ("c", None)

_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.MatMult: "@", ast.Pow: "**",
    ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>",
}
_CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
_NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "is": "is not", "is not": "is",
        "in": "not in", "not in": "in"}


_NOTNONE = ("new", "tup", "list", "dict", "fn", "bin", "bound", "class", "pfunc", "ext", "map", "fold", "T", "str", "lat", "un")


class Budget(Exception):
    pass


class _Jump(Exception):
    """break or continue of an unrolled loop, under decided conditions"""


class _Undecided(Exception):
    """break or continue under a condition that is not decided"""


def neg(c):
    if c[0] == "not":
        return c[1]
    if c[0] == "c":
        return ("c", not c[1])
    if c[0] == "cmp" and c[1] in _NEG:
        return ("cmp", _NEG[c[1]], c[2], c[3])
    if c[0] == "and":
        return ("or",) + tuple(neg(x) for x in c[1:])
    if c[0] == "or":
        return ("and",) + tuple(neg(x) for x in c[1:])
    return ("not", c)


def boolify(t):
    """Truth value of a term as a condition; gated constants become conditions."""
    if t[0] == "phi":
        c, x, y = t[1], boolify(t[2]), boolify(t[3])
        if x == y:
            return x
        if x[0] == "c" and y[0] == "c":
            return c if x[1] else neg(c)
        return ("or", ("and", c, x), ("and", neg(c), y))
    if t[0] == "c":
        return ("c", bool(t[1]))
    if t[0] in ("and", "or"):
        return (t[0],) + tuple(boolify(x) for x in t[1:])
    if t[0] == "not":
        return neg(boolify(t[1]))
    return t


def mkcmp(op, a, b):
    if op in ("in", "not in") and a[0] == "c":
        if b[0] == "phi":
            c, x, y = b[1], mkcmp(op, a, b[2]), mkcmp(op, a, b[3])
            return x if x == y else ("or", ("and", c, x), ("and", neg(c), y))
        if b[0] == "dict" and all(k[0] == "c" for k, _ in b[1]):
            return ("c", any(k == a for k, _ in b[1]) == (op == "in"))
    if op in ("is", "is not", "==", "!=") and b[0] == "c" and a[0] == "phi":
        c, x, y = a[1], mkcmp(op, a[2], b), mkcmp(op, a[3], b)
        if x == y:
            return x
        return ("or", ("and", c, x), ("and", neg(c), y))
    k, pol = canon_cond(("cmp", op, a, b))
    if k[0] == "c":
        return ("c", bool(k[1]) == pol)
    return ("cmp", op, a, b)


def strip_raise(t):
    """Drops the raising branches of a value (None: it always raises)."""
    if t == RAISE:
        return None
    if t[0] == "phi":
        a, b = strip_raise(t[2]), strip_raise(t[3])
        if a is None:
            return b
        if b is None:
            return a
        return phi(t[1], a, b)
    return t


def canon_cond(c):
    """(condition, polarity) with the polarity of negative comparisons factored out."""
    pol = True
    while c[0] == "not":
        c, pol = c[1], not pol
    if c[0] == "cmp":
        op, a, b = c[1], c[2], c[3]
        if op in ("!=", "is not", "not in", ">=", "<="):
            op, pol = _NEG[op], not pol
        if op == ">":
            op, a, b = "<", b, a
        if op == "==" and repr(b) < repr(a):
            a, b = b, a
        if op == "is" and b == NONE and a[0] in _NOTNONE:
            return ("c", False), pol
        c = ("cmp", op, a, b)
        if op in ("==", "is") and a[0] == "c" and b[0] == "c":
            return ("c", a[1] == b[1]), pol
    return c, pol


def phi(c, a, b):
    if a == b:
        return a
    c, pol = canon_cond(c)
    if not pol:
        a, b = b, a
    if c[0] == "c":
        return a if c[1] else b
    return ("phi", c, a, b)


def subst(t, f):
    """Rebuild a term bottom-up with f applied to every node."""
    if not isinstance(t, tuple):
        return t
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return f(n)


def fill(t, v):
    """Replace the 'has not returned yet' hole."""
    if t == HOLE:
        return v
    if t[0] == "phi":
        return phi(t[1], fill(t[2], v), fill(t[3], v))
    return t


def has_hole(t):
    if t == HOLE:
        return True
    return t[0] == "phi" and (has_hole(t[2]) or has_hole(t[3]))


def contains(t, pred):
    if not isinstance(t, tuple) or not t:
        return False
    if pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


class VN:
    def __init__(self, prog, assume=(), opaque=(), max_depth=9, budget=60000, records=None, types=None):
        self.p = prog
        self.assume = dict(assume)  # canonical condition -> bool
        self.opaque = set(opaque)  # qualified names / method names never inlined
        self.max_depth = max_depth
        self.budget = budget
        self.fns = []
        self.uid = itertools.count()
        self.level = 0
        self.records = records or {}
        self.types = types or {}  # term -> ClassInfo (receiver types known from a spec)
        self.stack = []
        self.inlined = []
        self.keep = []
        self.identity_calls = set()
        self.keep_raise = False
        self.oracle = None  # condition -> True, False or None
        self.order = None  # order-type domain (order.Order)
        self.collect = False  # evaluate generators to the list of their yields
        self.ystack = []
        self.summaries = None  # (frame, callee term, args, kwargs) -> term or None

    # ------------------------------------------------------------------ entry
    def unk(self, why):
        return ("unk", why, next(self.uid))

    def func(self, f, cls=None, args=None, self_term=("s", "self")):
        """Term returned by f; parameters default to symbols of their own name."""
        env = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.self_name:
            env[f.self_name] = self_term
        elif f.is_classmethod and names:
            env[names[0]] = ("class", (cls or f.cls).qual)
        for n in names:
            if n not in env:
                env[n] = (args or {}).get(n, ("s", n))
        if a.vararg:
            env[a.vararg.arg] = (args or {}).get(a.vararg.arg, ("s", "*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = (args or {}).get(a.kwarg.arg, ("s", "**" + a.kwarg.arg))
        return self.body(f, env, cls or f.cls)

    def body(self, f, env, cls, closure=None):
        fr = Frame(self, f, env, cls, closure)
        if isinstance(f.node, ast.Lambda):
            return fr.ev(f.node.body)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(f.node)):
            if self.collect:
                self.ystack.append([])
                ok = False
                try:
                    e, ret = fr.block(f.body())
                    ok = True
                finally:
                    ys = self.ystack.pop()
                self.last_env = fr.env if e else None
                self.last_frame = fr
                if ret is not None and strip_raise(fill(ret, NONE)) not in (NONE, None):
                    ys.append(self.unk("return in generator"))
                return ("list", tuple(ys))
            return ("gen", f.qual, tuple(sorted((k, v) for k, v in env.items() if isinstance(v, tuple)))[:12])
        e, ret = fr.block(f.body())
        self.last_env = fr.final_env(e)
        self.last_frame = fr
        if ret is None:
            return NONE
        return fill(ret, NONE)

    def condition(self, c):
        """True/False if assumed, else None."""
        if c[0] == "c":
            return bool(c[1])
        if c[0] == "not":
            r = self.condition(c[1])
            return None if r is None else not r
        if c[0] in ("and", "or"):
            vals = [self.condition(x) for x in c[1:]]
            if c[0] == "and":
                if any(v is False for v in vals):
                    return False
                return True if all(v is True for v in vals) else None
            if any(v is True for v in vals):
                return True
            return False if all(v is False for v in vals) else None
        k, pol = canon_cond(c)
        if k[0] == "c":
            return bool(k[1]) == pol
        if k in self.assume:
            return self.assume[k] == pol
        if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and k[2] in self.types:
            return (not pol)
        if self.order is not None:
            if k[0] == "cmp":
                o = self.order.compare(k[1], k[2], k[3])
                if o is not None and o[0] == "c":
                    return bool(o[1]) == pol
            if k[0] == "arr" and len(k[1]) == 1 and k[1][0][0] == "c":
                return bool(k[1][0][1]) == pol
        if self.oracle is not None:
            r = self.oracle(k)
            if r is not None:
                return bool(r) == pol
        return None


def _own(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))


class Frame:
    def __init__(self, vn, f, env, cls, closure=None):
        self.vn, self.f, self.env, self.cls, self.closure = vn, f, env, cls, closure
        self.p = vn.p
        self.exits = []  # (condition, polarity, environment) of conditional returns
        self.partial = False  # a return inside a construct whose path condition is not tracked

    def final_env(self, falls_through):
        """Environment after the function, merged over its returns (None: not known)."""
        if falls_through and not self.exits and not self.partial:
            return self.env
        if self.partial:
            return self.env if falls_through else None
        env = self.env
        for c, pol, e in reversed(self.exits):
            env = merge(c, e, env, self.vn) if pol else merge(c, env, e, self.vn)
        return env

    # -------------------------------------------------------------- statements
    def block(self, stmts):
        """(falls through, return term with holes or None)"""
        ret = None
        for s in stmts:
            self.vn.budget -= 1
            if self.vn.budget < 0:
                raise Budget()
            ok, r = self.stmt(s)
            if r is not None:
                ret = r if ret is None else fill(ret, r)
            if not ok:
                return False, ret
        return True, ret

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return True, None
        return m(s)

    def s_Return(self, s):
        return False, (self.ev(s.value) if s.value is not None else NONE)

    def s_Raise(self, s):
        return False, RAISE

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            nm, recv = v.func.attr, v.func.value
            if nm in ("append", "extend", "insert", "update", "sort", "reverse", "fill"):
                base = self.ev(recv)
                args = tuple(self.ev(a) for a in v.args)
                new = None
                if base[0] not in ("list", "tup", "dict", "arr") and self.vn.summaries is not None:
                    kws = tuple((k.arg, self.ev(k.value)) for k in v.keywords)
                    if self.vn.summaries(self, ("at", base, nm), args, kws) is not None:
                        return True, None
                if nm == "append" and base[0] == "list" and len(args) == 1:
                    new = ("list", base[1] + (args[0],))
                elif nm == "extend" and base[0] == "list" and len(args) == 1 and finite(args[0]) is not None:
                    new = ("list", base[1] + finite(args[0]))
                elif nm == "insert" and base[0] == "list" and len(args) == 2 and args[0][0] == "c" and isinstance(args[0][1], int):
                    xs = list(base[1])
                    xs.insert(args[0][1], args[1])
                    new = ("list", tuple(xs))
                elif nm == "reverse" and not args:
                    new = rev(base)
                else:
                    new = ("mut", nm, base, args)
                self.store(recv, new)
                return True, None
        if isinstance(v, ast.Call) and len(v.args) >= 2:
            fn = self.ev(v.func)
            if fn[0] == "ext" and fn[1] in INPLACE and isinstance(v.args[0], (ast.Name, ast.Attribute)):
                args = tuple(self.ev(a) for a in v.args)
                kw = tuple((k.arg, self.ev(k.value)) for k in v.keywords)
                self.store(v.args[0], ("call", fn[1], args, kw))
                return True, None
        if self.ev(v) == RAISE:
            return False, RAISE
        return True, None

    def s_Assign(self, s):
        v = self.ev(s.value)
        if v == RAISE:
            return False, RAISE
        for t in s.targets:
            self.store(t, v)
        return True, None

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.store(s.target, self.ev(s.value))
        return True, None

    def s_AugAssign(self, s):
        cur = self.ev(_load(s.target))
        self.store(s.target, self.binop(_BIN.get(type(s.op), "?"), cur, self.ev(s.value)))
        return True, None

    def s_Assert(self, s):
        return True, None

    def s_Import(self, s):
        return True, None

    def s_FunctionDef(self, s):
        fi = self.p.func_of_node.get(id(s))
        if fi is not None:
            self.env[s.name] = self.closure_term(fi)
        return True, None

    def s_Delete(self, s):
        return True, None

    def s_If(self, s):
        c = boolify(self.ev(s.test))
        k = self.vn.condition(c)
        if k is not None:
            return self.block(s.body if k else s.orelse)
        env0 = self.env
        self.env = dict(env0)
        ny = len(self.vn.ystack[-1]) if self.vn.ystack else 0
        exits, self.exits = self.exits, []
        try:
            ok1, r1 = self.block(s.body)
            e1 = self.env
            self.env = dict(env0)
            ok2, r2 = self.block(s.orelse)
            e2 = self.env
        except _Jump:
            raise _Undecided() from None
        finally:
            if self.exits:
                self.partial = True
            self.exits = exits
        if self.vn.ystack and len(self.vn.ystack[-1]) != ny:
            self.vn.ystack[-1][ny:] = [self.vn.unk("conditional yield")]
        ret = None
        if r1 is not None or r2 is not None:
            ret = phi(c, r1 if r1 is not None else HOLE, r2 if r2 is not None else HOLE)
        if ok1 and ok2:
            self.env = merge(c, e1, e2, self.vn)
            return True, ret
        if ok1:
            self.env = e1
            if r2 != RAISE:
                exits.append((c, False, e2))
            return True, ret
        if ok2:
            self.env = e2
            if r1 != RAISE:
                exits.append((c, True, e1))
            return True, ret
        self.env = e2 if r1 == RAISE else e1 if r2 == RAISE else merge(c, e1, e2, self.vn)
        return False, ret

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.store(it.optional_vars, ("call", "<enter>", (v,), ()))
        return self.block(s.body)

    def s_Try(self, s):
        env0 = dict(self.env)
        ok, r = self.block(s.body)
        e1 = self.env
        if ok and s.orelse:
            ok, r2 = self.block(s.orelse)
            r = r2 if r is None else (fill(r, r2) if r2 is not None else r)
            e1 = self.env
        for h in s.handlers:
            self.env = dict(env0)
            if h.name:
                self.env[h.name] = self.vn.unk("exception")
            okh, rh = self.block(h.body)
            if not okh and rh == RAISE:
                continue
            tag = ("exc", ast.unparse(h.type) if h.type is not None else "", s.lineno)
            if rh is not None or r is not None:
                self.partial = True
                r = phi(tag, rh if rh is not None else HOLE, r if r is not None else HOLE)
            if okh and ok:
                e1 = merge(tag, self.env, e1, self.vn)
            elif okh:
                e1, ok = self.env, True
        self.env = e1
        if s.finalbody:
            okf, rf = self.block(s.finalbody)
            ok = ok and okf
        return ok, r

    def s_While(self, s):
        if (self.vn.oracle is not None or self.vn.order is not None) and not s.orelse:
            env0, ret = dict(self.env), None
            ny = len(self.vn.ystack[-1]) if self.vn.ystack else 0
            try:
                for _ in range(8):
                    k = self.vn.condition(boolify(self.ev(s.test)))
                    if k is None:
                        break
                    if not k:
                        return True, ret
                    try:
                        ok, r = self.block(s.body)
                    except _Jump as j:
                        if j.args[0] == "break":
                            return True, ret
                        continue
                    if r is not None:
                        ret = r if ret is None else fill(ret, r)
                    if not ok:
                        return False, ret
            except _Undecided:
                pass
            self.env = env0
            if self.vn.ystack:
                del self.vn.ystack[-1][ny:]
        return self.loop(s, None)

    def s_Break(self, s):
        raise _Jump("break")

    def s_Continue(self, s):
        raise _Jump("continue")

    def s_For(self, s):
        seq = self.ev(s.iter)
        items = finite(seq)
        if items is not None and len(items) <= 8:
            ret, env0 = None, dict(self.env)
            ny = len(self.vn.ystack[-1]) if self.vn.ystack else 0
            try:
                done = True
                for it in items:
                    self.store(s.target, it)
                    try:
                        ok, r = self.block(s.body)
                    except _Jump as j:
                        if j.args[0] == "break":
                            done = False
                            break
                        continue
                    if r is not None:
                        ret = r if ret is None else fill(ret, r)
                    if not ok:
                        return False, ret
                if done and s.orelse:
                    ok, r = self.block(s.orelse)
                    if r is not None:
                        ret = r if ret is None else fill(ret, r)
                    return ok, ret
                return True, ret
            except _Undecided:
                self.env = env0
                if self.vn.ystack:
                    del self.vn.ystack[-1][ny:]
        return self.loop(s, seq)

    def loop(self, s, seq):
        try:
            ny = len(self.vn.ystack[-1]) if self.vn.ystack else 0
            return self._loop(s, seq)
        except (_Jump, _Undecided):
            for n in _assigned(s):
                self.env[n] = self.vn.unk(f"loop {n}")
            return True, None
        finally:
            if self.vn.ystack and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
                self.vn.ystack[-1][ny:] = [self.vn.unk("yield in a loop")]

    def _loop(self, s, seq):
        assigned = sorted(_assigned(s))
        env0 = dict(self.env)
        if seq is not None and not s.orelse and not _has_jump(s.body):
            # accumulator recognition: evaluate the body once on symbols
            lv = self.vn.level
            self.vn.level += 1
            bv = ("bv", lv)
            self.env = dict(env0)
            accs = {}
            for n in assigned:
                if n in env0:
                    accs[n] = ("acc", lv, n)
                    self.env[n] = accs[n]
            self.store(s.target, bv)
            ok, r = self.block(s.body)
            after = self.env
            self.vn.level -= 1
            if ok and r is None:
                res = dict(env0)
                tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                for n in assigned:
                    if n not in after:
                        continue
                    v = after[n]
                    if n in tnames:
                        res[n] = ("last", seq, bv)
                        continue
                    if n not in accs:
                        res[n] = ("last", seq, v)
                        continue
                    res[n] = fold(env0[n], accs[n], v, seq, lv)
                    if res[n] is None:
                        res[n] = self.vn.unk(f"loop-carried {n}")
                for k in after:
                    if isinstance(k, tuple) and after[k] != env0.get(k):
                        old = env0.get(k)
                        res[k] = self.vn.unk("attribute written in loop")
                self.env = res
                return True, None
            self.env = env0
        env = dict(env0)
        for n in assigned:
            env[n] = self.vn.unk(f"loop {n}")
        for k in list(env):
            if isinstance(k, tuple):
                pass
        self.env = env
        rets = any(isinstance(n, ast.Return) for n in _own(s))
        self.partial = self.partial or rets
        return True, (phi(("loopret", s.lineno), self.vn.unk("returned from loop"), HOLE) if rets else None)

    # ---------------------------------------------------------------- storing
    def store(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.store(e.value, ("idx", v, ("slice", ("c", i), ("c", i + 1 - n) if i + 1 < n else NONE, NONE)))
                elif stars and i > stars[0]:
                    self.store(e, index(v, ("c", i - n)))
                else:
                    self.store(e, index(v, ("c", i)))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            c = self.type_of(base) if getattr(self.vn, "setters", False) else None
            m = c.find_setter(t.attr) if c is not None else None
            if m is not None and len(m.node.args.args) == 2:
                self.call(("bound", base, m.qual, id(m.node)), (v,), ())
                return
            self.env[("@", base, self.mangle(t.attr))] = v
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev(t.slice)
            new = self.vn.order.update(base, key, v) if self.vn.order is not None else None
            self.store(_load(t.value) if not isinstance(t.value, (ast.Name, ast.Attribute, ast.Subscript)) else t.value,
                       new if new is not None else update(base, key, v))
        elif isinstance(t, ast.Starred):
            self.store(t.value, v)

    def mangle(self, a):
        c = self.f.encl_cls if getattr(self.f, "encl_cls", None) else self.f.cls
        return c.mangle(a) if c is not None else a

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        self.vn.budget -= 1
        if self.vn.budget < 0:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.vn.unk(type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return ("c", e.value)

    def e_Name(self, e):
        fr = self
        if e.id in self.env:
            return self.env[e.id]
        c = self.closure
        while c is not None:
            if e.id in c.env:
                return c.env[e.id]
            c = c.closure
        r = self.p.resolve_expr(e, self.f.module, self.f)
        return self.entity(r, e.id)

    def entity(self, r, name):
        if r is None:
            return ("s", name)
        if r[0] == "class":
            return ("class", r[1].qual)
        if r[0] == "func":
            return ("pfunc", r[1].qual, id(r[1].node))
        if r[0] == "mod":
            return ("mod", r[1].name)
        if r[0] == "ext":
            if r[1] == "numpy.newaxis":
                return NONE
            return ("ext", canon_ext(r[1]))
        if r[0] == "global":
            v = r[1].assigns.get(r[2])
            if isinstance(v, ast.Constant) and r[2] not in r[1].reassigned:
                return ("c", v.value)
            return ("global", f"{r[1].name}.{r[2]}")
        if r[0] == "classattr":
            return ("at", ("class", r[1].qual), r[2])
        return ("s", name)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store(e.target, v)
        return v

    def e_Starred(self, e):
        return ("star", self.ev(e.value))

    def e_BinOp(self, e):
        return self.binop(_BIN.get(type(e.op), "?"), self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if self.vn.order is not None:
            r = self.vn.order.binop(op, a, b, mkbin)
            if r is not None:
                return r
        return mkbin(op, a, b)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        if self.vn.ystack:
            self.vn.ystack[-1].append(v)
            return ("sent",)
        return self.vn.unk("yield")

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        xs = finite(v)
        if self.vn.ystack and xs is not None:
            self.vn.ystack[-1].extend(xs)
            return NONE
        if self.vn.ystack:
            self.vn.ystack[-1].append(self.vn.unk("yield from"))
        return self.vn.unk("yield from")

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return neg(v)
        if isinstance(e.op, ast.USub):
            if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
                return ("c", -v[1])
            if self.vn.order is not None and v[0] == "arr":
                return self.vn.order.unary("-", v) or ("un", "-", v)
            return ("un", "-", v)
        if isinstance(e.op, ast.UAdd):
            return v
        if self.vn.order is not None and v[0] == "arr":
            return self.vn.order.unary("~", v) or ("un", "~", v)
        return ("un", "~", v)

    def e_BoolOp(self, e):
        vals = [self.ev(v) for v in e.values]
        if isinstance(e.op, ast.Or) and len(vals) == 2 and not _boolish(vals[0]):
            # `x or default`
            k = self.vn.condition(("truth", vals[0]))
            if k is not None:
                return vals[0] if k else vals[1]
            return phi(("truth", vals[0]), vals[0], vals[1])
        return ("and" if isinstance(e.op, ast.And) else "or",) + tuple(vals)

    def e_Compare(self, e):
        parts = []
        left = self.ev(e.left)
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            o = self.vn.order.compare(_CMP[type(op)], left, right) if self.vn.order is not None else None
            parts.append(o if o is not None else mkcmp(_CMP[type(op)], left, right))
            left = right
        return parts[0] if len(parts) == 1 else ("and",) + tuple(parts)

    def e_IfExp(self, e):
        c = boolify(self.ev(e.test))
        k = self.vn.condition(c)
        if k is not None:
            return self.ev(e.body if k else e.orelse)
        return phi(c, self.ev(e.body), self.ev(e.orelse))

    def e_Tuple(self, e):
        return ("tup", tuple(self.ev(x) for x in e.elts))

    def e_List(self, e):
        return ("list", tuple(self.ev(x) for x in e.elts))

    def e_Set(self, e):
        return ("set", tuple(sorted((self.ev(x) for x in e.elts), key=repr)))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            items.append((self.ev(k) if k is not None else ("**",), self.ev(v)))
        return ("dict", tuple(items))

    def e_JoinedStr(self, e):
        return ("str",)

    def e_Lambda(self, e):
        fi = self.p.func_of_node.get(id(e))
        if fi is None:
            from .prog import FuncInfo

            fi = FuncInfo(e, self.f.module, None, self.f)
            fi.encl_cls = getattr(self.f, "encl_cls", None)
            self.p.func_of_node[id(e)] = fi
            self.vn.keep.append(e)
        return self.closure_term(fi)

    def closure_term(self, fi):
        self.vn.fns.append((fi, self))
        return ("fn", len(self.vn.fns) - 1)

    def _comp(self, e, elt):
        saved = dict(self.env)
        res = None
        seqs = []
        base = self.vn.level
        for g in e.generators:
            seq = self.ev(g.iter)
            bv = ("bv", self.vn.level)
            self.vn.level += 1
            items = finite(seq)
            if items is not None and len(e.generators) == 1 and len(items) <= 8:
                out = []
                for it in items:
                    self.store(g.target, it)
                    keep = True
                    for c in g.ifs:
                        keep = self.vn.condition(self.ev(c))
                        if keep is not True:
                            break
                    if keep is None:
                        out = None  # whether this element is kept is not known
                        break
                    if keep:
                        out.append(self.ev(elt))
                if out is not None:
                    self.vn.level = base
                    self.env = saved
                    return ("list", tuple(out))
                self.env = dict(saved)
            self.store(g.target, bv)
            conds = tuple(self.ev(c) for c in g.ifs)
            seqs.append((seq, conds))
        body = self.ev(elt)
        self.vn.level = base
        self.env = saved
        if len(seqs) == 1:
            return mkmap(seqs[0][0], body, seqs[0][1], base)
        return ("map*", tuple(seqs), body)

    def e_ListComp(self, e):
        return self._comp(e, e.elt)

    def e_GeneratorExp(self, e):
        return self._comp(e, e.elt)

    def e_SetComp(self, e):
        return ("call", "builtins.set", (self._comp(e, e.elt),), ())

    def e_DictComp(self, e):
        return ("call", "builtins.dict", (self._comp(e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())),), ())

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.ev(x)
        return ("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev(e.slice)
        return self.index(b, i)

    def index(self, b, i):
        if self.vn.order is not None:
            r = self.vn.order.index(b, i)
            if r is not None:
                return r
            c = self.type_of(b) if b[0] in ("s", "new", "@") else None
            g = c.find("__getitem__") if c is not None else None
            if g is not None:
                return self.call_func(g, b, (i,), {}, c)
        return index(b, i)

    def e_Attribute(self, e):
        r = None
        if isinstance(e.value, ast.Name) and e.value.id not in self.env:
            r = self.p.resolve_expr(e, self.f.module, self.f) if not self._local(e.value.id) else None
        elif isinstance(e.value, ast.Attribute):
            root = e.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and not self._local(root.id):
                r = self.p.resolve_expr(e, self.f.module, self.f)
        if r is not None and r[0] in ("class", "func", "mod", "ext", "global", "classattr"):
            return self.entity(r, e.attr)
        base = self.ev(e.value)
        return self.attr(base, self.mangle(e.attr))

    def _local(self, n):
        if n in self.env:
            return True
        c = self.closure
        while c is not None:
            if n in c.env:
                return True
            c = c.closure
        return False

    def type_of(self, t):
        if t == ("s", "self"):
            return self.cls
        if t in self.vn.types:
            return self.vn.types[t]
        if t[0] == "new":
            return self.p.class_by_qual.get(t[1])
        return None

    def attr(self, base, a):
        if base[0] == "phi":
            return phi(base[1], self.attr(base[2], a), self.attr(base[3], a))
        if base[0] == "mod":
            r = self.p.module_attr(self.p.modules[base[1]], a)
            if r is not None:
                return self.entity(r, a)
        if base[0] == "ext":
            if base[1] == "numpy" and a == "newaxis":
                return NONE
            return ("ext", canon_ext(base[1] + "." + a))
        k = ("@", base, a)
        if k in self.env:
            return self.env[k]
        if base[0] == "arr" and self.vn.order is not None:
            r = self.vn.order.attr(base, a)
            if r is not None:
                return r
        if base[0] == "new":
            r = self.new_attr(base, a)
            if r is not None:
                return r
        if a == "T":
            return ("T", base)
        c = self.type_of(base)
        if c is not None:
            m = c.find(a)
            if m is not None and m.is_property:
                if a in self.vn.opaque or m.qual in self.vn.opaque or m.is_abstract:
                    return ("at", base, a)
                r = self.inline(m, {m.node.args.args[0].arg: base}, c)
                if r is not None:
                    return r
                return ("at", base, a)
            if m is not None:
                return ("bound", base, m.qual, id(m.node))
            for k in c.mro():
                if a in k.class_attrs and isinstance(k.class_attrs[a], ast.Constant):
                    return ("at", base, a)
        return ("at", base, a)

    def new_attr(self, base, a):
        """Attribute of a freshly constructed object."""
        d = dict(base[2])
        name = base[1].split(".")[-1]
        rec = self.vn.records.get(name)
        if rec is not None and a in rec:
            src = rec[a]
            if src in d and d[src] != NONE:
                return d[src]
            return None
        c = self.p.class_by_qual.get(base[1])
        if c is None:
            return None
        if c.is_dataclass and a in d:
            return d[a]
        return None

    # ------------------------------------------------------------------- calls
    def e_Call(self, e):
        fn = e.func
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and not fn.value.args:
            return self.super_call(e, fn.attr)
        if isinstance(fn, ast.Name) and fn.id == "isinstance" and len(e.args) == 2:
            v = self.ev(e.args[0])
            return self.isinst(v, e.args[1])
        callee = self.ev(fn)
        args = unstar(tuple(self.ev(a) for a in e.args))
        kwargs = tuple((k.arg, self.ev(k.value)) for k in e.keywords)
        return self.call(callee, args, kwargs)

    def isinst(self, v, tnode):
        elts = tnode.elts if isinstance(tnode, ast.Tuple) else [tnode]
        ts = tuple(sorted(repr(self.ev(x)) for x in elts))
        if v[0] in ("tup", "list") and ts:
            names = {"tup": "tuple", "list": "list"}
            if any(t.startswith(("('ext', 'builtins.", "('builtin'")) and f"{names[v[0]]}'" in t for t in ts):
                return ("c", True)
            if any(t.rstrip("')").split(".")[-1] in ("Iterable", "Sequence", "Collection", "Sized", "Container", "Reversible") for t in ts):
                return ("c", True)
        c = self.type_of(v)
        if c is not None:
            known = True
            for x in elts:
                r = self.p.resolve_expr(x, self.f.module, self.f)
                if r is not None and r[0] == "class":
                    if c.is_subclass_of(r[1]):
                        return ("c", True)
                    if r[1].is_subclass_of(c):
                        known = False
                elif r is None or r[0] != "ext":
                    known = False
            if known:
                return ("c", False)
        return ("isinstance", v, ts)

    def super_call(self, e, name):
        args = tuple(self.ev(a) for a in e.args)
        kwargs = tuple((k.arg, self.ev(k.value)) for k in e.keywords)
        own = self.f.cls
        f = self.f
        while own is None and f.parent is not None:
            f = f.parent
            own = f.cls
        sn = f.self_name
        st = self.env.get(sn) if sn in self.env else ("s", "self")
        cls = self.type_of(st) or self.cls or own
        mro = cls.mro() if own in cls.mro() else own.mro()
        for c in mro[mro.index(own) + 1:]:
            if name in c.methods:
                m = c.methods[name]
                return self.call_func(m, st, args, kwargs, cls)
        return ("call", f"super.{name}", args, kwargs)

    def call(self, fn, args, kwargs):
        k = fn[0]
        if self.vn.summaries is not None:
            r = self.vn.summaries(self, fn, args, kwargs)
            if r is not None:
                return r
        if k in ("at", "bound", "pfunc") and self.vn.identity_calls and len(args) >= 1:
            nm = fn[2] if k != "pfunc" else fn[1]
            if nm.split(".")[-1] in self.vn.identity_calls and args[0][0] in ("fn", "pfunc", "bound"):
                return args[0]
        if k == "phi":
            return phi(fn[1], self.call(fn[2], args, kwargs), self.call(fn[3], args, kwargs))
        if k == "fn":
            fi, fr = self.vn.fns[fn[1]]
            return self.call_closure(fi, fr, args, kwargs)
        if k == "pfunc":
            f = self.p.func_of_node.get(fn[2])
            if f is None:
                return ("call", fn[1], args, kwargs)
            if f.is_method and not f.is_classmethod and f.cls is not None:
                # Class.method(obj, ...)
                if args:
                    return self.call_func(f, args[0], args[1:], kwargs, self.type_of(args[0]) or f.cls)
            return self.call_func(f, None, args, kwargs, f.cls)
        if k == "class":
            return self.construct(fn[1], args, kwargs)
        if k == "bound":
            f = self.p.func_of_node.get(fn[3])
            return self.call_func(f, fn[1], args, kwargs, self.type_of(fn[1]) or f.cls)
        if k == "ext":
            if fn[1] == "functools.reduce" and len(args) >= 2 and args[0][0] in ("fn", "pfunc", "bound") and not kwargs:
                return self.reduce_(args)
            if fn[1] == "builtins.map" and len(args) == 2 and args[0][0] in ("fn", "pfunc", "bound", "class", "ext"):
                lv = self.vn.level
                self.vn.level += 1
                items = finite(args[1])
                if items is not None:
                    r = ("list", tuple(self.call(args[0], (x,), ()) for x in items))
                else:
                    r = mkmap(args[1], self.call(args[0], (("bv", lv),), ()), (), lv)
                self.vn.level = lv
                return r
            if self.vn.order is not None:
                r = self.vn.order.call(_FULLNAME.get(fn[1], fn[1]) if not fn[1].endswith((".amin", ".amax")) else fn[1], args, kwargs, mkbin)
                if r is not None:
                    return r
            return ext_call(fn[1], args, kwargs)
        if k == "at" and fn[1][0] == "arr" and self.vn.order is not None:
            r = self.vn.order.method(fn[1], fn[2], args, kwargs, mkbin)
            if r is not None:
                return r
        if k == "at":
            return method(fn[1], fn[2], args, kwargs)
        if k == "T":  # x.T(...)
            return ("call", fn, args, kwargs)
        return ("call", fn, args, kwargs)

    def reduce_(self, args):
        fn, seq = args[0], args[1]
        items = finite(seq)
        if items is not None and (items or len(args) > 2):
            acc = args[2] if len(args) > 2 else items[0]
            for x in items if len(args) > 2 else items[1:]:
                acc = self.call(fn, (acc, x), ())
            return acc
        lv = self.vn.level
        self.vn.level += 1
        acc, bv = ("acc", lv, "acc"), ("bv", lv)
        v = self.call(fn, (acc, bv), ())
        self.vn.level = lv
        if len(args) > 2:
            r = fold(args[2], acc, v, seq, lv)
        elif v[0] == "bin" and v[1] in ("+", "*", "@") and v[2] == acc and v[3] == bv:
            r = mkfold(v[1], None, seq, False)
        elif v[0] == "bin" and v[1] in ("+", "*", "@") and v[3] == acc and v[2] == bv:
            r = mkfold(v[1], None, seq, True)
        else:
            r = None
        return r if r is not None else self.vn.unk("reduce")

    def call_closure(self, fi, fr, args, kwargs):
        if len(self.vn.stack) >= self.vn.max_depth or fi.node in self.vn.stack:
            return ("call", ("closure", fi.qual), args, kwargs)
        b = bind_args(fi, args, kwargs, drop_self=False)
        if b is None:
            return self.vn.unk("closure call")
        env, missing = b
        d = fi.defaults()
        for n in missing:
            if n in d:
                env[n] = Frame(self.vn, fr.f, dict(fr.env), fr.cls, fr.closure).ev(d[n])
            else:
                env[n] = ("s", n)
        self.vn.stack.append(fi.node)
        try:
            for kk, vv in self.env.items():
                if isinstance(kk, tuple):
                    env.setdefault(kk, vv)
            return self.vn.body(fi, env, fr.cls, closure=fr)
        finally:
            self.vn.stack.pop()

    def construct(self, qual, args, kwargs):
        c = self.p.class_by_qual.get(qual)
        if c is None:
            return ("new", qual, tuple((str(i), a) for i, a in enumerate(args)) + kwargs)
        init = c.find("__init__")
        if init is None:
            if c.is_dataclass:
                names = []
                for k in reversed(c.mro()):
                    names += [n for n in k.class_ann if n not in names]
                d = dict(zip(names, args))
                d.update(dict(kwargs))
                for k in c.mro():
                    for n in names:
                        if n not in d and n in k.class_attrs:
                            d[n] = Frame(self.vn, self.f, {}, None).ev(k.class_attrs[n]) if isinstance(k.class_attrs[n], ast.Constant) else ("default", n)
                return ("new", qual, tuple(sorted(d.items())))
            return ("new", qual, tuple((str(i), a) for i, a in enumerate(args)) + tuple(sorted(kwargs)))
        b = bind_args(init, args, kwargs, drop_self=True)
        if b is None:
            return ("new", qual, tuple((str(i), a) for i, a in enumerate(args)) + tuple(sorted(kwargs)))
        env, missing = b
        d = init.defaults()
        for n in missing:
            if n in d:
                env[n] = Frame(self.vn, init, {}, None).ev(d[n])
        return ("new", qual, tuple(sorted(env.items())))

    def call_func(self, f, self_term, args, kwargs, cls):
        nm = f.qual
        b = bind_args(f, args, kwargs, drop_self=self_term is not None or f.is_classmethod)
        if b is None:
            return ("pcall", nm, (self_term,) if self_term else (), args, kwargs)
        env, missing = b
        d = f.defaults()
        for n in missing:
            if n in d:
                env[n] = Frame(self.vn, f, {}, None).ev(d[n])
        if self_term is not None and f.self_name:
            env[f.self_name] = self_term
        elif f.is_classmethod:
            a = f.node.args
            env[(a.posonlyargs + a.args)[0].arg] = self_term or ("class", (cls or f.cls).qual)
        if f.name not in self.vn.opaque and nm not in self.vn.opaque and not f.is_abstract:
            r = self.inline(f, env, cls)
            if r is not None:
                return r
        key = tuple(sorted((k, v) for k, v in env.items() if isinstance(k, str) and k != f.self_name))
        return ("pcall", f.name if self_term is not None else nm, (self_term,) if self_term is not None else (), key)

    def inline(self, f, env, cls):
        if len(self.vn.stack) >= self.vn.max_depth or f.node in self.vn.stack:
            return None
        if f.decorators and not (f.is_property or f.is_static or f.is_classmethod):
            if not all(x.split("(")[0].endswith(".setter") or x.split("(")[0] in ("functools.wraps", "abc.abstractmethod", "abstractmethod")
                       or x.split("(")[0].split(".")[-1] in self.vn.identity_calls for x in f.decorators):
                return None
        self.vn.stack.append(f.node)
        try:
            env = dict(env)
            for kk, vv in self.env.items():
                if isinstance(kk, tuple):
                    env.setdefault(kk, vv)
            before = {k: v for k, v in env.items() if isinstance(k, tuple)}
            if cls is None and f.cls is None:
                cls = self.cls  # a helper function given the receiver
            r = self.vn.body(f, env, cls)
            le = self.vn.last_env
            if le is not None:
                for k, v in le.items():
                    if isinstance(k, tuple) and before.get(k) != v:
                        self.env[k] = v
            self.vn.inlined.append(f.qual)
            if not self.vn.keep_raise:
                r = strip_raise(r) or RAISE
            return r
        finally:
            self.vn.stack.pop()


def bind_args(f, args, kwargs, drop_self=True):
    """({param: term}, [unbound params]) or None."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if drop_self and f.is_method and pos:
        pos = pos[1:]
    env = {}
    rest = []
    for i, v in enumerate(args):
        if v[0] == "star":
            fin = finite(v[1])
            if fin is not None:
                return bind_args(f, args[:i] + tuple(fin) + args[i + 1:], kwargs, drop_self)
            if a.vararg is not None and i >= len(pos):
                rest.append(v)
                continue
            if a.vararg is not None and not pos:
                rest.append(v)
                continue
            return None
        if i < len(pos):
            env[pos[i]] = v
        elif a.vararg is not None:
            rest.append(v)
        else:
            return None
    if a.vararg is not None:
        if len(rest) == 1 and rest[0][0] == "star":
            env[a.vararg.arg] = rest[0][1]
        else:
            env[a.vararg.arg] = ("tup", tuple(rest))
    kwn = [x.arg for x in a.kwonlyargs]
    extra = []
    for k, v in kwargs:
        if k is None:
            if v[0] == "dict" and all(kk[0] == "c" for kk, _ in v[1]):
                for kk, vv in v[1]:
                    if kk[1] in pos or kk[1] in kwn:
                        env[kk[1]] = vv
                    else:
                        extra.append((kk[1], vv))
                continue
            if a.kwarg is not None:
                extra.append((None, v))
                continue
            return None
        if k in pos or k in kwn:
            env[k] = v
        elif a.kwarg is not None:
            extra.append((k, v))
        else:
            return None
    if a.kwarg is not None:
        env[a.kwarg.arg] = ("dict", tuple((("c", k), v) for k, v in extra))
    missing = [n for n in pos + kwn if n not in env]
    return env, missing


def merge(c, e1, e2, vn):
    res = {}
    for k in set(e1) | set(e2):
        if k in e1 and k in e2:
            res[k] = phi(c, e1[k], e2[k])
        else:
            v = e1.get(k, e2.get(k))
            if isinstance(k, tuple):
                old = ("at", k[1], k[2])
                res[k] = phi(c, e1.get(k, old), e2.get(k, old))
            else:
                res[k] = v  # defined on one side only: use elsewhere would be an error
    return res


def _load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, "ctx"):
        t.ctx = ast.Load()
    return t


def _assigned(s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
            "append", "extend", "insert", "update", "sort", "reverse", "pop", "add", "fill"
        ):
            r = n.func.value
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript):
                        r = x
                        while isinstance(r, (ast.Subscript, ast.Attribute)):
                            r = r.value
                        if isinstance(r, ast.Name):
                            out.add(r.id)
    return out


def _has_jump(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
                return True
    return False


def _boolish(t):
    return t[0] in ("cmp", "and", "or", "not", "isinstance") or (t[0] == "c" and isinstance(t[1], bool)) or (
        t[0] == "at" and t[2].startswith(("is_", "has_"))
    ) or (t[0] == "s" and (t[1].startswith(("is_", "has_", "with_", "compute_", "lower", "upper"))))


def unstar(args):
    out = []
    for a in args:
        xs = finite(a[1]) if a[0] == "star" else None
        if xs is None:
            out.append(a)
        else:
            out.extend(xs)
    return tuple(out)


def finite(t):
    if t[0] == "call" and t[1] == "builtins.range" and not t[3] and 1 <= len(t[2]) <= 2 and all(
            x[0] == "c" and isinstance(x[1], int) for x in t[2]):
        r = range(*(x[1] for x in t[2]))
        if len(r) <= 8:
            return tuple(("c", i) for i in r)
    if t[0] == "rev":
        xs = finite(t[1])
        return None if xs is None else tuple(reversed(xs))
    if t[0] in ("tup", "list", "arr"):
        if any(x[0] == "star" for x in t[1]):
            return None
        return t[1]
    if t[0] == "call" and t[1] == "builtins.zip" and not t[3]:
        parts = [finite(x) for x in t[2]]
        if parts and all(p is not None for p in parts):
            return tuple(("tup", z) for z in zip(*parts))
    if t[0] == "call" and t[1] == "builtins.enumerate" and len(t[2]) == 1 and not t[3]:
        p = finite(t[2][0])
        if p is not None:
            return tuple(("tup", (("c", i), x)) for i, x in enumerate(p))
    return None


def rev(t):
    if t[0] == "rev":
        return t[1]
    if t[0] in ("tup", "list") and finite(t) is not None:
        return (t[0], tuple(reversed(t[1])))
    if t[0] == "map":
        return ("map", rev(t[1])) + t[2:]
    return ("rev", t)


def mkmap(seq, body, conds, lv):
    if not conds and body == ("bv", lv):
        return seq
    if seq[0] == "map" and not conds and not seq[3]:
        inner = seq[2]
        b2 = subst(body, lambda n: inner if n == ("bv", lv) else n)
        return ("map", seq[1], b2, (), lv)
    return ("map", seq, body, tuple(conds), lv)


def index(b, i):
    if b[0] == "phi":
        return phi(b[1], index(b[2], i), index(b[3], i))
    if b[0] in ("tup", "list", "arr") and i[0] == "c" and isinstance(i[1], int) and finite(b) is not None:
        try:
            return b[1][i[1]]
        except IndexError:
            pass
    if i[0] == "slice":
        if i[1] == NONE and i[2] == NONE and i[3] == ("c", -1):
            return rev(b)
        if i[1] in (NONE, ("c", 0)) and i[2] == NONE and i[3] in (NONE, ("c", 1)):
            return b
        if i[1] == ("c", 0):
            i = ("slice", NONE, i[2], i[3])
        fin = finite(b)
        if fin is not None and all(x[0] == "c" for x in i[1:]):
            return (b[0], tuple(fin[slice(*(x[1] for x in i[1:]))]))
        if b[0] == "c" and isinstance(b[1], str) and all(x[0] == "c" for x in i[1:]):
            return ("c", b[1][slice(*(x[1] for x in i[1:]))])
    if b[0] == "dict" and i[0] == "c":
        for k, v in reversed(b[1]):
            if k == i:
                return v
    if b[0] == "upd":
        if b[2] == i:
            return b[3]
        if b[2][0] == "c" and i[0] == "c":
            return index(b[1], i)
    if b[0] == "call" and b[1] == "collections.defaultdict" and len(b[2]) == 1 and i[0] == "c" and b[2][0] in (("ext", "builtins.list"), ("s", "list"), ("ext", "list")):
        return ("list", ())
    return ("idx", b, i)


def update(b, k, v):
    if b[0] == "dict" and k[0] == "c" and all(x[0][0] == "c" for x in b[1]):
        return ("dict", tuple((kk, vv) for kk, vv in b[1] if kk != k) + ((k, v),))
    if b[0] == "phi":
        return phi(b[1], update(b[2], k, v), update(b[3], k, v))
    if b[0] == "list" and k[0] == "c" and type(k[1]) is int and -len(b[1]) <= k[1] < len(b[1]):
        xs = list(b[1])
        xs[k[1]] = v
        return ("list", tuple(xs))
    if b[0] == "upd" and b[2] == k:
        return ("upd", b[1], k, v)
    if b[0] == "upd" and k[0] == "c" and b[2][0] == "c" and repr(k) < repr(b[2]):
        return ("upd", update(b[1], k, v), b[2], b[3])
    return ("upd", b, k, v)


def fold(init, acc, v, seq, lv):
    """Loop-carried value as a fold, or None."""
    if v == acc:
        return init
    if v[0] == "bin" and v[1] in ("+", "*", "@", "-"):
        if v[2] == acc and not contains(v[3], lambda n: n == acc):
            return mkfold(v[1], init, mkmap(seq, v[3], (), lv), False)
        if v[3] == acc and v[1] in ("+", "*", "@") and not contains(v[2], lambda n: n == acc):
            return mkfold(v[1], init, mkmap(seq, v[2], (), lv), True)
    if v[0] == "m" and v[2] == "solve" and v[3] == (acc,) and not contains(v[1], lambda n: n == acc):
        return mkfold("@", init, mkmap(seq, ("inv", v[1]), (), lv), True)
    if v[0] == "mut" and v[1] == "append" and v[2] == acc and init == ("list", ()) and not contains(v[3], lambda n: n == acc):
        return mkmap(seq, v[3][0], (), lv)
    if v[0] == "list" and False:
        return None
    body = subst(v, lambda n: ("acc", lv) if n == acc else n)
    if contains(body, lambda n: n[0] == "acc" and len(n) == 3):
        return None
    return ("ifold", init, seq, body, lv)


def mkfold(op, init, seq, right):
    """fold of `op` over seq starting with init; right=True: x_k op acc."""
    fin = finite(seq)
    if fin is not None:
        r = init
        for x in fin:
            r = x if r is None else (mkbin(op, x, r) if right else mkbin(op, r, x))
        return r if r is not None else ("c", 0)
    if op == "-":
        # acc - x1 - x2 ... = acc - sum
        return mkbin("-", init, mkfold("+", None, seq, False))
    if init is not None and ((op == "+" and init in (("c", 0), ("c", 0.0))) or (op == "*" and init in (("c", 1), ("c", 1.0)))):
        init = None
    if op in ("+", "*"):
        f = ("fold", op, seq if seq[0] != "rev" else seq[1])
        if seq[0] == "map" and seq[1][0] == "rev":
            f = ("fold", op, ("map", seq[1][1]) + seq[2:])
        return f if init is None else mkbin(op, init, f)
    if op == "@":
        s = rev(seq) if right else seq
        f = ("fold", "@", s)
        if init is None:
            return f
        return mkbin("@", f, init) if right else mkbin("@", init, f)
    return ("fold", op, seq, init, right)


def mkbin(op, a, b):
    if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        try:
            if op == "+":
                return ("c", a[1] + b[1])
            if op == "-":
                return ("c", a[1] - b[1])
            if op == "*":
                return ("c", a[1] * b[1])
            if op == "%" and isinstance(a[1], int) and isinstance(b[1], int):
                return ("c", a[1] % b[1])
            if op == "//" and isinstance(a[1], int) and isinstance(b[1], int):
                return ("c", a[1] // b[1])
        except Exception:
            pass
    if op == "+" and a[0] in ("tup", "list") and b[0] == a[0]:
        return (a[0], a[1] + b[1])
    if op == "*":
        for x, n in ((a, b), (b, a)):
            if x[0] in ("tup", "list") and n[0] == "c" and type(n[1]) is int and n[1] * len(x[1]) <= 16 and not any(y[0] == "star" for y in x[1]):
                return (x[0], x[1] * max(n[1], 0))
    if op == "+" and "tup" in (a[0], b[0]) and "rev" in (a[0], b[0]):
        x, y = finite(a), finite(b)
        if x is not None and y is not None:
            return ("tup", x + y)
    return ("bin", op, a, b)


# numpy functions that write their first argument
INPLACE = {"numpy.fill_diagonal", "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.put_along_axis"}


def canon_ext(d):
    for pre, new in (("scipy.linalg.", "linalg."), ("numpy.linalg.", "linalg.")):
        if d.startswith(pre):
            return new + d[len(pre):]
    return d


_FULLNAME = {"numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp",
             "math.log": "numpy.log", "numpy.power": "**", "numpy.multiply": "*", "numpy.add": "+", "numpy.subtract": "-",
             "numpy.divide": "/", "numpy.true_divide": "/", "numpy.matmul": "@", "numpy.dot": "@", "operator.matmul": "@",
             "operator.add": "+", "operator.mul": "*", "operator.sub": "-", "numpy.negative": "neg", "operator.neg": "neg",
             "operator.truediv": "/", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min"}


def ext_call(d, args, kwargs):
    d = _FULLNAME.get(d, d)
    kw = tuple(sorted(kwargs, key=lambda x: str(x[0])))
    if d in ("+", "-", "*", "/", "@", "**") and len(args) == 2:
        return mkbin(d, args[0], args[1])
    if d == "neg" and len(args) == 1:
        return ("un", "-", args[0])
    if d == "numpy.transpose" and len(args) == 1 and not kw:
        return ("T", args[0])
    if d == "builtins.reversed" and len(args) == 1:
        return rev(args[0])
    if d in ("builtins.tuple", "builtins.list", "builtins.iter") and len(args) == 1:
        a = args[0]
        if a[0] in ("tup", "list"):
            return (("tup" if d.endswith("tuple") else "list"), a[1])
        return a
    if d == "builtins.list" and not args and not kw:
        return ("list", ())
    if d == "builtins.tuple" and not args and not kw:
        return ("tup", ())
    if d == "builtins.dict" and not args:
        return ("dict", tuple((("c", k), v) for k, v in kwargs))
    if d == "builtins.sum" and args:
        return mkfold("+", args[1] if len(args) > 1 else None, args[0], False)
    if d in ("numpy.sum", "numpy.prod") and len(args) == 1 and not kw and args[0][0] in ("map", "list", "tup"):
        return mkfold("+" if d.endswith("sum") else "*", None, args[0], False)
    if d in ("math.prod",) and args:
        return mkfold("*", None, args[0], False)
    if d == "functools.reduce" and len(args) >= 2:
        fn = args[0]
        init = args[2] if len(args) > 2 else None
        if fn[0] == "ext" and _FULLNAME.get(fn[1]) in ("+", "*", "@"):
            return mkfold(_FULLNAME[fn[1]], init, args[1], False)
        return ("call", d, args, kw)
    if d in ("builtins.len",) and args and finite(args[0]) is not None:
        return ("c", len(finite(args[0])))
    if d in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum") and len(args) >= 2 and not kw:
        nm = "min" if d.endswith(("min", "minimum")) else "max"
        flat = []
        for a in args:
            if a[0] == "lat" and a[1] == nm:
                flat += a[2]
            else:
                flat.append(a)
        return ("lat", nm, tuple(sorted(set(flat), key=repr)))
    if d in ("builtins.float", "builtins.int", "numpy.asarray", "numpy.array") and len(args) == 1 and d not in ("builtins.int",):
        return args[0] if args[0][0] not in ("list", "tup", "map", "rev") or True and args[0][0] not in ("list",) else ("call", "numpy.asarray", args, ())
    return ("call", d, args, kw)


def method(base, name, args, kwargs):
    if base[0] == "phi":
        return phi(base[1], method(base[2], name, args, kwargs), method(base[3], name, args, kwargs))
    kw = tuple(sorted(kwargs, key=lambda x: str(x[0])))
    if name in ("copy",) and not args and not kw:
        return base
    if name == "copy" and not args:
        return base
    if name in ("transpose",) and not args and not kw:
        return ("T", base)
    if name == "dot" and len(args) == 1:
        return mkbin("@", base, args[0])
    if name == "inv" and not args:
        return ("inv", base)
    if name == "keys" and not args and base[0] == "dict":
        return ("tup", tuple(k for k, _ in base[1]))
    if name == "items" and not args and base[0] == "dict":
        return ("tup", tuple(("tup", kv) for kv in base[1]))
    if name == "values" and not args and base[0] == "dict":
        return ("tup", tuple(v for _, v in base[1]))
    if name == "get" and base[0] in ("dict", "upd") and args and args[0][0] == "c":
        r = index(base, args[0])
        if r[0] != "idx":
            return r
    return ("m", base, name, args, kw)
