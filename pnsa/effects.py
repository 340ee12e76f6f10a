"""Interprocedural alias and side-effect analysis (flow-sensitive, summary based).

Abstract value: which pre-existing objects an expression may *be or share memory with*
(`direct`) and which it may *contain* (`reach`), plus a light type.

origins   ("P", name)     object passed for parameter `name`
          ("self",)       the receiver
          ("S", attr)     the object stored in self.<attr>
          ("G", name)     an object that outlives calls (module/class level, memoised)
          ("U", what)     result of a user supplied callable / unknown foreign object
          (nothing)       freshly allocated
"""
from __future__ import annotations

import ast
from typing import Dict, FrozenSet, List, Optional, Set, Tuple

from .prog import ClassInfo, FuncInfo, Program

EMPTY: FrozenSet = frozenset()


class AV:
    __slots__ = ("direct", "reach", "types", "imm", "fn")

    def __init__(self, direct=EMPTY, reach=EMPTY, types=None, imm=False, fn=None):
        self.direct = frozenset(direct)
        self.reach = frozenset(reach)
        self.types = types if types is None else frozenset(types)
        self.imm = imm
        self.fn = fn  # ("func", FuncInfo) | ("bound", FuncInfo, recvAV) | ("class", ClassInfo) | ("ext", name) | ("mod", m)

    def key(self):
        return (self.direct, self.reach, self.types, self.imm)

    def __eq__(self, o):
        return isinstance(o, AV) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def all(self):
        return self.direct | self.reach

    def inner(self, types=None, imm=False):
        """Something read out of this object."""
        r = self.direct | self.reach
        return AV(r, r, types, imm)

    def __repr__(self):
        return f"AV(d={set(self.direct)}, r={set(self.reach)}, t={self.types}, imm={self.imm})"


FRESH = AV()
IMM = AV(imm=True)


def join(a: Optional[AV], b: Optional[AV]) -> AV:
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    t = None
    if a.types is not None and b.types is not None:
        t = a.types | b.types
    elif a.imm and a.types is None:
        t = b.types
    elif b.imm and b.types is None:
        t = a.types
    fn = a.fn if a.fn == b.fn else (a.fn or b.fn)
    return AV(a.direct | b.direct, a.reach | b.reach, t, a.imm and b.imm, fn)


class Effect:
    """One side effect.  kind: 'content' (in-place change of the object's contents),
    'attr' (rebinding of an attribute)."""

    __slots__ = ("kind", "origin", "attr", "why", "func", "line", "via")

    def __init__(self, kind, origin, attr, why, func, line, via=()):
        self.kind, self.origin, self.attr = kind, origin, attr
        self.why, self.func, self.line, self.via = why, func, line, via

    def key(self):
        return (self.kind, self.origin, self.attr)

    def __repr__(self):
        return f"<{self.kind} {self.origin} {self.attr or ''} {self.why} @{self.func.qual}:{self.line} via {[v for v in self.via]}>"


class Summary:
    def __init__(self):
        self.effects: Dict[Tuple, Effect] = {}
        self.ret: Optional[AV] = None
        self.captures: Set[str] = set()  # params stored into self by this function
        self.attr_store: Dict[str, AV] = {}
        self.captured: Dict[Tuple, Effect] = {}  # effects of a closure on captured objects

    def sig(self):
        return (
            frozenset(self.effects),
            self.ret.key() if self.ret else None,
            frozenset(self.captures),
            tuple(sorted((k, hash(v)) for k, v in self.attr_store.items())),
        )


VIEW_FUNCS = {
    "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asarray_chkfinite",
    "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose",
    "swapaxes", "moveaxis", "rollaxis", "expand_dims", "broadcast_to", "broadcast_arrays",
    "diagonal", "diag", "real", "imag", "flip", "fliplr", "flipud", "rot90", "split",
    "hsplit", "vsplit", "dsplit", "array_split", "require", "real_if_close",
    "matrix_transpose", "as_strided", "sliding_window_view", "asmatrix",
}
VIEW_METHODS = {
    "reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal",
    "__array__", "newbyteorder", "asformat", "tocsr", "tocsc", "tocoo", "asfptype",
}
VIEW_ATTRS = {"T", "real", "imag", "flat", "data", "base", "mT"}
IMM_ATTRS = {
    "shape", "ndim", "size", "dtype", "nbytes", "itemsize", "__name__", "__class__",
    "__module__", "__doc__", "input_shape", "output_shape", "input_ndim", "output_ndim",
    "input_dim", "output_dim",
}
ND_MUTATORS = {
    "sort", "fill", "put", "itemset", "resize", "partition", "setfield", "byteswap",
    "sort_indices", "eliminate_zeros", "sum_duplicates", "setdiag", "prune",
    "__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__ipow__",
    "__imatmul__", "__setitem__", "__delitem__",
}
LIST_MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "appendleft", "popleft"}
DICT_MUTATORS = {"update", "setdefault", "popitem", "add", "discard", "__setitem__",
                 "intersection_update", "difference_update", "symmetric_difference_update"}
MUTATORS = ND_MUTATORS | LIST_MUTATORS | DICT_MUTATORS
# external functions that write into the argument at the given position
EXT_MUTATES = {
    "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0,
    "numpy.putmask": 0, "numpy.put_along_axis": 0, "numpy.random.shuffle": 0,
    "operator.iadd": 0, "operator.isub": 0, "operator.imul": 0, "operator.itruediv": 0,
    "operator.imatmul": 0, "operator.ipow": 0, "operator.setitem": 0, "operator.delitem": 0,
    "heapq.heappush": 0, "heapq.heapify": 0, "random.shuffle": 0, "bisect.insort": 0,
}
UFUNCS2 = {"add", "subtract", "multiply", "divide", "true_divide", "matmul", "dot", "power",
           "maximum", "minimum", "fmax", "fmin", "floor_divide", "mod", "remainder", "arctan2", "hypot"}
UFUNCS1 = {"negative", "sqrt", "exp", "log", "abs", "absolute", "square", "sin", "cos", "tan",
           "conjugate", "sign", "reciprocal", "log1p", "expm1", "floor", "ceil", "positive"}
# classes whose instances do not define in-place operators: `x += y` rebinds
IMM_EXT_TYPES = {
    "ext:builtins.int", "ext:builtins.float", "ext:builtins.bool", "ext:builtins.str",
    "ext:builtins.tuple", "ext:builtins.complex", "ext:numpy.floating", "ext:numpy.integer",
    "ext:shape", "ext:dtype", "ext:numpy.dtype", "none", "ext:builtins.bytes",
    "ext:numbers.Integral", "ext:numbers.Real", "ext:numpy.intp", "ext:numpy.number",
    "ext:numpy.inexact", "ext:numpy.float_", "ext:numpy.double",
}


# conventional names of scalar arguments, used for parameters without annotation
SCALAR_NAMES = {
    "t", "dt", "t0", "t1", "tmax", "t_old", "t_new", "start", "stop", "step", "h", "n", "k",
    "i", "j", "idx", "iteration", "ordint", "ord", "spatialdim", "p", "q", "num", "eps", "tol",
    "atol", "rtol", "maxiter", "nu", "alpha", "dim", "axis", "ndim", "lower",
}


class Effects:
    def __init__(self, prog: Program, user_callable_taint=True):
        self.p = prog
        self.summ: Dict[FuncInfo, Summary] = {}
        self.attr_types: Dict[Tuple[ClassInfo, str], AV] = {}
        self.attr_direct: Dict[Tuple[ClassInfo, str], set] = {}  # parameters stored without a copy
        self.changed = True
        self.ncalls = 0
        self.nresolved = 0
        self.callees: Dict[FuncInfo, Set[FuncInfo]] = {}
        self.sites: Dict[int, Set[FuncInfo]] = {}  # id(Call node) -> possible callees
        self.stats = {}
        self.run()

    # ------------------------------------------------------------------ driver
    def run(self):
        order = list(self.p.funcs)
        for f in order:
            self.summ[f] = Summary()
        for it in range(12):
            self.changed = False
            self.ncalls = self.nresolved = 0
            for f in order:
                if f.parent is not None:
                    continue  # nested functions are analysed with their parent
                old = self.summ[f].sig()
                a = FuncAnalysis(self, f)
                a.run()
                self.summ[f] = a.s
                if a.s.sig() != old:
                    self.changed = True
            if not self.changed:
                break
        self.stats["iterations"] = it + 1
        self.stats["calls"] = self.ncalls
        self.stats["resolved_calls"] = self.nresolved

    # ------------------------------------------------------------- class attrs
    def note_attr(self, cls: ClassInfo, attr: str, av: AV):
        k = (cls, attr)
        self.attr_direct.setdefault(k, set()).update(o for o in av.direct if o[0] == "P")
        old = self.attr_types.get(k)
        # store only type and whether it may alias something that is not fresh
        d = frozenset(o for o in av.all() if o[0] in ("P", "U", "G"))
        new = AV(d, d, av.types, av.imm)
        if old is not None:
            j = join(old, new)
        else:
            j = new
        if old is None or j.key() != old.key():
            self.attr_types[k] = j
            self.changed = True

    def attr_av(self, cls: ClassInfo, attr: str) -> Optional[AV]:
        res = None
        for c in cls.mro():
            if (c, attr) in self.attr_types:
                res = join(res, self.attr_types[(c, attr)])
        if res is None:
            for c in cls.all_subclasses(False):
                if (c, attr) in self.attr_types:
                    res = join(res, self.attr_types[(c, attr)])
        return res

    def dispatch(self, cls: ClassInfo, name: str) -> List[FuncInfo]:
        res = []
        f = cls.find(name)
        if f is not None:
            res.append(f)
        for s in cls.all_subclasses(False):
            if name in s.methods and s.methods[name] not in res:
                res.append(s.methods[name])
        return res


class FuncAnalysis:
    def __init__(self, eff: Effects, f: FuncInfo, env=None, owner=None):
        self.e = eff
        self.p = eff.p
        self.f = f
        self.owner: FuncAnalysis = owner or self  # analysis whose summary receives effects
        self.s = Summary() if owner is None else owner.s
        self.rets: List[AV] = []
        self.env: Dict[str, AV] = env if env is not None else {}
        self.cls = f.encl_cls

    # ------------------------------------------------------------------- entry
    def run(self):
        f = self.f
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(self.env)
        for i, n in enumerate(names):
            if i == 0 and f.is_method:
                if f.is_classmethod:
                    env[n] = AV(fn=("class", f.cls))
                else:
                    env[n] = AV({("self",)}, {("self",)}, {f.cls})
                continue
            env[n] = self.param_av(n)
        for x in a.kwonlyargs:
            env[x.arg] = self.param_av(x.arg)
        if a.vararg:
            o = {("P", "*" + a.vararg.arg)}
            env[a.vararg.arg] = AV(EMPTY, o, {"ext:builtins.tuple"})
        if a.kwarg:
            o = {("P", "**" + a.kwarg.arg)}
            env[a.kwarg.arg] = AV(EMPTY, o, {"ext:builtins.dict"})
        for n, d in f.defaults().items():
            if n in env and isinstance(
                d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)
            ):
                g = ("G", f"default value of parameter {n} of {f.qual}")
                env[n] = join(env[n], AV({g}, {g}, env[n].types))
        self.env = env
        self.block(f.body())
        r = None
        for x in self.rets:
            r = join(r, x)
        ann = getattr(f.node, "returns", None)
        if r is not None and r.types is None and not r.imm and ann is not None:
            t = self.p.ann_types(ann, f.module, f)
            if t is not None:
                r = AV(r.direct, r.reach, t, t <= IMM_EXT_TYPES, r.fn)
        if r is None and f.is_abstract and ann is not None:
            t = self.p.ann_types(ann, f.module, f)
            r = AV({("U", "abstract")}, {("U", "abstract")}, t, bool(t) and t <= IMM_EXT_TYPES)
        self.s.ret = r
        return r

    def param_av(self, n) -> AV:
        ann = self.f.annotation(n)
        t = self.p.ann_types(ann, self.f.module, self.f)
        d = self.f.defaults().get(n)
        imm = t is not None and t <= IMM_EXT_TYPES
        if t is None and isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool)) and d.value is not None:
            imm = True
        if t is None and ann is None and (n in SCALAR_NAMES or n.startswith(("num_", "n_", "max_", "min_"))):
            imm = True
        o = {("P", n)}
        if imm:
            return AV(EMPTY, EMPTY, t, True)
        fn = ("param", n) if t is not None and t <= {"ext:typing.Callable", "none"} else None
        return AV(o, o, t, False, fn)

    # ----------------------------------------------------------------- effects
    def effect(self, kind, av_or_origins, attr, why, line):
        origins = av_or_origins.direct if isinstance(av_or_origins, AV) else av_or_origins
        for o in origins:
            ef = Effect(kind, o, attr, why, self.f, line)
            self.owner.s.effects.setdefault(ef.key(), ef)

    def content(self, av: AV, why, line):
        if av.imm:
            return
        self.effect("content", av, None, why, line)

    # -------------------------------------------------------------- statements
    def block(self, stmts) -> bool:
        """Returns True when the end of the block is reachable."""
        for s in stmts:
            if not self.stmt(s):
                return False
        return True

    def branch(self, env, stmts):
        save = self.env
        self.env = dict(env)
        alive = self.block(stmts)
        out = self.env
        self.env = save
        return alive, out

    @staticmethod
    def join_env(envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return {}
        res = dict(envs[0])
        for e in envs[1:]:
            for k, v in e.items():
                res[k] = join(res.get(k), v)
        return res

    def stmt(self, s) -> bool:
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return True
        r = m(s)
        return True if r is None else r

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else IMM
        self.rets.append(v)
        return False

    def s_Raise(self, s):
        if s.exc:
            self.ev(s.exc)
        return False

    def s_Continue(self, s):
        if getattr(self, "loop_envs", None):
            self.loop_envs[-1].append(dict(self.env))
        return False

    s_Break = s_Continue

    def s_Pass(self, s):
        return True

    def s_Assert(self, s):
        self.ev(s.test)

    def s_Global(self, s):
        return True

    def s_Nonlocal(self, s):
        return True

    def s_Import(self, s):
        return True

    s_ImportFrom = s_Import

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            if v.types is None and not v.imm:
                t = self.p.ann_types(s.annotation, self.f.module, self.f)
                v = AV(v.direct, v.reach, t, v.imm, v.fn)
            self.assign(s.target, v, s, s.value)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t)
            if self.inplace_possible(cur, v):
                self.content(cur, f"in-place operator {op} on `{t.id}`", s.lineno)
                self.env[t.id] = AV(cur.direct, cur.reach | v.all(), cur.types, False)
            else:
                tt = cur.types if cur.types is not None else None
                self.env[t.id] = AV(EMPTY, EMPTY, tt, cur.imm and v.imm)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.content(base, f"in-place operator {op} on item of `{ast.unparse(t.value)}`", s.lineno)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.ev(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=s.lineno, col_offset=0))
            self.store_attr(base, t.attr, v if cur.imm else AV(cur.direct, cur.reach, cur.types), s.lineno, t)
            if self.inplace_possible(cur, v) and not cur.imm:
                self.content(cur, f"in-place operator {op} on `{ast.unparse(t)}`", s.lineno)

    def inplace_possible(self, cur: AV, v: AV) -> bool:
        if cur.imm:
            return False
        if v.types is not None and v.types <= {"ext:builtins.str", "ext:builtins.bytes"}:
            return False  # the left operand is an (immutable) string
        if cur.types is not None:
            for t in cur.types:
                if isinstance(t, ClassInfo):
                    continue  # no probnum class defines in-place operators (checked)
                if t in IMM_EXT_TYPES:
                    continue
                return True
            return False
        return True

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.content(self.ev(t.value), "del item", s.lineno)
            elif isinstance(t, ast.Attribute):
                self.store_attr(self.ev(t.value), t.attr, FRESH, s.lineno, t)

    def narrow(self, test, env, truth):
        """isinstance / is None narrowing of types."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and truth or isinstance(test.op, ast.Or) and not truth:
                for v in test.values:
                    env = self.narrow(v, env, truth)
            return env
        if (
            isinstance(test, ast.Call)
            and isinstance(test.func, ast.Name)
            and test.func.id == "isinstance"
            and len(test.args) == 2
            and isinstance(test.args[0], ast.Name)
        ):
            n = test.args[0].id
            if n in env:
                ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
                tset = set()
                for t in ts:
                    a = self.p.ann_types(t, self.f.module, self.f)
                    if a is None:
                        return env
                    tset |= a
                old = env[n]
                env = dict(env)
                if truth:
                    env[n] = AV(old.direct, old.reach, tset, tset <= IMM_EXT_TYPES, old.fn)
                elif old.types is not None:
                    rest = frozenset(
                        x for x in old.types
                        if not (x in tset or isinstance(x, ClassInfo) and any(isinstance(y, ClassInfo) and x.is_subclass_of(y) for y in tset))
                    )
                    if rest:
                        env[n] = AV(old.direct, old.reach, rest, rest <= IMM_EXT_TYPES, old.fn)
            return env
        if (
            isinstance(test, ast.Call)
            and ast.unparse(test.func) in ("np.isscalar", "numpy.isscalar")
            and len(test.args) == 1
            and isinstance(test.args[0], ast.Name)
            and truth
            and test.args[0].id in env
        ):
            env = dict(env)
            env[test.args[0].id] = AV(types={"ext:builtins.float"}, imm=True)
            return env
        if (
            isinstance(test, ast.Compare)
            and isinstance(test.left, ast.Name)
            and len(test.ops) == 1
            and isinstance(test.comparators[0], ast.Constant)
            and test.comparators[0].value is None
        ):
            n = test.left.id
            isnone = isinstance(test.ops[0], ast.Is) == truth
            if n in env and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                env = dict(env)
                old = env[n]
                if isnone:
                    env[n] = IMM
                elif old.types is not None:
                    rest = old.types - {"none"}
                    env[n] = AV(old.direct, old.reach, rest, bool(rest) and rest <= IMM_EXT_TYPES, old.fn)
            return env
        return env

    def s_If(self, s):
        self.ev(s.test)
        a1, e1 = self.branch(self.narrow(s.test, self.env, True), s.body)
        a2, e2 = self.branch(self.narrow(s.test, self.env, False), s.orelse)
        if a1 and a2:
            self.env = self.join_env([e1, e2])
        elif a1:
            self.env = e1
        elif a2:
            self.env = e2
        else:
            return False
        return True

    def loop(self, body, pre, orelse):
        if not hasattr(self, "loop_envs"):
            self.loop_envs = []
        for _ in range(3):
            before = dict(self.env)
            self.loop_envs.append([])
            pre()
            alive, out = self.branch(self.env, body)
            outs = self.loop_envs.pop()
            self.env = self.join_env([before, out if alive else None, self.env] + outs)
            if all(before.get(k) == v for k, v in self.env.items()):
                break
        if orelse:
            self.block(orelse)
        return True

    def s_For(self, s):
        it = self.ev(s.iter)

        def pre():
            self.assign(s.target, self.iter_elem(s.iter, it), s, None)

        return self.loop(s.body, pre, s.orelse)

    def iter_elem(self, node, it: AV) -> AV:
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            if node.func.id == "range":
                return IMM
            if node.func.id == "enumerate" and node.args:
                x = self.ev(node.args[0])
                return AV(EMPTY, x.all(), {"ext:builtins.tuple"})
        return self.elem(it)

    def elem(self, it: AV) -> AV:
        if it.imm:
            return IMM
        return it.inner()

    def s_While(self, s):
        self.ev(s.test)
        self.loop(s.body, lambda: self.ev(s.test), s.orelse)
        if isinstance(s.test, ast.Constant) and s.test.value and not any(
            isinstance(n, ast.Break) for n in ast.walk(s)
        ):
            return False
        return True

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s, None)
        return self.block(s.body)

    def s_Try(self, s):
        env0 = dict(self.env)
        alive, out = self.branch(self.env, s.body)
        envs = []
        if alive:
            save = self.env
            self.env = out
            alive = self.block(s.orelse)
            out = self.env
            self.env = save
        if alive:
            envs.append(out)
        mid = self.join_env([env0, out])
        for h in s.handlers:
            e = dict(mid)
            if h.name:
                e[h.name] = FRESH
            a, o = self.branch(e, h.body)
            if a:
                envs.append(o)
        if not envs:
            if s.finalbody:
                self.branch(mid, s.finalbody)
            return False
        self.env = self.join_env(envs)
        if s.finalbody:
            return self.block(s.finalbody)
        return True

    def s_FunctionDef(self, s):
        fi = self.p.func_of_node.get(id(s))
        self.env[s.name] = AV(fn=("func", fi) if fi else None, types={"ext:typing.Callable"})
        if fi:
            self.owner_nested().append(fi)
            self.analyse_nested(fi)

    s_AsyncFunctionDef = s_FunctionDef

    def owner_nested(self):
        if not hasattr(self.owner, "_nested"):
            self.owner._nested = []
        return self.owner._nested

    def analyse_nested(self, fi: FuncInfo) -> Summary:
        """Nested functions: analysed in the environment of the definition point; effects
        on captured objects are effects of the enclosing function, effects on the nested
        function's own parameters form its summary."""
        sub = FuncAnalysis(self.e, fi, env=dict(self.env))
        sub.cls = self.cls
        sub.run()
        own = {("P", n) for n in fi.params(drop_self=False)} | {
            ("P", "*" + fi.node.args.vararg.arg) if fi.node.args.vararg else None,
            ("P", "**" + fi.node.args.kwarg.arg) if fi.node.args.kwarg else None,
        }
        keep = Summary()
        keep.ret = sub.s.ret
        for k, ef in sub.s.effects.items():
            if ef.origin in own:
                keep.effects[k] = ef
            else:
                self.owner.s.effects.setdefault(k, ef)
                keep.captured[k] = ef
        self.e.summ[fi] = keep
        return keep

    def s_ClassDef(self, s):
        return True

    # -------------------------------------------------------------- assignment
    def assign(self, t, v: AV, s, valnode):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            if self.declared_global(t.id):
                g = ("G", f"{self.f.module.name}.{t.id}")
                self.effect("content", {g}, None, f"global {t.id} rebound", s.lineno)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = None
            if isinstance(valnode, (ast.Tuple, ast.List)) and len(valnode.elts) == len(t.elts):
                elts = [self.ev(x) for x in valnode.elts]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, elts[i] if elts else self.elem(v), s, None)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.content(base, f"item assignment on `{ast.unparse(t.value)}`", s.lineno)
            if isinstance(t.value, ast.Name) and t.value.id in self.env:
                b = self.env[t.value.id]
                self.env[t.value.id] = AV(b.direct, b.reach | v.all(), b.types, b.imm, b.fn)
            elif isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name):
                rb = self.lookup(t.value.value)
                if ("self",) in rb.direct and self.cls is not None and not base.imm:
                    cur = self.e.attr_types.get((self.cls, t.value.attr))
                    ty = cur.types if cur else None
                    self.e.note_attr(self.cls, t.value.attr, AV(EMPTY, EMPTY, ty))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.store_attr(base, t.attr, v, s.lineno, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s, None)

    def declared_global(self, n):
        d = getattr(self, "_globals", None)
        if d is None:
            d = set()
            body = self.f.node.body if not isinstance(self.f.node, ast.Lambda) else []
            for x in body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Global):
                        d |= set(y.names)
            self._globals = d
        return n in d

    def store_attr(self, base: AV, attr, v: AV, line, node):
        # property setters
        setters = []
        if base.types is not None:
            for t in base.types:
                if isinstance(t, ClassInfo):
                    st = t.find_setter(attr)
                    if st is not None:
                        setters.append(st)
        tg = base.direct if not setters else {o for o in base.direct if o[0] == "P"}
        self.effect("attr", tg, attr, f"attribute `{ast.unparse(node)}` rebound", line)
        if base.fn is not None and base.fn[0] in ("class", "mod", "func"):
            nm = base.fn[1].qual if base.fn[0] != "mod" else base.fn[1].name
            self.effect("attr", {("G", nm)}, attr, f"attribute of {nm} rebound", line)
        if setters:
            for st in setters:
                self.apply_call(st, base, [v], {}, line)
        if ("self",) in base.direct and self.cls is not None:
            a = self.cls.mangle(attr)
            self.e.note_attr(self.cls, a, v)
            for o in v.all():
                if o[0] == "P":
                    self.owner.s.captures.add(o[1])
            self.owner.s.attr_store[a] = join(self.owner.s.attr_store.get(a), v)
            # flow-sensitive view of own attribute
            self.env["self." + a] = v
        elif base.types is not None and isinstance(node.value, ast.Name):
            for t in base.types:
                if isinstance(t, ClassInfo):
                    self.e.note_attr(t, attr, AV(EMPTY, EMPTY, v.types, v.imm) if not v.all() else AV({("U", "stored")}, {("U", "stored")}, v.types, v.imm))
            b = self.env.get(node.value.id)
            if b is not None:
                self.env[node.value.id] = AV(b.direct, b.reach | v.all(), b.types, b.imm, b.fn)

    # ------------------------------------------------------------- expressions
    def lookup(self, node: ast.Name) -> AV:
        n = node.id
        if n in self.env:
            return self.env[n]
        r = self.p.resolve_expr(node, self.f.module, self.f)
        return self.entity(r, n)

    def entity(self, r, n) -> AV:
        if r is None:
            return AV({("U", n)}, {("U", n)})
        if r[0] == "class":
            return AV(fn=r, types={"ext:typing.Type"})
        if r[0] == "func":
            return AV(fn=r, types={"ext:typing.Callable"})
        if r[0] == "mod":
            return AV(fn=r)
        if r[0] == "ext":
            return AV(fn=r)
        if r[0] == "global":
            v = r[1].assigns.get(r[2])
            if isinstance(v, ast.Constant) or isinstance(v, (ast.BinOp, ast.UnaryOp)):
                return IMM
            g = ("G", f"{r[1].name}.{r[2]}")
            types = None
            if isinstance(v, ast.Call):
                c = self.p.resolve_expr(v.func, r[1])
                if c and c[0] == "class":
                    types = {c[1]}
            elif isinstance(v, (ast.Dict,)):
                types = {"ext:builtins.dict"}
            return AV({g}, {g}, types)
        if r[0] == "classattr":
            g = ("G", f"{r[1].qual}.{r[2]}")
            return AV({g}, {g})
        return AV({("U", n)}, {("U", n)})

    def ev(self, n) -> AV:
        if n is None:
            return IMM
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def e_Constant(self, n):
        t = type(n.value).__name__
        return AV(types={"none"} if n.value is None else {"ext:builtins." + t}, imm=True)

    def e_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return AV(types={"ext:builtins.str"}, imm=True)

    def e_Name(self, n):
        return self.lookup(n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.env[n.target.id] = v
        return v

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Lambda(self, n):
        fi = self.p.func_of_node.get(id(n))
        if fi is None:
            fi = FuncInfo(n, self.f.module, None, self.f)
            fi.encl_cls = self.cls
            self.p.func_of_node[id(n)] = fi
        self.analyse_nested(fi)
        return AV(fn=("func", fi), types={"ext:typing.Callable"})

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        types = None
        imm = a.imm and b.imm
        ts = set()
        for x in (a, b):
            if x.types:
                ts |= {t for t in x.types if isinstance(t, ClassInfo)}
        if ts:
            types = frozenset(ts)
            if "ext:numpy.ndarray" in (a.types or ()) or "ext:numpy.ndarray" in (b.types or ()) or a.types is None or b.types is None:
                types = None
        elif imm:
            types = (a.types or frozenset()) | (b.types or frozenset()) or None
        return AV(EMPTY, EMPTY, types, imm)

    def e_UnaryOp(self, n):
        a = self.ev(n.operand)
        return AV(EMPTY, EMPTY, a.types, a.imm or isinstance(n.op, ast.Not))

    def e_BoolOp(self, n):
        r = None
        for v in n.values:
            r = join(r, self.ev(v))
        return r

    def e_Compare(self, n):
        self.ev(n.left)
        for c in n.comparators:
            self.ev(c)
        return FRESH

    def e_IfExp(self, n):
        self.ev(n.test)
        save = self.env
        self.env = self.narrow(n.test, save, True)
        a = self.ev(n.body)
        self.env = self.narrow(n.test, save, False)
        b = self.ev(n.orelse)
        self.env = save
        return join(a, b)

    def coll(self, elts, t):
        r = EMPTY
        for e in elts:
            if e is None:
                continue
            r = r | self.ev(e).all()
        return AV(EMPTY, r, {t})

    def e_List(self, n):
        return self.coll(n.elts, "ext:builtins.list")

    def e_Tuple(self, n):
        return self.coll(n.elts, "ext:builtins.tuple")

    def e_Set(self, n):
        return self.coll(n.elts, "ext:builtins.set")

    def e_Dict(self, n):
        return self.coll(list(n.values), "ext:builtins.dict")

    def comp(self, n, elts, t):
        save = dict(self.env)
        for g in n.generators:
            it = self.ev(g.iter)
            self.assign(g.target, self.iter_elem(g.iter, it), n, None)
            for c in g.ifs:
                self.ev(c)
        r = self.coll(elts, t)
        self.env = save
        return r

    def e_ListComp(self, n):
        return self.comp(n, [n.elt], "ext:builtins.list")

    def e_SetComp(self, n):
        return self.comp(n, [n.elt], "ext:builtins.set")

    def e_GeneratorExp(self, n):
        return self.comp(n, [n.elt], "ext:typing.Iterator")

    def e_DictComp(self, n):
        return self.comp(n, [n.value], "ext:builtins.dict")

    def e_Subscript(self, n):
        b = self.ev(n.value)
        self.ev(n.slice)
        if b.imm:
            return IMM
        if b.types == frozenset({"ext:builtins.tuple"}) and not b.all():
            return FRESH
        if isinstance(n.value, ast.Attribute) and n.value.attr == "shape":
            return IMM
        if b.types == frozenset({"ext:numpy.vector"}) and not any(
            isinstance(x, (ast.Slice, ast.Tuple, ast.List, ast.Compare)) or isinstance(x, ast.Constant) and x.value in (None, Ellipsis)
            for x in [n.slice]
        ):
            return IMM  # entry of a one-dimensional array
        # probnum classes with __getitem__
        if b.types and all(isinstance(t, ClassInfo) for t in b.types):
            r = None
            for t in b.types:
                for g in self.e.dispatch(t, "__getitem__"):
                    r = join(r, self.apply_call(g, b, [FRESH], {}, n.lineno))
            if r is not None:
                return r
        if self.advanced_index(n.slice):
            return AV(EMPTY, EMPTY, b.types if b.types == frozenset({"ext:numpy.ndarray"}) else None)
        types = None
        if b.types == frozenset({"ext:numpy.ndarray"}):
            types = b.types
        r = b.inner(types)
        if not b.direct and b.types == frozenset({"ext:numpy.ndarray"}):
            r = AV(EMPTY, EMPTY, types)
        return r

    @staticmethod
    def advanced_index(sl):
        # boolean / integer-array indices copy; recognise list literals and comparisons
        els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        return any(isinstance(e, (ast.List, ast.Compare)) for e in els)

    def e_Slice(self, n):
        for c in (n.lower, n.upper, n.step):
            if c is not None:
                self.ev(c)
        return IMM

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else IMM
        self.rets.append(AV(EMPTY, v.all(), {"ext:typing.Iterator"}))
        return FRESH

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        self.rets.append(AV(EMPTY, v.all(), {"ext:typing.Iterator"}))
        return FRESH

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Attribute(self, n):
        base = self.ev(n.value)
        return self.get_attr(base, n.attr, n)

    def get_attr(self, base: AV, attr, n) -> AV:
        if base.fn is not None:
            k = base.fn[0]
            if k == "mod":
                return self.entity(self.p.module_attr(base.fn[1], attr), attr)
            if k == "ext":
                return AV(fn=("ext", base.fn[1] + "." + attr))
            if k == "class":
                m = base.fn[1].find(attr)
                if m is not None:
                    return AV(fn=("func", m), types={"ext:typing.Callable"})
                q = f"{base.fn[1].qual}.{attr}"
                if q in self.p.class_by_qual:
                    return AV(fn=("class", self.p.class_by_qual[q]))
                g = ("G", q)
                for c in base.fn[1].mro():
                    if attr in c.class_attrs:
                        if isinstance(c.class_attrs[attr], ast.Constant):
                            return IMM
                        return AV({g}, {g})
                return IMM
            if k == "super":
                cls = base.fn[1]
                for c in cls.mro()[1:]:
                    if attr in c.methods:
                        m = c.methods[attr]
                        recv = self.self_av()
                        if m.is_property:
                            return self.apply_call(m, recv, [], {}, n.lineno)
                        return AV(fn=("bound", m, recv, True))
                return AV(fn=("ext", "builtins.object." + attr))
        if attr in IMM_ATTRS and not (base.types and any(isinstance(t, ClassInfo) for t in base.types)):
            return IMM
        cls_types = [t for t in (base.types or ()) if isinstance(t, ClassInfo)]
        if cls_types:
            res = None
            for t in cls_types:
                a = t.mangle(attr) if self.cls is not None and attr.startswith("__") else attr
                if self.cls is not None and attr.startswith("__") and not attr.endswith("__"):
                    a = self.cls.mangle(attr)
                ms = self.e.dispatch(t, attr)
                props = [m for m in ms if m.is_property]
                if props:
                    for m in props:
                        r = self.apply_call(m, base, [], {}, n.lineno)
                        if m.is_cached_property and r is not None:
                            # the memoised object lives as long as the receiver
                            r = AV(r.direct | self.as_state(base, a), r.reach | self.as_state(base, a), r.types, r.imm, r.fn)
                        res = join(res, r)
                    continue
                if ms:
                    res = join(res, AV(fn=("boundset", tuple(ms), base), types={"ext:typing.Callable"}))
                    continue
                if ("self",) in base.direct and "self." + a in self.env:
                    v = self.env["self." + a]
                    st = self.as_state(base, a)
                    res = join(res, AV(v.direct | (st if not v.imm else EMPTY), v.reach | (st if not v.imm else EMPTY), v.types, v.imm, v.fn))
                    continue
                av = self.e.attr_av(t, a)
                ann = None
                for c in t.mro():
                    if a in c.class_ann:
                        ann = self.p.ann_types(c.class_ann[a], c.module)
                        break
                st = self.as_state(base, a)
                if av is not None:
                    # stored user supplied callables stay foreign
                    extra = frozenset(o for o in av.all() if o[0] == "G")
                    types = av.types if av.types is not None else ann
                    imm = av.imm
                    fn = ("stored", a) if types and types <= {"ext:typing.Callable", "none"} else None
                    res = join(res, AV(EMPTY if imm else st | extra, EMPTY if imm else st | extra, types, imm, fn))
                else:
                    ca = None
                    for c in t.mro():
                        if a in c.class_attrs:
                            ca = c
                            break
                    if ca is not None and isinstance(ca.class_attrs[a], ast.Constant) and ann is None:
                        res = join(res, IMM)
                    elif ca is not None and not t.is_dataclass:
                        g = ("G", f"{ca.qual}.{a}")
                        res = join(res, AV({g}, {g}))
                    else:
                        imm = ann is not None and ann <= IMM_EXT_TYPES
                        res = join(res, AV(EMPTY if imm else st, EMPTY if imm else st, ann, imm))
            if res is not None:
                return res
        if attr in VIEW_ATTRS:
            return AV(base.direct, base.reach, base.types if base.types == frozenset({"ext:numpy.ndarray"}) else None, base.imm)
        if base.imm:
            return AV(imm=True, fn=("immattr", attr))
        # unknown receiver type: maybe a property of a probnum class by that name
        if base.types is None and attr in self.p.by_method and not attr.startswith("__"):
            ms = self.p.by_method[attr]
            props = [m for m in ms if m.is_property]
            if props and len(props) == len(ms):
                t = None
                first = True
                imm = True
                for m in props:
                    at = self.p.ann_types(getattr(m.node, "returns", None), m.module, m)
                    if first:
                        t = at
                        first = False
                    else:
                        t = None if t is None or at is None else t | at
                imm = t is not None and t <= IMM_EXT_TYPES
                return AV(EMPTY if imm else base.all(), EMPTY if imm else base.all(), t, imm)
        if attr in IMM_ATTRS:
            return IMM
        r = base.inner()
        r.fn = ("meth", attr, base)
        return r

    def self_av(self):
        sn = None
        f = self.f
        while f is not None:
            if f.self_name:
                sn = f.self_name
                break
            f = f.parent
        if sn and sn in self.env:
            return self.env[sn]
        return AV({("self",)}, {("self",)}, {self.cls} if self.cls else None)

    def as_state(self, base: AV, attr) -> FrozenSet:
        """Origins of the object stored in attribute `attr` of `base`."""
        res = set()
        for o in base.all():
            if o[0] == "self":
                res.add(("S", attr))
            else:
                res.add(o)
        return frozenset(res)

    # ------------------------------------------------------------------- calls
    def e_Call(self, n):
        self.e.ncalls += 1
        fn_node = n.func
        # super()
        if isinstance(fn_node, ast.Name) and fn_node.id == "super" and self.cls is not None:
            return AV(fn=("super", self.cls))
        args = []
        star = EMPTY
        for a in n.args:
            if isinstance(a, ast.Starred):
                star = star | self.ev(a.value).all()
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                star = star | v.all()
            else:
                kw[k.arg] = v
        fv = self.ev(fn_node)
        for k in n.keywords:
            if k.arg and k.arg.startswith("overwrite_") and not (isinstance(k.value, ast.Constant) and not k.value.value):
                nm = k.arg[len("overwrite_"):]
                tail = ast.unparse(fn_node).split(".")[-1]
                pos = {"a": 0, "x": 0, "data": 0, "input": 0, "b": 1, "ab": 1, "c": 0}.get(nm, 0)
                if nm == "c" and tail.startswith("cho"):
                    pos = 0
                tgt = args[pos] if len(args) > pos else kw.get(nm, kw.get("a"))
                if tgt is not None and not tgt.imm:
                    self.effect("content", tgt.direct or tgt.reach, None, f"{k.arg} in {ast.unparse(fn_node)}()", n.lineno)
        if "out" in kw and fv.fn is None:
            self.content(kw["out"], f"`out=` of {ast.unparse(fn_node)}()", n.lineno)
        prev = getattr(self, "_site", None)
        self._site = n
        try:
            return self.call_value(fv, n, args, kw, star)
        finally:
            self._site = prev

    def call_value(self, fv: AV, n, args, kw, star=EMPTY) -> AV:
        line = n.lineno
        fn = fv.fn
        if fn is None:
            self.e.nresolved += 0
            # calling an unknown object: user supplied callable
            if fv.types and any(isinstance(t, ClassInfo) for t in fv.types):
                res = None
                for t in fv.types:
                    if isinstance(t, ClassInfo):
                        for m in self.e.dispatch(t, "__call__"):
                            self.e.nresolved += 1
                            res = join(res, self.apply_call(m, fv, args, kw, line, star))
                if res is not None:
                    return res
            return AV({("U", ast.unparse(n.func)[:40])}, {("U", ast.unparse(n.func)[:40])})
        k = fn[0]
        if k == "func":
            self.e.nresolved += 1
            f = fn[1]
            if f.is_method and not f.is_static and not f.is_classmethod and args:
                return self.apply_call(f, args[0], args[1:], kw, line, star)
            return self.apply_call(f, None, args, kw, line, star)
        if k == "bound":
            self.e.nresolved += 1
            return self.apply_call(fn[1], fn[2], args, kw, line, star)
        if k == "boundset":
            self.e.nresolved += 1
            res = None
            for m in fn[1]:
                res = join(res, self.apply_call(m, fn[2], args, kw, line, star))
            return res if res is not None else FRESH
        if k == "class":
            self.e.nresolved += 1
            return self.construct(fn[1], args, kw, line, star)
        if k == "ext":
            return self.call_ext(fn[1], n, args, kw, star)
        if k == "meth":
            return self.call_method(fn[1], fn[2], n, args, kw, star)
        if k == "immattr":
            return AV(imm=fn[1] not in ("split", "encode"))
        if k in ("param", "stored"):
            u = ("U", "user callable " + fn[1])
            return AV({u}, {u})
        return FRESH

    def bind(self, f: FuncInfo, args, kw, star):
        pos = f.pos_params()
        b = {}
        extra = EMPTY
        for i, a in enumerate(args):
            if i < len(pos):
                b[pos[i]] = a
            else:
                extra = extra | a.all()
        names = set(f.params())
        for k, v in kw.items():
            if k in names:
                b[k] = v
            else:
                extra = extra | v.all()
        if star:
            for nme in names:
                if nme not in b:
                    b[nme] = AV(star, star)
        return b, extra

    def map_origins(self, origins, f, recv, b, extra, deep=True) -> Set:
        res = set()
        for o in origins:
            if o[0] == "P":
                nm = o[1]
                if nm.startswith("*"):
                    res |= extra
                elif nm in b:
                    res |= (b[nm].direct | b[nm].reach) if deep else b[nm].direct
            elif o[0] == "self":
                if recv is not None:
                    res |= recv.all()
            elif o[0] == "S":
                if recv is not None:
                    for r in recv.all():
                        res.add(("S", o[1]) if r[0] == "self" else r)
            else:
                res.add(o)
        return res

    def apply_call(self, f: FuncInfo, recv: Optional[AV], args, kw, line, star=EMPTY) -> AV:
        self.e.callees.setdefault(self.f, set()).add(f)
        if getattr(self, "_site", None) is not None:
            self.e.sites.setdefault(id(self._site), set()).add(f)
        s = self.e.summ.get(f)
        if s is None:
            return FRESH
        b, extra = self.bind(f, args, kw, star)
        on_self = recv is not None and ("self",) in recv.direct
        for key, ef in s.effects.items():
            kind, attr = ef.kind, ef.attr
            ok = ef.origin[0]
            if ok == "P":
                nm = ef.origin[1]
                if nm.startswith("*"):
                    tgt = set(extra)
                elif nm in b:
                    tgt = set() if b[nm].imm else set(b[nm].direct)
                else:
                    tgt = set()
            elif ok in ("self", "S"):
                # state of the receiver: stays an effect on the same object; when the
                # receiver is itself a component of self, record a component update;
                # for other receivers the class of the receiver answers for it
                tgt = set()
                if on_self:
                    tgt.add(ef.origin)
                elif recv is not None and kind in ("attr", "content", "sub"):
                    comp = {o for o in recv.direct if o[0] == "S"}
                    if comp:
                        kind, attr = "sub", f.qual
                        tgt |= comp
            else:
                tgt = {ef.origin}
            for o in tgt:
                via = ((f.qual, line),) + ef.via
                ne = Effect(kind, o, attr, ef.why, ef.func, ef.line, via[:6])
                self.owner.s.effects.setdefault(ne.key(), ne)
        # attributes set on self by callee on same self
        if recv is not None and ("self",) in recv.direct:
            for a, v in s.attr_store.items():
                d = self.map_origins(v.direct, f, recv, b, extra)
                r = self.map_origins(v.reach, f, recv, b, extra)
                mv = AV(d, r, v.types, v.imm)
                cur = self.env.get("self." + a)
                self.env["self." + a] = join(cur, mv) if cur is not None else mv
                for o in mv.all():
                    if o[0] == "P":
                        self.owner.s.captures.add(o[1])
        if s.ret is None:
            return IMM if not f.is_abstract else FRESH
        d = self.map_origins(s.ret.direct, f, recv, b, extra, deep=False)
        r = self.map_origins(s.ret.reach, f, recv, b, extra)
        if any(dd.split("(")[0].split(".")[-1] in ("lru_cache", "cache") for dd in f.decorators) and not s.ret.imm:
            g = ("G", f"memoised result of {f.qual}")
            d = set(d) | {g}
            r = set(r) | {g}
        return AV(d, r, s.ret.types, s.ret.imm, s.ret.fn if s.ret.fn and s.ret.fn[0] in ("class", "ext", "func") else None)

    def construct(self, c: ClassInfo, args, kw, line, star) -> AV:
        ini = c.find("__init__")
        new = AV(EMPTY, EMPTY, {c})
        reach = set()
        if ini is not None:
            b, extra = self.bind(ini, args, kw, star)
            s = self.e.summ.get(ini)
            self.e.callees.setdefault(self.f, set()).add(ini)
            if getattr(self, "_site", None) is not None:
                self.e.sites.setdefault(id(self._site), set()).add(ini)
            if s is not None:
                for cap in s.captures:
                    if cap.startswith("*"):
                        reach |= extra
                    elif cap in b:
                        reach |= b[cap].all()
                for key, ef in s.effects.items():
                    if ef.origin[0] == "P" and ef.origin[1] in b:
                        if ef.kind == "content" and b[ef.origin[1]].imm:
                            continue
                        for o in b[ef.origin[1]].direct:
                            ne = Effect(ef.kind, o, ef.attr, ef.why, ef.func, ef.line, (((ini.qual, line),) + ef.via)[:6])
                            self.owner.s.effects.setdefault(ne.key(), ne)
                    elif ef.origin[0] in ("G", "U"):
                        self.owner.s.effects.setdefault(key, ef)
                    elif ef.origin[0] == "S" and ef.kind == "content" and ef.origin[1] in s.attr_store:
                        av = s.attr_store[ef.origin[1]]
                        # contents of a freshly stored attribute changed by the constructor
                        for o in av.direct:
                            if o[0] == "P" and o[1] in b:
                                for oo in b[o[1]].direct:
                                    ne = Effect("content", oo, None, ef.why, ef.func, ef.line, (((ini.qual, line),) + ef.via)[:6])
                                    self.owner.s.effects.setdefault(ne.key(), ne)
        else:
            for a in args:
                reach |= a.all()
            for a in kw.values():
                reach |= a.all()
        reach |= set(star)
        reach = {o for o in reach}
        return AV(EMPTY, reach, {c})

    # external -----------------------------------------------------------------
    def call_ext(self, name, n, args, kw, star) -> AV:
        line = n.lineno
        self.e.nresolved += 1
        tail = name.split(".")[-1]
        arg_nodes = [a for a in n.args if not isinstance(a, ast.Starred)]
        if "out" in kw:
            self.content(kw["out"], f"`out=` of {name}", line)
            return kw["out"]
        if name in EXT_MUTATES and len(args) > EXT_MUTATES[name]:
            self.content(args[EXT_MUTATES[name]], f"{name} writes into its argument", line)
            if name.startswith("operator.i"):
                return args[0]
            return IMM
        if name.startswith("numpy.") and tail == "at" and args:
            self.content(args[0], f"{name} writes into its argument", line)
            return IMM
        if name in ("setattr", "builtins.setattr", "builtins.object.__setattr__") and args:
            tgt = args[0]
            a = None
            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                a = n.args[1].value
            self.effect("attr", tgt, a or "*", "setattr", line)
            if ("self",) in tgt.direct and self.cls is not None and a and len(args) > 2:
                self.e.note_attr(self.cls, a, args[2])
            return IMM
        if name in ("builtins.delattr",) and args:
            self.effect("attr", args[0], "*", "delattr", line)
            return IMM
        for kwn in n.keywords:
            if kwn.arg == "inplace" and isinstance(kwn.value, ast.Constant) and kwn.value.value and args:
                self.content(args[0], f"inplace=True in {name}", line)
        if name.startswith("numpy."):
            if tail in UFUNCS2 and len(args) >= 3 and name.count(".") == 1:
                self.content(args[2], f"positional out of {name}", line)
                return args[2]
            if tail in UFUNCS1 and len(args) >= 2 and name.count(".") == 1:
                self.content(args[1], f"positional out of {name}", line)
                return args[1]
            if tail in VIEW_FUNCS and (args or kw):
                x = args[0] if args else kw.get("a", kw.get("arr", kw.get("object", FRESH)))
                if tail in ("asarray", "asanyarray", "ascontiguousarray") and x.types and x.types <= {"ext:builtins.tuple", "ext:builtins.list"}:
                    flat = bool(arg_nodes) and self.scalar_sequence(arg_nodes[0])
                    return AV(types={"ext:numpy.vector" if flat else "ext:numpy.ndarray"})
                if x.imm:
                    return AV(types={"ext:numpy.ndarray"})
                if tail in ("broadcast_arrays", "split", "hsplit", "vsplit", "array_split"):
                    al = frozenset().union(*[a.all() for a in args]) if args else EMPTY
                    return AV(EMPTY, al, {"ext:builtins.list"})
                return AV(x.direct, x.direct, {"ext:numpy.ndarray"})
            if tail in ("array",) and args:
                cp = next((k.value for k in n.keywords if k.arg == "copy"), None)
                if cp is not None and not (isinstance(cp, ast.Constant) and cp.value is True):
                    return AV(args[0].direct, args[0].direct, {"ext:numpy.ndarray"})
                return AV(types={"ext:numpy.ndarray"})
            if tail == "nan_to_num" and args:
                cp = next((k.value for k in n.keywords if k.arg == "copy"), None)
                if cp is not None and isinstance(cp, ast.Constant) and cp.value is False:
                    self.content(args[0], "nan_to_num(copy=False)", line)
                    return args[0]
            if tail == "vectorize":
                return AV(fn=("ext", "numpy.vectorized"))
            if tail in ("default_rng",):
                return AV(types={"ext:numpy.random.Generator"})
            if tail in ("ndim", "isscalar", "shape", "size", "dtype", "result_type", "promote_types",
                        "can_cast", "issubdtype", "allclose", "finfo", "array_equal"):
                return AV(imm=True)
            return AV(types={"ext:numpy.ndarray"} if name.count(".") == 1 else None)
        if name.startswith("builtins."):
            if tail in ("len", "int", "float", "bool", "str", "isinstance", "issubclass", "hash", "repr",
                        "id", "callable", "ord", "round", "format", "any", "all", "range", "print", "hasattr", "divmod"):
                return AV(imm=True, types={f"ext:builtins.{tail}"} if tail in ("int", "float", "bool", "str") else None)
            if tail in ("sum",):
                return FRESH
            if tail in ("list", "tuple", "set", "frozenset", "dict", "sorted"):
                r = EMPTY
                for a in list(args) + list(kw.values()):
                    r = r | a.all()
                t = "list" if tail == "sorted" else tail
                return AV(EMPTY, r | star, {"ext:builtins." + t})
            if tail in ("zip", "enumerate", "reversed", "map", "filter", "iter"):
                if tail == "map" and args:
                    r = EMPTY
                    for a in args[1:]:
                        r = r | a.all()
                    if args[0].fn is not None:
                        rr = self.call_value(args[0], n, [self.elem(a) for a in args[1:]], {}, EMPTY)
                        return AV(EMPTY, rr.all())
                    return AV(EMPTY, r)
                r = star
                for a in args:
                    r = r | a.all()
                return AV(EMPTY, r, {"ext:typing.Iterator"})
            if tail in ("min", "max", "next"):
                r = EMPTY
                imm = bool(args) and all(a.imm for a in args)
                for a in args:
                    r = r | a.all()
                return AV(r, r, None, imm) if not imm else IMM
            if tail == "getattr" and args:
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                    return self.get_attr(args[0], n.args[1].value, n)
                return args[0].inner()
            if tail == "abs" or tail == "pow":
                return AV(imm=bool(args) and args[0].imm)
            if tail == "type":
                return AV(imm=True, fn=("ext", "builtins.type()"))
            if tail == "super":
                return FRESH
            return FRESH
        if name in ("functools.partial",) and args:
            r = EMPTY
            for a in list(args[1:]) + list(kw.values()):
                r = r | a.all()
            if args[0].fn is not None and args[0].fn[0] in ("func", "bound", "boundset"):
                # calling the partial eventually calls the function with these args
                self.call_value(args[0], n, list(args[1:]), kw, EMPTY)
            return AV(EMPTY, r, {"ext:typing.Callable"}, False, ("ext", "partial()"))
        if name in ("functools.reduce",) and args:
            r = EMPTY
            for a in args[1:]:
                r = r | a.all()
            if args[0].fn is not None and args[0].fn[0] == "ext" and args[0].fn[1].startswith("operator.i") and tail:
                first = args[2] if len(args) > 2 else AV(args[1].all(), args[1].all())
                if args[0].fn[1] in EXT_MUTATES:
                    self.content(first, f"functools.reduce({args[0].fn[1]})", line)
            return AV(EMPTY, EMPTY)
        if name in ("copy.copy",) and args:
            return AV(EMPTY, args[0].all(), args[0].types)
        if name in ("copy.deepcopy",) and args:
            return AV(EMPTY, EMPTY, args[0].types)
        if name in ("dataclasses.replace",) and args:
            return AV(EMPTY, args[0].all(), args[0].types)
        if name.startswith("warnings."):
            return IMM
        if name.startswith(("scipy.", "math.", "operator.", "numbers.", "itertools.", "fractions.")):
            if name.startswith("scipy.sparse") and args:
                return AV(EMPTY, args[0].all())
            if name.startswith("scipy.sparse.linalg.aslinearoperator") and args:
                return AV(EMPTY, args[0].all())
            return FRESH
        return FRESH

    def scalar_sequence(self, node) -> bool:
        """Call of a function annotated to return a flat sequence of scalars."""
        if isinstance(node, ast.Name):
            defs = [x.value for x in ast.walk(self.f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in x.targets)]
            return len(defs) == 1 and not isinstance(defs[0], ast.Name) and self.scalar_sequence(defs[0])
        if not isinstance(node, ast.Call):
            return False
        r = self.p.resolve_expr(node.func, self.f.module, self.f)
        if not r or r[0] != "func":
            return False
        ann = getattr(r[1].node, "returns", None)
        if not (isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] in ("Tuple", "List", "tuple", "list")):
            return False
        sl = ann.slice
        els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        return all(ast.unparse(e).split(".")[-1] in ("int", "float", "Fraction", "Ellipsis", "...", "FloatLike", "IntLike", "ScalarLike") for e in els)

    def call_method(self, attr, base: AV, n, args, kw, star) -> AV:
        """Method call on an object of unknown or external type."""
        line = n.lineno
        ext_types = base.types
        known_ext = ext_types is not None and not any(isinstance(t, ClassInfo) for t in ext_types)
        if "out" in kw:
            self.content(kw["out"], f"`out=` of .{attr}()", line)
            return kw["out"]
        if ext_types is not None and ext_types <= {"ext:numpy.random.Generator", "none"}:
            if attr == "shuffle" and args:
                self.content(args[0], "rng.shuffle writes into its argument", line)
            return FRESH
        # probnum classes by method name (class-hierarchy by name), unless type is external
        if not known_ext and attr in self.p.by_method and not attr.startswith("__"):
            cands = [m for m in self.p.by_method[attr] if not m.is_property]
            if attr in ND_SHARED_NAMES:
                cands = []
            if cands:
                self.e.nresolved += 1
                res = None
                for m in cands:
                    res = join(res, self.apply_call(m, base, args, kw, line, star))
                if attr in MUTATORS:
                    self.content(base, f".{attr}()", line)
                if res is not None:
                    if res.types is not None and base.types is None:
                        res = AV(res.direct, res.reach, res.types, res.imm)
                    return res
        if attr in MUTATORS:
            self.content(base, f".{attr}() on `{ast.unparse(n.func.value)[:40]}`" if isinstance(n.func, ast.Attribute) else f".{attr}()", line)
            if attr in ("append", "extend", "insert", "add", "update", "setdefault") and isinstance(n.func, ast.Attribute):
                newr = EMPTY
                for a in args:
                    newr = newr | a.all()
                if isinstance(n.func.value, ast.Name) and n.func.value.id in self.env:
                    b = self.env[n.func.value.id]
                    self.env[n.func.value.id] = AV(b.direct, b.reach | newr, b.types, b.imm, b.fn)
                elif (
                    isinstance(n.func.value, ast.Attribute)
                    and isinstance(n.func.value.value, ast.Name)
                    and ("self",) in self.lookup(n.func.value.value).direct
                    and self.cls is not None
                ):
                    pass
            if attr in ("pop", "popitem", "setdefault"):
                return base.inner()
            return IMM
        if attr in VIEW_METHODS:
            return AV(base.direct, base.direct, base.types if base.types == frozenset({"ext:numpy.ndarray"}) else None, base.imm)
        if attr == "astype":
            cp = next((k.value for k in n.keywords if k.arg == "copy"), None)
            if cp is not None and not (isinstance(cp, ast.Constant) and cp.value is True):
                return AV(base.direct, base.direct, {"ext:numpy.ndarray"})
            return AV(types={"ext:numpy.ndarray"})
        if attr == "copy":
            if base.types and base.types <= {"ext:builtins.dict", "ext:builtins.list"}:
                return AV(EMPTY, base.reach, base.types)
            return AV(EMPTY, EMPTY, base.types)
        if attr in ("get", "items", "values", "keys", "__getitem__"):
            return base.inner()
        if attr in ("item",):
            return IMM
        return AV(types=None)


ND_SHARED_NAMES = {
    "copy", "sum", "mean", "std", "var", "min", "max", "dot", "trace", "diagonal", "T", "reshape",
    "transpose", "astype", "any", "all", "item", "prod", "conj", "round", "cumsum", "ravel",
    "squeeze", "fill", "sort", "tolist", "toarray", "get", "items", "keys", "values", "join",
    "split", "format", "lower", "upper", "replace", "strip", "argmax", "argmin", "argsort",
}
