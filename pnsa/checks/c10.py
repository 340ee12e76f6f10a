"""C10: every call, attribute, name and unpacking inside the library fits what it refers to."""
from __future__ import annotations

import ast
import builtins

from ..common import loc
from ..prog import walk_own

LEVEL = "sound-static"
EXPLANATION = (
    "Names are resolved through scopes, imports and class hierarchies. Every call whose target is a function, method or class of the library is "
    "bound against the target's signature, for a method once per class that can be the receiver; every attribute read from the receiver, from an "
    "annotated argument or from a library module is looked up in what those classes or modules define; every name is looked up in its scopes; "
    "tuple assignments are compared with the length of the tuples the callee returns."
)
ASSUMPTIONS = [
    "Annotations of arguments name a class the value belongs to.",
    "Values whose class is not stated by an annotation, a constructor call or the receiver are not followed.",
]
OK_EXT = {"abc.ABC", "typing.Generic", "typing.Protocol", "builtins.object", "ABC", "Generic", "object"}
PLAIN = {"property", "staticmethod", "classmethod", "abstractmethod", "cached_property", "overload", "wraps", "lru_cache", "cache", "setter", "abstractproperty"}
OBJECT = set(dir(object)) | {"__dict__", "__annotations__", "__name__", "__qualname__", "__wrapped__", "__isabstractmethod__", "__slots__", "__weakref__"}


def closed(cls):
    """All bases are known and no attribute is computed."""
    for c in cls.mro():
        if any(b not in OK_EXT and b.split("[")[0] not in OK_EXT for b in c.ext_bases):
            return False
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            return False
        if any(isinstance(k, ast.keyword) and k.arg == "metaclass" and "ABCMeta" not in ast.unparse(k.value) for k in c.node.keywords):
            return False
    return True


def plain(f):
    return all(d.split("(")[0].split(".")[-1] in PLAIN for d in f.decorators)


def stub(f):
    """Only raises."""
    body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if not isinstance(f.node, ast.Lambda) else [None]
    return len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Pass))


class Anonymous:
    decorators = ()

    def __init__(self, node):
        self.node = node


class Fields:
    """Attributes an object of a class can have."""

    def __init__(self, prog):
        self.p, self.memo, self.words = prog, {}, {}
        # attributes set from outside on any object, by name
        self.foreign = set()
        # functions that set attributes by computed names, and the words in them
        self.setters, self.extra = set(), set()
        for f in prog.funcs:
            if f.cls is None and any(self.sets(n) for n in ast.walk(f.node)):
                self.setters.add(f.name)
                self.extra |= {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        for f in prog.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if not (isinstance(n.value, ast.Name) and n.value.id == f.self_name):
                        self.foreign.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.foreign.add(n.args[1].value)

    @staticmethod
    def sets(n):
        return isinstance(n, ast.Name) and n.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__")

    def own(self, c):
        if c not in self.memo:
            s = set(c.methods) | set(c.setters) | set(c.class_attrs) | set(c.class_ann)
            for x in c.node.body:
                if isinstance(x, ast.ClassDef):
                    s.add(x.name)
                for y in ast.walk(x) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.If, ast.Try, ast.For, ast.With)) else ():
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        s.add(y.id)
            for m in list(c.methods.values()) + list(c.setters.values()):
                first = [a.arg for a in m.node.args.posonlyargs + m.node.args.args][:1]
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        if n.value.id in first or n.value.id in ("obj", "instance", "new", "self", "cls"):
                            s.add(c.mangle(n.attr))
                            s.add(n.attr)
            self.memo[c] = s
        return self.memo[c]

    def dynamic(self, c):
        """Words that may name attributes set through setattr or __dict__."""
        if c not in self.words:
            out = set()
            for k in c.mro():
                if any(self.sets(n) or isinstance(n, ast.Name) and n.id in self.setters or isinstance(n, ast.Attribute) and n.attr in self.setters for n in ast.walk(k.node)):
                    out |= {n.value for q in c.mro() for n in ast.walk(q.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
                    out |= {n.arg for q in c.mro() for n in ast.walk(q.node) if isinstance(n, (ast.keyword, ast.arg)) and n.arg}
                    out |= self.extra
            self.words[c] = out
        return self.words[c]

    def of(self, c):
        return self.dynamic(c) | set().union(*(self.own(x) for x in c.mro()))


def bind(f, call, drop_self):
    """Why the call does not fit f, or None."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    only = {x.arg for x in a.posonlyargs}
    if drop_self:
        pos = pos[1:]
    kwn = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and a.vararg is None:
        return f"takes {len(pos)} positional arguments but {n} are given"
    given = set(pos[:n]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f"gets '{k.arg}' twice"
        if k.arg not in [p for p in pos if p not in only] + kwn and a.kwarg is None:
            return f"does not accept '{k.arg}'"
        given.add(k.arg)
    if star or dstar:
        return None
    nd = len(a.defaults)
    allpos = [x.arg for x in a.posonlyargs + a.args]
    optional = set(allpos[len(allpos) - nd:]) if nd else set()
    optional |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    miss = [x for x in pos + kwn if x not in given and x not in optional]
    if miss:
        return f"needs '{miss[0]}'"
    return None


def dataclass_fields(c):
    """[(name, has default)] of a plain dataclass, or None."""
    out = {}
    for k in reversed(c.mro()):
        if k.ext_bases and any(b not in OK_EXT for b in k.ext_bases):
            return None
        if not k.is_dataclass:
            if k.class_ann:
                continue
            continue
        for x in k.node.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                ann = ast.unparse(x.annotation)
                if "ClassVar" in ann:
                    continue
                if "InitVar" in ann or "KW_ONLY" in ann:
                    return None
                default = x.value is not None
                if isinstance(x.value, ast.Call) and ast.unparse(x.value.func).split(".")[-1] == "field":
                    kw = {q.arg for q in x.value.keywords}
                    if "init" in kw or "kw_only" in kw:
                        return None
                    default = bool(kw & {"default", "default_factory"})
                out[x.target.id] = default
    return list(out.items())


class Check:
    def __init__(self, ctx, res):
        self.p, self.res = ctx.prog, res
        self.fields = Fields(self.p)
        self.seen, self.types = set(), {}
        self.made = set()
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                    r = self.resolve(n.func, f)
                    if r is not None and r[0] == "class":
                        self.made.add(r[1])

    def bad(self, rule, f, node, message):
        key = (rule, f.qual, message)
        if key in self.seen:
            return
        self.seen.add(key)
        where = loc(f)
        where["line"] = getattr(node, "lineno", where.get("line"))
        self.res.add(rule, f.qual, message, **where)

    # ------------------------------------------------------------ scopes
    def locals_of(self, f):
        """Names bound in the body or signature of f."""
        out = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
        for a in (f.node.args.vararg, f.node.args.kwarg):
            if a is not None:
                out.add(a.arg)
        if isinstance(f.node, ast.Lambda):
            body = [f.node.body]
        else:
            body = f.node.body
        glob = set()
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                todo += n.decorator_list
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(x.asname or x.name).split(".")[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            todo += ast.iter_child_nodes(n)
        return out - glob

    def module_names(self, m):
        out = set(m.functions) | set(m.classes) | set(m.imports) | set(m.assigns) | {"__name__", "__file__", "__doc__", "__path__", "__spec__", "__package__", "__all__"}
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(x.asname or x.name).split(".")[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            todo += ast.iter_child_nodes(n)
        for f in self.p.funcs:
            if f.module is m:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Global):
                        out |= set(n.names)
        return out

    def typing_only(self, m):
        """Names bound only under `if TYPE_CHECKING`."""
        inside, outside = set(), set()

        def bound(body, into):
            for x in body:
                if isinstance(x, ast.If) and "TYPE_CHECKING" in ast.unparse(x.test) and not isinstance(x.test, ast.UnaryOp):
                    bound(x.body, inside)
                    bound(x.orelse, outside)
                    continue
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    into.add(x.name)
                    continue
                for n in ast.walk(x):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        into |= {(q.asname or q.name).split(".")[0] for q in n.names}
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        into.add(n.id)
        bound(m.tree.body, outside)
        return inside - outside - set(dir(builtins))

    def names(self):
        for m in self.p.modules.values():
            if any(True for _ in m.star_imports):
                continue
            known = self.module_names(m) | set(dir(builtins))
            later = self.typing_only(m)

            def scope(node, outer, f):
                """node: function-like; outer: names visible from enclosing functions."""
                mine = self.locals_of(f) | outer
                notes = {id(y) for x in ast.walk(node) if isinstance(x, ast.AnnAssign) for y in ast.walk(x.annotation)}
                for n in walk_own(node):
                    if id(n) in notes:
                        continue
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                        self.res.count("names")
                        if n.id not in mine and n.id not in known and n.id != "__class__":
                            self.bad("undefined-name", f, n, f"name '{n.id}' is not defined")
                        elif n.id in later and n.id not in mine:
                            self.bad("undefined-name", f, n, f"name '{n.id}' is imported for type checkers only")
                for g in f.nested:
                    scope(g.node, mine, g)
            for f in self.p.funcs:
                if f.module is m and f.parent is None:
                    scope(f.node, set(), f)

    # ------------------------------------------------------------ types
    def shadowed(self, f, name):
        g = f
        while g is not None:
            if name in self.scopes(g) and name not in g.local_imports and not any(x.name == name for x in g.nested):
                return True
            g = g.parent
        return False

    def scopes(self, f):
        if not hasattr(f, "_c10"):
            f._c10 = self.locals_of(f)
        return f._c10

    def resolve(self, e, f):
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or self.shadowed(f, root.id):
            return None
        return self.p.resolve_expr(e, f.module, f)

    def stated(self, f, name):
        """Classes an annotated parameter that is never rebound can have, or None."""
        g = f
        while g is not None and name not in self.scopes(g):
            g = g.parent
        if g is None or isinstance(g.node, ast.Lambda):
            return None
        ps = {a.arg: a for a in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs}
        if name not in ps or ps[name].annotation is None:
            return None
        for h in [g] + g.nested:
            for n in ast.walk(h.node):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                    return None
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "getattr", "callable") and n.args and ast.unparse(n.args[0]) == name:
                return None
        t = self.p.ann_types(ps[name].annotation, g.module, g)
        if not t or any(isinstance(x, str) for x in t if x != "none"):
            return None
        return [x for x in t if x != "none"] or None

    def returned(self, m):
        """Classes stated by the return annotation of m, or None."""
        if isinstance(m.node, ast.Lambda) or m.node.returns is None or not plain(m):
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(m.node)):
            return None
        t = self.p.ann_types(m.node.returns, m.module, m)
        if not t or any(isinstance(x, str) for x in t):
            return None
        return list(t)

    def attribute_types(self, c, attr):
        """Classes of the object attribute `attr` of class c, or None."""
        key = (c, attr)
        if key in self.types:
            return self.types[key]
        self.types[key] = None
        m = c.find(attr)
        if m is not None:
            out = self.returned(m) if m.is_property else None
        else:
            out, bad = [], False
            for k in c.mro():
                for g in list(k.methods.values()) + list(k.setters.values()):
                    if not g.self_name:
                        continue
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == g.self_name:
                            st = next((x for x in ast.walk(g.node) if isinstance(x, (ast.Assign, ast.AnnAssign)) and n in (x.targets if isinstance(x, ast.Assign) else [x.target])), None)
                            ts = self.typed(st.value, g) if st is not None and st.value is not None else None
                            if ts is None:
                                bad = True
                            else:
                                out += ts
            out = None if bad or not out else out
        self.types[key] = out
        return out

    def typed(self, e, f, depth=0):
        """Classes an expression can have, or None if not stated."""
        if depth > 4:
            return None
        if isinstance(e, ast.Name):
            ts = self.stated(f, e.id)
            if ts:
                return ts
            s, own = self.outer_self(f)
            if e.id == s:
                return None
            g = f
            while g is not None and e.id not in self.scopes(g):
                g = g.parent
            if g is None or isinstance(g.node, ast.Lambda) or e.id in [a.arg for a in g.all_args()]:
                return None
            stores = [n for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
            if len(stores) != 1:
                return None
            st = next((x for x in ast.walk(g.node) if isinstance(x, ast.Assign) and stores[0] in x.targets), None)
            if st is None or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "getattr") and n.args and ast.unparse(n.args[0]) == e.id for n in ast.walk(g.node)):
                return None
            return self.typed(st.value, g, depth + 1)
        if isinstance(e, ast.Call):
            ts = self.target(e.func, f, depth + 1)
            out = []
            for t in ts:
                if t[0] == "class":
                    if t[1].find("__new__") is not None:
                        return None
                    out.append(t[1])
                else:
                    r = self.returned(t[0])
                    if r is None:
                        return None
                    out += r
            return out or None
        if isinstance(e, ast.Attribute):
            s, own = self.outer_self(f)
            if isinstance(e.value, ast.Name) and e.value.id == s and own is not None:
                cs = [own.cls]
            else:
                cs = self.typed(e.value, f, depth + 1)
            if not cs:
                return None
            out = []
            for c in cs:
                t = self.attribute_types(c, e.attr)
                if t is None:
                    return None
                out += t
            return out or None
        return None

    def receivers(self, f):
        """Classes whose objects execute f as their method."""
        if f.cls is None:
            return []
        out = []
        for c in f.cls.all_subclasses():
            over = []
            for k in c.mro():
                if k is f.cls:
                    break
                if f.name in k.methods and not f.is_setter:
                    over.append(k.methods[f.name])
            if all(any(isinstance(n, ast.Attribute) and n.attr == f.name for n in ast.walk(m.node)) for m in over):
                out.append(c)
        return out

    def abstract(self, c):
        """Methods that c leaves abstract."""
        done, out = set(), set()
        for k in c.mro():
            for n, m in k.methods.items():
                if n in done:
                    continue
                done.add(n)
                if m.is_abstract:
                    out.add(n)
            done |= set(k.class_attrs)
        return out

    # ------------------------------------------------------------ calls
    def outer_self(self, f):
        """(self name, method) of the method that f is or is nested in."""
        g = f
        while g is not None:
            if g.self_name:
                h = f
                while h is not g:
                    if g.self_name in self.scopes(h):
                        return None, None
                    h = h.parent
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Name) and n.id == g.self_name and isinstance(n.ctx, ast.Store):
                        return None, None
                return g.self_name, g
            g = g.parent
        return None, None

    def construct(self, c, call, f, what):
        if any(b not in OK_EXT and b.split("[")[0] not in OK_EXT for k in c.mro() for b in k.ext_bases):
            init = None
            for k in c.mro():
                if "__init__" in k.methods:
                    init = k.methods["__init__"]
                    break
                if any(b not in OK_EXT for b in k.ext_bases):
                    return
            if init is None:
                return
        if c.find("__new__") is not None or any(k.arg == "metaclass" and "ABCMeta" not in ast.unparse(k.value) for x in c.mro() for k in x.node.keywords):
            return
        init = c.find("__init__")
        if init is not None and not (c.is_dataclass and "__init__" not in c.methods):
            if not plain(init):
                return
            why = bind(init, call, True)
            self.res.count("call sites bound")
            if why is not None:
                self.bad("call", f, call, f"{what} {why}")
            return
        if c.is_dataclass:
            fs = dataclass_fields(c)
            if fs is None:
                return
            self.res.count("call sites bound")
            names = [n for n, _ in fs]
            if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
                return
            if len(call.args) > len(names):
                self.bad("call", f, call, f"{what} takes {len(names)} fields but {len(call.args)} are given")
                return
            given = set(names[:len(call.args)])
            for k in call.keywords:
                if k.arg not in names or k.arg in given:
                    self.bad("call", f, call, f"{what} does not accept '{k.arg}'")
                    return
                given.add(k.arg)
            miss = [n for n, d in fs if not d and n not in given]
            if miss:
                self.bad("call", f, call, f"{what} needs '{miss[0]}'")

    def target(self, e, f, depth=0):
        """[(FuncInfo, drop self, label)] or [('class', ClassInfo)] a call reaches; [] unknown."""
        if isinstance(e, ast.Attribute):
            # super().m
            v = e.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and not v.args:
                own = f
                while own is not None and own.cls is None:
                    own = own.parent
                if own is None:
                    return []
                out = []
                for c in self.receivers(own):
                    mro = c.mro()
                    if own.cls not in mro:
                        continue
                    for k in mro[mro.index(own.cls) + 1:]:
                        if e.attr in k.methods:
                            out.append((k.methods[e.attr], not k.methods[e.attr].is_static, f"{k.name}.{e.attr}"))
                            break
                        if any(b not in OK_EXT for b in k.ext_bases):
                            break
                return out
            s, own = self.outer_self(f)
            if isinstance(v, ast.Name) and v.id == s and own is not None:
                out = []
                for c in self.receivers(own):
                    if self.assigned(c, e.attr):
                        continue
                    m = c.find(own.cls.mangle(e.attr)) or c.find(e.attr)
                    if m is not None and not m.is_property:
                        out.append((m, not m.is_static, f"{c.name}.{e.attr}"))
                return out
            if isinstance(v, (ast.Name, ast.Attribute, ast.Call)):
                ts = self.typed(v, f, depth) if not (isinstance(v, ast.Attribute) and ast.unparse(v) in self.tested(f)) else None
                if ts:
                    out = []
                    for c in ts:
                        if self.assigned(c, e.attr):
                            return []
                        m = c.find(e.attr)
                        if m is None or m.is_property:
                            return []
                        done = set()
                        for k in c.all_subclasses():
                            m = k.find(e.attr)
                            if m is not None and m not in done and not m.is_property:
                                done.add(m)
                                out.append((m, not m.is_static, f"{k.name}.{e.attr}"))
                    return out
        r = self.resolve(e, f)
        if r is None:
            return []
        if r[0] == "class":
            return [("class", r[1])]
        if r[0] == "func":
            m = r[1]
            if m.is_property:
                return []
            drop = m.cls is not None and m.parent is None and m.is_classmethod
            return [(m, drop, m.name)]
        return []

    def tested(self, f):
        """Expressions whose class is tested somewhere in the function."""
        g = f
        while g.parent is not None:
            g = g.parent
        if not hasattr(g, "_c10t"):
            g._c10t = {ast.unparse(n.args[0]) for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "getattr", "callable") and n.args}
        return g._c10t

    def assigned(self, c, attr):
        """Whether an object attribute hides the method."""
        for k in c.mro():
            for m in k.methods.values():
                s = m.self_name
                for n in ast.walk(m.node) if s else ():
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == s:
                        return True
        return False

    def calls(self):
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    self.res.count("calls")
                    for t in self.target(n.func, f):
                        if t[0] == "class":
                            self.construct(t[1], n, f, f"constructor of {t[1].name}")
                            left = self.abstract(t[1])
                            if left and not t[1].ext_bases and not t[1].node.name.startswith("_"):
                                self.bad("abstract", f, n, f"{t[1].name} is instantiated but leaves '{sorted(left)[0]}' abstract")
                            elif left and all(b in OK_EXT for b in t[1].ext_bases):
                                self.bad("abstract", f, n, f"{t[1].name} is instantiated but leaves '{sorted(left)[0]}' abstract")
                            continue
                        m, drop, label = t
                        if not plain(m) or stub(m) and not m.is_abstract:
                            continue
                        self.res.count("call sites bound")
                        why = bind(m, n, drop)
                        if why is not None:
                            self.bad("call", f, n, f"{label} {why}")
                self.unpacking(f, n)

    # ------------------------------------------------------------ callables kept in attributes
    def callables(self, e, f, depth=0):
        """[(FuncInfo, drop self, label)] an expression can denote; unknown parts are left out."""
        if depth > 4 or e is None:
            return []
        if isinstance(e, ast.Lambda):
            return [(Anonymous(e), False, "a function")]
        if isinstance(e, ast.IfExp):
            return self.callables(e.body, f, depth + 1) + self.callables(e.orelse, f, depth + 1)
        if isinstance(e, ast.Attribute):
            s, own = self.outer_self(f)
            if isinstance(e.value, ast.Name) and e.value.id == s and own is not None:
                if self.assigned(own.cls, e.attr):
                    return []
                m = own.cls.find(own.cls.mangle(e.attr)) or own.cls.find(e.attr)
                return [(m, not m.is_static, m.name)] if m is not None and not m.is_property else []
        if isinstance(e, ast.Name):
            g = f
            while g is not None and e.id not in self.scopes(g):
                g = g.parent
            if g is not None and isinstance(g.node, ast.Lambda):
                return []
            if g is not None and e.id not in g.local_imports:
                if e.id in [a.arg for a in g.all_args()]:
                    return []
                out = []
                for x in g.nested:
                    if x.name == e.id:
                        out.append((x, False, x.name))
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                        out += self.callables(x.value, g, depth + 1)
                return out
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.resolve(e, f)
            if r is not None and r[0] == "func" and not r[1].is_property:
                m = r[1]
                if m.cls is not None and m.parent is None and not m.is_static and not m.is_classmethod:
                    return [(m, False, m.name)]
                return [(m, m.cls is not None and m.parent is None and m.is_classmethod, m.name)]
        return []

    def stored(self):
        """Calls through attributes that hold functions accept the functions stored there."""
        slots, params = {}, {}
        for f in self.p.funcs:
            if not f.self_name or f.cls is None:
                continue
            for st in walk_own(f.node):
                if not isinstance(st, (ast.Assign, ast.AnnAssign)) or st.value is None:
                    continue
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.self_name:
                        attr = f.cls.mangle(t.attr)
                        slots.setdefault((f.cls, attr), []).extend(self.callables(st.value, f))
                        names = [st.value.id] if isinstance(st.value, ast.Name) else []
                        if isinstance(st.value, ast.IfExp):
                            names = [x.id for x in (st.value.body, st.value.orelse) if isinstance(x, ast.Name)]
                        if f.name == "__init__":
                            for q in names:
                                if q in [a.arg for a in f.all_args()]:
                                    params.setdefault(f, []).append((q, f.cls, attr))
        sites = []
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                inits = set()
                for t in self.target(n.func, f):
                    m = t[1].find("__init__") if t[0] == "class" else t[0] if t[0].name == "__init__" and t[1] else None
                    if m is not None:
                        inits.add(m)
                for m in inits:
                    a = [x.arg for x in m.node.args.posonlyargs + m.node.args.args][1:]
                    given = dict(zip(a, n.args)) if not any(isinstance(x, ast.Starred) for x in n.args) else {}
                    given.update({k.arg: k.value for k in n.keywords if k.arg})
                    sites.append((f, m, given))
        # constructors that hand a parameter on to another constructor
        for _ in range(4):
            for f, m, given in sites:
                if f.name == "__init__" and f.cls is not None:
                    for q, c, attr in list(params.get(m, ())):
                        v = given.get(q)
                        if isinstance(v, ast.Name) and v.id in [a.arg for a in f.all_args()] and (v.id, c, attr) not in params.get(f, ()):
                            params.setdefault(f, []).append((v.id, c, attr))
        for f, m, given in sites:
            for q, c, attr in params.get(m, ()):
                if q in given:
                    slots.setdefault((c, attr), []).extend(self.callables(given[q], f))
        for f in self.p.funcs:
            s, own = self.outer_self(f)
            if own is None:
                continue
            guarded = {x for t in walk_own(f.node) if isinstance(t, ast.Try) and t.handlers for y in t.body for x in ast.walk(y)}
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and n not in guarded and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == s:
                    attr = own.cls.mangle(n.func.attr)
                    if own.cls.find(attr) is not None:
                        continue
                    done = set()
                    for k in own.cls.mro():
                        for m, drop, label in slots.get((k, attr), ()):
                            if m in done or not plain(m):
                                continue
                            done.add(m)
                            self.res.count("calls through stored functions bound")
                            why = bind(m, n, drop)
                            if why is not None:
                                self.bad("call", f, n, f"'{n.func.attr}' may hold {label}, which {why}")

    def tuple_length(self, m, depth=0):
        """Length of the tuples m returns, or None."""
        if isinstance(m.node, ast.Lambda) or m.is_abstract or depth > 2 or not plain(m):
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(m.node)):
            return None
        lens = set()
        for x in walk_own(m.node):
            if isinstance(x, ast.Return):
                v = x.value
                if isinstance(v, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in v.elts):
                    lens.add(len(v.elts))
                elif isinstance(v, ast.Call):
                    ts = self.target(v.func, m)
                    ls = [self.tuple_length(t[0], depth + 1) if t[0] != "class" else None for t in ts]
                    if not ls or None in ls:
                        return None
                    lens |= set().union(*ls)
                else:
                    return None
        return lens or None

    def unpacking(self, f, n):
        if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)):
            return
        for t in n.targets:
            if isinstance(t, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for m in self.target(n.value.func, f):
                    if m[0] == "class":
                        continue
                    k = self.tuple_length(m[0])
                    if k is not None:
                        self.res.count("unpackings")
                        if k != {len(t.elts)}:
                            self.bad("unpacking", f, n, f"{m[2]} returns {' or '.join(map(str, sorted(k)))} values, unpacked into {len(t.elts)}")

    # ------------------------------------------------------------ attributes
    def attributes(self):
        for f in self.p.funcs:
            s, own = self.outer_self(f)
            guarded = {x.args[1].value for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
            tried = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) for h in x.handlers):
                    tried |= {id(y) for b in x.body for y in ast.walk(b)}
            for n in walk_own(f.node):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)) or id(n) in tried or n.attr in guarded:
                    continue
                v = n.value
                if isinstance(v, ast.Name) and v.id == s and own is not None:
                    # mixins and bases rely on what the classes below them define
                    cs = [c for c in self.receivers(own) if not self.abstract(c) and (not c.subclasses or c in self.made)]
                    for c in cs:
                        if not closed(c):
                            continue
                        self.res.count("attributes looked up")
                        names = self.fields.of(c)
                        if n.attr not in names and own.cls.mangle(n.attr) not in names and n.attr not in OBJECT and n.attr not in self.fields.foreign:
                            self.bad("attribute", f, n, f"objects of {c.name} have no attribute '{n.attr}'")
                            break
                elif isinstance(v, (ast.Name, ast.Attribute, ast.Call)) and ast.unparse(v) not in self.tested(f) and self.typed(v, f):
                    ts = self.typed(v, f)
                    have = set()
                    if any(not closed(k) for c in ts for k in c.all_subclasses()):
                        continue
                    for c in ts:
                        for k in c.all_subclasses():
                            have |= self.fields.of(k)
                    self.res.count("attributes looked up")
                    if n.attr not in have and n.attr not in OBJECT and n.attr not in self.fields.foreign:
                        self.bad("attribute", f, n, f"'{ast.unparse(v)[:60]}' is a {ts[0].name}, which has no attribute '{n.attr}'")
                    continue
                if isinstance(v, (ast.Name, ast.Attribute)):
                    r = self.resolve(v, f)
                    if r is not None and r[0] == "mod":
                        self.res.count("attributes looked up")
                        m = r[1]
                        if self.p.module_attr(m, n.attr) is None and n.attr not in self.module_names(m) and not m.star_imports and not n.attr.startswith("__"):
                            self.bad("attribute", f, n, f"module {m.name} defines no '{n.attr}'")

    def imports(self):
        for m in self.p.modules.values():
            for name, imp in m.imports.items():
                if imp[0] != "mod" and imp[1] in self.p.modules:
                    self.res.count("imports")
                    t = self.p.modules[imp[1]]
                    if self.p.module_attr(t, imp[2]) is None and imp[2] not in self.module_names(t) and not t.star_imports and f"{imp[1]}.{imp[2]}" not in self.p.modules:
                        self.res.add("import", f"{m.name}", f"module {imp[1]} defines no '{imp[2]}'", file=m.relpath, line=1)

    # ------------------------------------------------------------ overriding
    def overrides(self):
        for c in self.p.classes:
            for name, m in c.methods.items():
                if name.startswith("__") and name not in ("__call__",) or m.is_property or m.is_static or isinstance(m.node, ast.Lambda) or not plain(m) or stub(m):
                    continue
                for b in c.mro()[1:]:
                    o = b.methods.get(name)
                    if o is None or o.is_property or o.is_static != m.is_static or o.is_classmethod != m.is_classmethod or not plain(o):
                        continue
                    self.res.count("overriding methods")
                    mine, theirs = m.node.args, o.node.args
                    mp = [x.arg for x in mine.posonlyargs + mine.args][1:]
                    tp = [x.arg for x in theirs.posonlyargs + theirs.args][1:]
                    if mine.vararg is None and mine.kwarg is None and len(mp) + len(mine.kwonlyargs) < len(tp):
                        self.bad("override", m, m.node, f"{c.name}.{name} accepts {len(mp)} positional arguments, the overridden {b.name}.{name} {len(tp)}")
                        break
                    req = mp[:len(mp) - len(mine.defaults)] if mine.defaults else mp
                    if len(req) > len(tp) and theirs.vararg is None and not any(x in [q.arg for q in theirs.kwonlyargs] for x in req[len(tp):]):
                        self.bad("override", m, m.node, f"{c.name}.{name} needs '{req[len(tp)]}', which callers of {b.name}.{name} do not pass")
                        break
                    if mine.kwarg is None:
                        lost = [x.arg for x in theirs.kwonlyargs if x.arg not in mp and x.arg not in [y.arg for y in mine.kwonlyargs]]
                        if lost:
                            self.bad("override", m, m.node, f"{c.name}.{name} does not accept '{lost[0]}' of the overridden {b.name}.{name}")
                            break
                    break


def check(ctx, res):
    k = Check(ctx, res)
    k.names()
    k.imports()
    k.calls()
    k.stored()
    k.attributes()
    k.overrides()
