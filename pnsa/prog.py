"""Program model: modules, classes, functions, name and (light) type resolution.

The model is rebuilt from the working tree on every run.
"""
from __future__ import annotations

import ast
import os
from typing import Dict, Iterable, List, Optional, Set, Tuple

REPO = os.environ.get("PNSA_REPO", "/repo")
PKG = "probnum"


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module: "Module" = module
        self.cls: Optional["ClassInfo"] = cls
        self.parent: Optional["FuncInfo"] = parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.nested: List["FuncInfo"] = []
        if parent is not None:
            self.qual = f"{parent.qual}.<locals>.{self.name}"
        elif cls is not None:
            self.qual = f"{cls.qual}.{self.name}"
        else:
            self.qual = f"{module.name}.{self.name}"
        self.kind = "function"
        self.decorators: List[str] = []
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                self.decorators.append(ast.unparse(d))
        self.is_static = any(d.split("(")[0] == "staticmethod" for d in self.decorators)
        self.is_classmethod = any(
            d.split("(")[0] == "classmethod" for d in self.decorators
        )
        self.is_property = any(
            d.split(".")[-1] in ("property", "cached_property", "abstractproperty")
            for d in self.decorators
        )
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)
        self.is_cached_property = any(
            d.split(".")[-1] == "cached_property" for d in self.decorators
        )
        self.is_abstract = any("abstractmethod" in d for d in self.decorators)
        self.local_imports: Dict[str, Tuple] = {}

    @property
    def is_method(self):
        return self.cls is not None and not self.is_static and self.parent is None

    @property
    def self_name(self) -> Optional[str]:
        if self.is_method and not self.is_classmethod:
            a = self.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            return names[0] if names else None
        return None

    def all_args(self) -> List[ast.arg]:
        a = self.node.args
        res = list(a.posonlyargs) + list(a.args)
        return res

    def params(self, drop_self=True) -> List[str]:
        """All named parameters in order (without *args/**kwargs)."""
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if drop_self and self.is_method and names:
            names = names[1:]
        return names + [x.arg for x in a.kwonlyargs]

    def pos_params(self, drop_self=True) -> List[str]:
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if drop_self and self.is_method and names:
            names = names[1:]
        return names

    def defaults(self) -> Dict[str, ast.AST]:
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        res = {}
        for n, d in zip(names[len(names) - len(a.defaults) :], a.defaults):
            res[n] = d
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                res[n.arg] = d
        return res

    def annotation(self, param) -> Optional[ast.AST]:
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == param:
                return x.annotation
        return None

    @property
    def has_kwargs(self):
        return self.node.args.kwarg is not None

    @property
    def has_varargs(self):
        return self.node.args.vararg is not None

    @property
    def file(self):
        return self.module.relpath

    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(value=self.node.body), self.node.body)]
        b = self.node.body
        if (
            b
            and isinstance(b[0], ast.Expr)
            and isinstance(b[0].value, ast.Constant)
            and isinstance(b[0].value.value, str)
        ):
            return b[1:]
        return b

    def __repr__(self):
        return f"<Func {self.qual}>"


class ClassInfo:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = (f"{outer.qual}." if outer else f"{module.name}.") + node.name
        self.methods: Dict[str, FuncInfo] = {}
        self.setters: Dict[str, FuncInfo] = {}
        self.class_attrs: Dict[str, ast.AST] = {}
        self.class_ann: Dict[str, ast.AST] = {}
        self.base_exprs = node.bases
        self.bases: List["ClassInfo"] = []
        self.ext_bases: List[str] = []
        self.subclasses: List["ClassInfo"] = []
        self._mro = None
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)

    def mro(self) -> List["ClassInfo"]:
        if self._mro is None:
            res = [self]

            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        cand = s[0]
                        if not any(cand in t[1:] for t in seqs):
                            break
                    else:
                        cand = seqs[0][0]
                    out.append(cand)
                    seqs = [[x for x in s if x is not cand] for s in seqs]
                    seqs = [s for s in seqs if s]
                return out

            res += merge([b.mro() for b in self.bases] + [self.bases])
            self._mro = res
        return self._mro

    def find(self, name) -> Optional[FuncInfo]:
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name) -> Optional[FuncInfo]:
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def all_subclasses(self, include_self=True) -> List["ClassInfo"]:
        res = [self] if include_self else []
        seen = {self}
        todo = list(self.subclasses)
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            res.append(c)
            todo += c.subclasses
        return res

    def is_subclass_of(self, other: "ClassInfo") -> bool:
        return other in self.mro()

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            return "_" + self.name.lstrip("_") + attr
        return attr

    def __repr__(self):
        return f"<Class {self.qual}>"


def drop_noops(tree):
    """Remove statements that compute nothing: `pass` and constants next to other
    statements, and constants bound to a local name that is never read."""
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        read = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}
        kept = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        kept |= {"locals"} & read
        if "locals" in kept:
            continue

        def idle(st):
            if isinstance(st, ast.Pass):
                return True
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                return st.value.value is not Ellipsis
            if isinstance(st, ast.Assert):
                return isinstance(st.test, ast.Constant) and bool(st.test.value)
            if isinstance(st, ast.Assign) and (isinstance(st.value, ast.Constant) or isinstance(st.value, (ast.Tuple, ast.List)) and not st.value.elts):
                return all(isinstance(t, ast.Name) and t.id not in read and t.id not in kept for t in st.targets)
            return False

        body = [st for i, st in enumerate(f.body) if not (i > 0 or not isinstance(st, ast.Expr)) or not idle(st)]
        if body:
            f.body = body
        else:
            f.body = f.body[:1] if isinstance(f.body[0], (ast.Pass, ast.Expr)) else [ast.copy_location(ast.Pass(), f.body[0])]
    return tree



class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, REPO)
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.imports: Dict[str, Tuple] = {}
        self.functions: Dict[str, FuncInfo] = {}
        self.classes: Dict[str, ClassInfo] = {}
        self.assigns: Dict[str, ast.AST] = {}
        self.reassigned = set()
        self.star_imports: List[str] = []


class Program:
    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, "src", PKG)
        self.modules: Dict[str, Module] = {}
        self.funcs: List[FuncInfo] = []
        self.classes: List[ClassInfo] = []
        self.by_method: Dict[str, List[FuncInfo]] = {}
        self.class_by_qual: Dict[str, ClassInfo] = {}
        self.func_of_node: Dict[int, FuncInfo] = {}
        self._load()
        self._link()

    # ------------------------------------------------------------------ loading
    def _load(self):
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.dirname(self.root))
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                tree = drop_noops(ast.parse(src, filename=p))
                self.modules[name] = Module(name, p, tree, src, is_pkg)
        for m in self.modules.values():
            self._collect(m)

    def _imports_of(self, stmt, m: Module) -> Dict[str, Tuple]:
        res = {}
        if isinstance(stmt, ast.Import):
            for a in stmt.names:
                if a.asname:
                    res[a.asname] = ("mod", a.name)
                else:
                    res[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(stmt, ast.ImportFrom):
            base = stmt.module or ""
            if stmt.level:
                pk = m.name.split(".")
                if not m.is_pkg:
                    pk = pk[:-1]
                if stmt.level > 1:
                    pk = pk[: -(stmt.level - 1)]
                base = ".".join(pk + ([stmt.module] if stmt.module else []))
            for a in stmt.names:
                if a.name == "*":
                    m.star_imports.append(base)
                else:
                    res[a.asname or a.name] = ("from", base, a.name)
        return res

    def _collect(self, m: Module):
        def visit_body(body, cls, parent):
            for s in body:
                visit_stmt(s, cls, parent)

        def visit_stmt(s, cls, parent):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                imps = self._imports_of(s, m)
                if parent is not None:
                    parent.local_imports.update(imps)
                else:
                    for k, v in imps.items():
                        m.imports.setdefault(k, v)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(s, m, cls if parent is None else None, parent, visit_body)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(s, m, cls)
                self.classes.append(c)
                self.class_by_qual[c.qual] = c
                if parent is None and cls is None:
                    m.classes[s.name] = c
                visit_body(s.body, c, None)
            else:
                if parent is None:
                    tgts = []
                    if isinstance(s, ast.Assign):
                        tgts = [(t, s.value) for t in s.targets]
                    elif isinstance(s, ast.AnnAssign):
                        tgts = [(s.target, s.value)]
                        if cls is not None and isinstance(s.target, ast.Name):
                            cls.class_ann[s.target.id] = s.annotation
                    for t, v in tgts:
                        if isinstance(t, ast.Name):
                            if cls is not None:
                                if v is not None:
                                    cls.class_attrs[t.id] = v
                            else:
                                if t.id in m.assigns and ast.dump(m.assigns[t.id]) != ast.dump(v):
                                    m.reassigned.add(t.id)
                                m.assigns[t.id] = v
                for fld in ("body", "orelse", "finalbody"):
                    sub = getattr(s, fld, None)
                    if sub and isinstance(sub, list):
                        visit_body(sub, cls, parent)
                for h in getattr(s, "handlers", []) or []:
                    visit_body(h.body, cls, parent)
            # lambdas inside
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                pass

        visit_body(m.tree.body, None, None)

    def _add_func(self, node, m, cls, parent, visit_body):
        f = FuncInfo(node, m, cls, parent)
        if parent is not None and f.cls is None:
            f.encl_cls = getattr(parent, "encl_cls", None)
        else:
            f.encl_cls = cls
        self.funcs.append(f)
        self.func_of_node[id(node)] = f
        if parent is not None:
            parent.nested.append(f)
        elif cls is not None:
            if f.is_setter:
                cls.setters[f.name] = f
            elif f.name in cls.methods and any(
                d.endswith((".getter", ".deleter")) for d in f.decorators
            ):
                pass
            else:
                cls.methods[f.name] = f
        else:
            m.functions[f.name] = f
        visit_body(node.body, cls if parent is None else None, f)
        # lambdas directly in f
        for lam in self._own_lambdas(node):
            lf = FuncInfo(lam, m, None, f)
            lf.encl_cls = f.encl_cls
            self.func_of_node[id(lam)] = lf
            f.nested.append(lf)

    @staticmethod
    def _own_lambdas(node):
        out = []

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                if isinstance(c, ast.Lambda):
                    out.append(c)
                    continue
                walk(c)

        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Lambda):
                out.append(s.value)
            walk(s)
        return out

    def _link(self):
        for c in self.classes:
            for b in c.base_exprs:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_expr(b, c.module)
                if r is None:
                    continue
                if r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subclasses.append(c)
                elif r[0] == "ext":
                    c.ext_bases.append(r[1])
        for c in self.classes:
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)

    # --------------------------------------------------------------- resolution
    def resolve_import(self, imp, seen=None):
        seen = seen or set()
        if imp in seen:
            return None
        seen = seen | {imp}
        if imp[0] == "mod":
            if imp[1] in self.modules:
                return ("mod", self.modules[imp[1]])
            return ("ext", imp[1])
        _, base, name = imp
        if base in self.modules:
            r = self.module_attr(self.modules[base], name, seen)
            if r is not None:
                return r
            return ("unknown", f"{base}.{name}")
        return ("ext", f"{base}.{name}")

    def module_attr(self, m: Module, name, seen=None):
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.imports:
            imp = m.imports[name]
            r = self.resolve_import(imp, seen)
            if r is not None and r[0] != "unknown":
                return r
        sub = f"{m.name}.{name}"
        if sub in self.modules:
            return ("mod", self.modules[sub])
        if name in m.assigns:
            v = m.assigns[name]
            if isinstance(v, (ast.Name, ast.Attribute)):
                r = self.resolve_expr(v, m)
                if r is not None and r[0] in ("class", "func", "mod", "ext"):
                    return r
            return ("global", m, name)
        for b in m.star_imports:
            if b in self.modules:
                r = self.module_attr(self.modules[b], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, e, module: Module, func: Optional[FuncInfo] = None):
        """Resolve a (dotted) name to a module-level entity, ignoring local variables."""
        if isinstance(e, ast.Name):
            f = func
            while f is not None:
                if e.id in f.local_imports:
                    return self.resolve_import(f.local_imports[e.id])
                for nf in f.nested:
                    if nf.name == e.id:
                        return ("func", nf)
                f = f.parent
            r = self.module_attr(module, e.id)
            if r is not None:
                return r
            if e.id in _BUILTINS:
                return ("ext", f"builtins.{e.id}")
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, module, func)
            if b is None:
                return None
            if b[0] == "mod":
                return self.module_attr(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
            if b[0] == "class":
                m = b[1].find(e.attr)
                if m is not None:
                    return ("func", m)
                q = f"{b[1].qual}.{e.attr}"
                if q in self.class_by_qual:
                    return ("class", self.class_by_qual[q])
                return ("classattr", b[1], e.attr)
            return None
        return None

    def get_class(self, suffix) -> Optional[ClassInfo]:
        """Find a class by (suffix of) qualified name or public path."""
        c = [x for x in self.classes if x.qual == suffix or x.qual.endswith("." + suffix)]
        return c[0] if c else None

    def get_public(self, dotted) -> Optional[Tuple]:
        """Resolve a public dotted path, e.g. probnum.linops.Kronecker."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                cur = ("mod", self.modules[mn])
                for p in parts[i:]:
                    if cur is None:
                        return None
                    if cur[0] == "mod":
                        cur = self.module_attr(cur[1], p)
                    elif cur[0] == "class":
                        f = cur[1].find(p)
                        cur = ("func", f) if f else None
                    else:
                        return None
                return cur
        return None

    # --------------------------------------------------------------- annotation
    def ann_types(self, ann, module, func=None) -> Optional[Set]:
        """Set of possible types: ClassInfo or 'ext:<dotted>' / 'none'.  None = unknown."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return {"none"}
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(ast.parse(ann.value, mode="eval").body, module, func)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.Subscript):
            head = ast.unparse(ann.value).split(".")[-1]
            if head == "Optional":
                t = self.ann_types(ann.slice, module, func)
                return None if t is None else t | {"none"}
            if head == "Union":
                elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                res = set()
                for x in elts:
                    t = self.ann_types(x, module, func)
                    if t is None:
                        return None
                    res |= t
                return res
            if head in ("Tuple", "tuple"):
                return {"ext:builtins.tuple"}
            if head in ("List", "list"):
                return {"ext:builtins.list"}
            if head in ("Dict", "dict", "Mapping", "DefaultDict", "MutableMapping"):
                return {"ext:builtins.dict"}
            if head in ("Sequence", "Iterable"):
                return {"ext:typing.Sequence"}
            if head in ("Callable",):
                return {"ext:typing.Callable"}
            if head in ("Type",):
                return {"ext:typing.Type"}
            if head in ("Generator", "Iterator"):
                return {"ext:typing.Iterator"}
            return self.ann_types(ann.value, module, func)
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a = self.ann_types(ann.left, module, func)
            b = self.ann_types(ann.right, module, func)
            return None if a is None or b is None else a | b
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.resolve_expr(ann, module, func)
            if r is None:
                # dotted string annotation of the form probnum.x.Y
                d = ast.unparse(ann)
                if d.startswith("probnum."):
                    p = self.get_public(d)
                    if p and p[0] == "class":
                        return {p[1]}
                return None
            if r[0] == "class":
                return {r[1]}
            if r[0] == "ext":
                tail = r[1].split(".")[-1]
                if tail in ("Sequence", "Iterable"):
                    return {"ext:typing.Sequence"}
                if tail in ("Callable",):
                    return {"ext:typing.Callable"}
                if tail in ("Dict",):
                    return {"ext:builtins.dict"}
                if tail in ("List",):
                    return {"ext:builtins.list"}
                if tail in ("Any",):
                    return None
                return {"ext:" + r[1]}
            if r[0] == "global":
                m, n = r[1], r[2]
                v = m.assigns.get(n)
                if n in _ALIAS_TYPES:
                    return set(_ALIAS_TYPES[n])
                if v is not None and isinstance(v, (ast.Subscript, ast.Name, ast.Attribute)):
                    return self.ann_types(v, m)
                return None
        return None


# type aliases of probnum.typing
_ALIAS_TYPES = {
    "IntLike": ["ext:builtins.int"],
    "FloatLike": ["ext:builtins.float"],
    "ScalarLike": ["ext:builtins.float"],
    "ScalarType": ["ext:builtins.float"],
    "ShapeLike": ["ext:shape"],
    "ShapeType": ["ext:builtins.tuple"],
    "DTypeLike": ["ext:dtype"],
    "ArrayLike": ["ext:arraylike"],
    "ArrayType": ["ext:numpy.ndarray"],
    "ArrayIndicesLike": ["ext:indices"],
    "NotImplementedType": ["ext:notimpl"],
}

_BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


def walk_own(node) -> Iterable[ast.AST]:
    """Walk a function body without entering nested function/class/lambda definitions."""
    todo = list(node.body if not isinstance(node, ast.Lambda) else [node.body])
    while todo:
        n = todo.pop(0)
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.append(c)
