"""Which inputs of a function may influence an expression (backward slice, flow-insensitive)."""
import ast

from .prog import walk_own

CONFIG = "<config>"


class Deps:
    def __init__(self, prog, eff):
        self.p, self.e = prog, eff
        self._cfg = {}
        self._defs = {}

    def defs(self, f):
        if f not in self._defs:
            d = {}

            def add(t, v):
                if isinstance(t, ast.Name):
                    d.setdefault(t.id, []).append(v)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        for x, y in zip(t.elts, v.elts):
                            add(x, y)
                    else:
                        for x in t.elts:
                            add(x, v)
                elif isinstance(t, ast.Starred):
                    add(t.value, v)
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    d.setdefault(t.value.id, []).append(v)

            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        add(t, n.value)
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                    add(n.target, n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    add(n.target, n.iter)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            add(i.optional_vars, i.context_expr)
            self._defs[f] = d
        return self._defs[f]

    def config_read(self, n, f):
        """Is node n a read of an option of the global configuration?"""
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, (ast.Name, ast.Attribute)):
            q = self.p.resolve_expr(n.value, f.module, f)
            if q and q[0] == "global" and q[1].name.endswith("_config"):
                return n.attr
            if q and q[0] == "global" and q[2] in ("config", "_GLOBAL_CONFIG_SINGLETON"):
                return n.attr
        return None

    def func_config(self, f, stack=()):
        """Options that calling f may read (transitively)."""
        if f in self._cfg:
            return self._cfg[f]
        if f in stack or len(stack) > 12:
            return frozenset()
        res = set()
        for n in ast.walk(f.node):
            o = self.config_read(n, f)
            if o and o != "register":
                res.add(o)
        for g in self.e.callees.get(f, ()):
            res |= self.func_config(g, stack + (f,))
        if not stack:
            self._cfg[f] = frozenset(res)
        return frozenset(res)

    def expr(self, e, f, seen=None):
        """Names of parameters (of f or enclosing functions) that may influence e, and
        CONFIG:<option> entries."""
        seen = set() if seen is None else seen
        res = set()
        own = set(f.params())
        if f.node.args.vararg:
            own.add(f.node.args.vararg.arg)
        if f.node.args.kwarg:
            own.add(f.node.args.kwarg.arg)
        for n in ast.walk(e):
            o = self.config_read(n, f)
            if o:
                res.add(CONFIG + o)
            if isinstance(n, ast.Call):
                for g in self.e.sites.get(id(n), ()):
                    for o in self.func_config(g):
                        res.add(CONFIG + o)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in own:
                    res.add(n.id)
                if n.id in seen:
                    continue
                seen.add(n.id)
                g = f
                while g is not None:
                    d = self.defs(g).get(n.id)
                    if d:
                        for v in d:
                            res |= self.expr(v, g, seen)
                        break
                    if n.id in g.params():
                        break
                    g = g.parent
        return res


LOSSY_ATTR = {"shape", "ndim", "size", "dtype", "nbytes"}
LOSSY_CALL = {"id", "len", "round", "int", "type", "hash", "bool", "isinstance", "floor", "ceil", "around", "rint", "sum", "mean", "norm"}


def faithful(key, name):
    """Does `key` determine the value of the variable `name`?"""
    par = {}
    for n in ast.walk(key):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    for n in ast.walk(key):
        if isinstance(n, ast.Name) and n.id == name:
            ok = True
            up = par.get(n)
            while up is not None:
                if isinstance(up, ast.Attribute) and up.attr in LOSSY_ATTR:
                    ok = False
                if isinstance(up, ast.Call):
                    t = ast.unparse(up.func).split(".")[-1]
                    if t in LOSSY_CALL:
                        ok = False
                if isinstance(up, (ast.BinOp, ast.Subscript, ast.Compare)) and not isinstance(up, ast.Subscript):
                    ok = False
                up = par.get(up)
            if ok:
                return True
    return False
