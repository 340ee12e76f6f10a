"""C06: configuration contexts are exactly scoped."""
import ast

from ..cfg import CFG, node_exprs
from ..common import in_library
from ..deps import Deps
from ..prog import walk_own

LEVEL = "other"
EXPLANATION = (
    "Path rules on the control-flow graph of the configuration context manager: from every "
    "statement that installs a new option value, every path out of the context (normal end, "
    "exception in the body, rejected option) passes the loop that writes back the values "
    "read before installation; what is written back is the remembered current value (not a "
    "default, not the new value), for every option named, unconditionally.  Plus a "
    "package-wide rule: no library code assigns an option, reads one at import time, or "
    "suspends (yields) inside a configuration context."
)
ASSUMPTIONS = ["contextlib.contextmanager runs the code after yield exactly once on exit and throws body exceptions at the yield"]


def config_class(p):
    for c in p.classes:
        if "register" in c.methods and "__call__" in c.methods and "__setattr__" in c.methods and c.module.name.startswith("probnum"):
            return c
    return None


class Kinds:
    """Where a value comes from: 'set' (context argument), 'cur' (current option value,
    remembered), 'default' (an option's default)."""

    def __init__(self, f, deps):
        self.f, self.d = f, deps
        a = f.node.args
        self.k = {a.kwarg.arg} if a.kwarg else set()
        self.k |= set(f.params())

    def expr(self, e, seen=frozenset()):
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Attribute):
            if e.attr == "value":
                return {"cur"}
            if e.attr == "default_value":
                return {"default"}
            return self.expr(e.value, seen)
        if isinstance(e, ast.Name):
            if e.id in self.k:
                return {"set"}
            if e.id in seen:
                return set()
            res = set()
            for v in self.d.defs(self.f).get(e.id, []):
                res |= self.expr(v, seen | {e.id})
            for n in walk_own(self.f.node):
                # S.append(x), S.update(x), S.setdefault(k, x)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == e.id and n.func.attr in ("append", "update", "setdefault", "push", "add", "insert"):
                    for x in n.args:
                        res |= self.expr(x, seen | {e.id})
            return res
        if isinstance(e, ast.Call):
            fn = ast.unparse(e.func)
            if fn in ("getattr", "self.__getattr__"):
                return {"cur"}
            if isinstance(e.func, ast.Attribute):
                r = self.expr(e.func.value, seen)
                return r or set().union(*[self.expr(x, seen) for x in e.args]) if (r or e.args) else set()
            return set().union(*[self.expr(x, seen) for x in e.args]) if e.args else set()
        if isinstance(e, ast.Subscript):
            return self.expr(e.value, seen)
        if isinstance(e, (ast.DictComp,)):
            return self.expr(e.value, seen)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.expr(e.elt, seen)
        if isinstance(e, ast.Tuple):
            return set().union(*[self.expr(x, seen) for x in e.elts]) if e.elts else set()
        if isinstance(e, ast.Dict):
            return set().union(*[self.expr(x, seen) for x in e.values]) if e.values else set()
        if isinstance(e, ast.IfExp):
            return self.expr(e.body, seen) | self.expr(e.orelse, seen)
        return set()


def writers(c):
    """Methods of the class that write an option value -> name of the value parameter."""
    w = {"__setattr__": 1}
    for n, m in c.methods.items():
        if n in ("__init__", "register", "__call__"):
            continue
        for s in walk_own(m.node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "value":
                        w.setdefault(n, None)
    return w


def option_writes(n, w):
    """(value expr) for every option write evaluated at CFG node n."""
    for e in node_exprs(n):
        for s in ast.walk(e):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "value":
                        yield [s.value]
            elif isinstance(s, ast.Call):
                fn = ast.unparse(s.func)
                if fn in ("setattr", "object.__setattr__") and len(s.args) == 3:
                    yield [s.args[2]]
                elif isinstance(s.func, ast.Attribute) and s.func.attr in w:
                    yield list(s.args) + [k.value for k in s.keywords]


def check(ctx, res):
    p = ctx.prog
    c = config_class(p)
    if c is None:
        raise RuntimeError("configuration class not found")
    d = Deps(p, ctx.eff)
    f = c.methods["__call__"]
    if any("contextmanager" in x for x in f.decorators):
        context_rules(f, c, d, res)
    else:
        res.undecided.append(f"{f.qual}: not a generator-based context manager")
    accessors(c, d, res)
    for g in p.func_of_node.values():
        if in_library(g) and not g.module.name.endswith("._config"):
            usage(p, g, d, res)
    for m in p.modules.values():
        if not m.name.startswith("probnum.conftest"):
            import_time(p, m, d, res)


def context_rules(f, c, d, res):
    g = CFG(f.node)
    k = Kinds(f, d)
    w = writers(c)
    ys = g.find(lambda n: any(isinstance(x, (ast.Yield, ast.YieldFrom)) for e in node_exprs(n) for x in ast.walk(e)))
    after = g.reach(ys)
    sets, restores = [], []
    for n in g.nodes:
        for vals in option_writes(n, w):
            kinds = set()
            for v in vals:
                kinds |= k.expr(v)
            res.count("option_writes_in_context_manager")
            if n in after:
                restores.append(n)
                if "default" in kinds:
                    res.add("restores-default", f.qual, "on exit the option is set to its default instead of the value it had on entry", file=f.file, line=n.line)
                elif "set" in kinds and "cur" not in kinds and len(vals) == 1:
                    res.add("restores-new-value", f.qual, "on exit the option is set to the context's own value", file=f.file, line=n.line)
            else:
                if "cur" in kinds and "set" not in kinds:
                    restores.append(n)  # clean-up before the body
                else:
                    sets.append(n)
    par = {}
    for x in ast.walk(f.node):
        for y in ast.iter_child_nodes(x):
            par[y] = x

    def loops(a):
        out = []
        while a in par:
            a = par[a]
            if isinstance(a, (ast.For, ast.While)):
                out.append(a)
        return out

    keys = {x.id for n in ast.walk(f.node) if isinstance(n, ast.Subscript) for x in ast.walk(n.slice) if isinstance(x, ast.Name)}
    heads = set()
    for r in restores:
        st = r.ast
        for l in loops(st):
            heads.add(l if isinstance(l, ast.For) else l.test)
        # conditional restore
        a = st
        while a in par:
            up = par[a]
            if isinstance(up, ast.If) and a is not up.test:
                if value_test(up.test, k, keys):
                    res.add("conditional-restore", f.qual, "an option is written back only under a condition on its value", file=f.file, line=up.lineno)
            if isinstance(up, ast.For) and any(isinstance(x, ast.Slice) for x in ast.walk(up.iter)):
                res.add("partial-restore", f.qual, "only some of the options are written back", file=f.file, line=up.lineno)
            a = up
        if r in after and not loops(st) and not isinstance(st, ast.Expr):
            pass
    rset = set(restores)

    def is_restore(n):
        return n in rset or (n.ast is not None and (n.ast in heads) and any(True for _ in [0]) and n.kind in ("iter", "test"))

    for s in sets:
        # edges: normal, explicit raise; implicit exceptions only at the yield
        todo, seen, bad = [s], {s}, None
        while todo and bad is None:
            n = todo.pop()
            for m, kd in n.succ:
                if kd == "i" and n not in ys:
                    continue
                if m in seen or is_restore(m):
                    continue
                seen.add(m)
                if m in (g.exit, g.raise_exit):
                    bad = (n, m)
                    break
                todo.append(m)
        res.count("exit_paths_checked")
        if bad:
            n, m = bad
            what = "exception" if m is g.raise_exit else "normal exit"
            res.add("exit-without-restore", f"{f.qual}|{what}", f"a path from installing an option value to {what} (line {n.line}) does not write the old value back",
                    file=f.file, line=s.line)
    # the remembered value is read before the new one is installed
    snaps = []
    for n in g.nodes:
        if n in after:
            continue
        for e in node_exprs(n):
            for x in ast.walk(e):
                if isinstance(x, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Name)) for t in x.targets) and k.expr(x.value) == {"cur"} and not isinstance(x.value, ast.Name):
                    snaps.append(n)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "setdefault", "update") and any("cur" in k.expr(y) for y in x.args):
                    snaps.append(n)
    for s in sets:
        for n in snaps:
            common = [l for l in loops(s.ast) if l in loops(n.ast)]
            avoid = (lambda m: False)
            if common:
                hd = common[0] if isinstance(common[0], ast.For) else common[0].test
                avoid = lambda m, hd=hd: m.ast is hd
            if n in g.reach(s, "ntf", avoid):
                res.add("remembered-after-set", f.qual, "the value to restore is read after the new value has been installed", file=f.file, line=n.line)
    if sets and not restores:
        res.add("exit-without-restore", f"{f.qual}|normal exit", "no statement restores the options", file=f.file, line=f.node.lineno)


def value_test(t, k, keys):
    """Does the test look at an option value (other than new-versus-old inequality)?"""
    if isinstance(t, ast.BoolOp):
        return any(value_test(x, k, keys) for x in t.values)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return value_test(t.operand, k, keys)

    def kinds(e):
        r = set()
        for x in [e] if not isinstance(e, (ast.Compare, ast.BoolOp)) else ast.walk(e):
            if isinstance(x, ast.Name) and x.id in keys:
                continue
            r |= k.expr(x)
        return r

    if isinstance(t, ast.Compare):
        if isinstance(t.ops[0], (ast.In, ast.NotIn)):
            return False
        sides = [kinds(t.left), kinds(t.comparators[0])]
        if all(s == {"cur"} for s in sides) and isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
            return False
        return any(s & {"cur", "default"} for s in sides)
    return bool(kinds(t) & {"cur", "default"})


def accessors(c, d, res):
    ga = c.methods.get("__getattr__")
    if ga:
        k = Kinds(ga, d)
        for n in walk_own(ga.node):
            if isinstance(n, ast.Return) and n.value is not None:
                res.count("accessor_returns")
                if k.expr(n.value) == {"default"}:
                    res.add("reads-default", ga.qual, "reading an option returns its default", file=ga.file, line=n.lineno)
    for nm in ("__setattr__", "__call__"):
        m = c.methods.get(nm)
        for n in walk_own(m.node) if m else ():
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "default_value" for t in n.targets):
                res.add("writes-default", m.qual, "setting an option overwrites its default", file=m.file, line=n.lineno)
    r = c.methods.get("register")
    if r and not any(isinstance(n, ast.Raise) for n in walk_own(r.node)):
        calls = [n for n in walk_own(r.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == r.self_name]
        if not calls:
            res.add("re-registration", r.qual, "registering an existing option silently overwrites it", file=r.file, line=r.node.lineno)


def is_config(p, e, f, m):
    q = p.resolve_expr(e, m, f) if isinstance(e, (ast.Name, ast.Attribute)) else None
    return bool(q and q[0] == "global" and (q[1].name.endswith("._config") or q[2] == "config"))


def shadowed(f, name):
    g = f
    while g is not None:
        if name in g.params():
            return True
        g = g.parent
    return False


def usage(p, f, d, res):
    for n in walk_own(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for t in ts:
                b = t
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                    if isinstance(b, (ast.Name, ast.Attribute)) and is_config(p, b, f, f.module) and not (isinstance(b, ast.Name) and shadowed(f, b.id)):
                        res.add("option-assigned", f"{f.qual}|{ast.unparse(t)}", "library code changes a configuration option outside a context", file=f.file, line=n.lineno)
                        break
        if isinstance(n, ast.Call):
            fn = ast.unparse(n.func)
            if fn in ("setattr", "object.__setattr__") and n.args and is_config(p, n.args[0], f, f.module):
                res.add("option-assigned", f"{f.qual}|setattr", "library code changes a configuration option outside a context", file=f.file, line=n.lineno)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("__setattr__", "__enter__", "enter_context") and (
                is_config(p, n.func.value, f, f.module) or (isinstance(n.func.value, ast.Call) and is_config(p, n.func.value.func, f, f.module))
            ):
                res.add("option-assigned", f"{f.qual}|{n.func.attr}", "library code changes a configuration option outside a with block", file=f.file, line=n.lineno)
            if isinstance(n.func, (ast.Name, ast.Attribute)) and is_config(p, n.func, f, f.module):
                res.count("context_uses_in_library")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and d.config_read(n, f):
            res.count("option_reads")
        if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and is_config(p, i.context_expr.func, f, f.module) for i in n.items):
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b)):
                res.add("context-across-yield", f.qual, "a generator suspends inside a configuration context: the option leaks to the consumer", file=f.file, line=n.lineno)


def import_time(p, m, d, res):
    """Option reads evaluated when the module is imported."""
    if m.name.endswith("._config"):
        return

    def visit(n, cls):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in n.args.defaults + [k for k in n.args.kw_defaults if k is not None] + n.decorator_list:
                visit(x, cls)
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, (ast.FunctionDef,)):
                        for y in x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                            pass
            return
        if isinstance(n, ast.Lambda):
            for x in n.args.defaults:
                visit(x, cls)
            return
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and is_config(p, n.value, None, m) and n.attr not in ("register",):
            res.add("option-frozen-at-import", f"{m.name}|{n.attr}", f"option {n.attr} is read when the module is imported; later settings are ignored", file=m.relpath, line=n.lineno)
        for ch in ast.iter_child_nodes(n):
            visit(ch, cls)

    visit(m.tree, None)
    res.count("modules_scanned_for_import_time_reads")
