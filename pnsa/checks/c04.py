"""C04: results depend on the arguments only, not on what ran before or on the process."""
import ast

from ..common import in_library
from ..prog import walk_own

LEVEL = "other"
EXPLANATION = (
    "Effect and source analysis over all functions: (1) no function writes, directly or "
    "through an alias (module globals, class-level containers, mutable default arguments, "
    "results memoised by lru_cache), an object that outlives the call; (2) no function "
    "changes process-wide settings (NumPy error/print state, warning filters outside a "
    "catch_warnings block, environment, recursion limit, locale); (3) no function reads "
    "clocks, environment, process or thread identity, object identities or hash order."
)
ASSUMPTIONS = [
    "probnum.config is the one documented process-wide setting; its own class is judged by C06",
    "user-supplied callables are deterministic",
]

PROCESS_WRITES = {
    "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.setbufsize",
    "os.putenv", "os.chdir", "os.unsetenv", "sys.setrecursionlimit", "locale.setlocale",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
    "gc.disable", "gc.enable", "sys.settrace", "signal.signal", "decimal.setcontext",
    "jax.config.update",
}
AMBIENT = (
    "time.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today",
    "datetime.date.today", "os.environ", "os.getenv", "os.getpid", "os.times", "os.cpu_count", "os.getcwd",
    "sys.argv", "platform.", "socket.", "threading.get_ident", "threading.current_thread",
    "multiprocessing.", "tempfile.", "getpass.", "resource.", "psutil.", "os.getloadavg",
    "builtins.id", "builtins.globals", "builtins.input", "gc.get_", "inspect.stack", "sys._getframe",
)
EXEMPT_MODULES = ("probnum.conftest", "probnum.problems.zoo.linalg._suitesparse_matrix")


def check(ctx, res):
    p, e = ctx.prog, ctx.eff
    for f, s in e.summ.items():
        if not in_library(f):
            continue
        res.count("functions_summarised")
        for ef in s.effects.values():
            if ef.origin[0] != "G" or ef.via or ef.func is not f:
                continue
            g = ef.origin[1]
            if "_config" in g or g.endswith(".config"):
                continue
            if complete_memo(ctx, f, ef.line):
                res.count("completely_keyed_memos")
                continue
            res.count("writes_to_long_lived_objects")
            res.add(
                "persistent-object-written",
                f"{f.qual}|{g}",
                f"{ef.why}: may write {g}, which outlives the call",
                file=f.file,
                line=ef.line,
            )
        # a memoised / default object written by a callee
        for ef in s.effects.values():
            if ef.origin[0] == "G" and ef.via and ef.kind == "content":
                g = ef.origin[1]
                if g.startswith(("default value", "memoised")):
                    res.add("persistent-object-written", f"{ef.func.qual}|{g}", f"{ef.why}: may write {g}",
                            file=ef.func.file, line=ef.line)
    # mutable default arguments that are captured
    for f in p.funcs:
        if not in_library(f):
            continue
        for n, d in f.defaults().items():
            res.count("default_arguments")
            if not mutable_literal(d):
                continue
            res.count("mutable_default_arguments")
            g = f"default value of parameter {n} of {f.qual}"
            s = e.summ.get(f)
            if s is None:
                continue
            for a, av in s.attr_store.items():
                if ("G", g) in av.direct:
                    res.add("mutable-default-captured", f"{f.qual}|{n}",
                            f"mutable default of `{n}` is stored in attribute `{a}`: shared by all instances", file=f.file, line=f.node.lineno)
            if s.ret is not None and ("G", g) in s.ret.direct:
                res.add("mutable-default-returned", f"{f.qual}|{n}", f"mutable default of `{n}` may be returned to the caller", file=f.file, line=f.node.lineno)
    # ambient reads / process-wide writes
    for f in p.func_of_node.values():
        if not in_library(f) or f.module.name.startswith(EXEMPT_MODULES):
            continue
        scan(p, f, res)


def complete_memo(ctx, f, line):
    """The write stores into a module-level dictionary under a key that determines the
    stored value (judged by the dependence analysis of C05)."""
    from ..deps import Deps
    from .c05 import bad_global_store, global_stores

    if not hasattr(ctx, "_deps"):
        ctx._deps = Deps(ctx.prog, ctx.eff)
    for key, val, _, node in global_stores(ctx.prog, f):
        if node.lineno <= (line or 0) <= (node.end_lineno or node.lineno):
            return not bad_global_store(ctx._deps, f, key, val)
    return False


def mutable_literal(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
        isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute))
        and ast.unparse(d.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter")
    )


def in_catch_warnings(f, line):
    for n in walk_own(f.node):
        if isinstance(n, ast.With) and n.lineno <= line <= n.end_lineno:
            for i in n.items:
                if "catch_warnings" in ast.unparse(i.context_expr) or "errstate" in ast.unparse(i.context_expr):
                    return True
    return False


def scan(p, f, res):
    res.count("functions_scanned")
    sets = set()
    for n in walk_own(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            if isinstance(n, ast.Name) and (n.id in f.params() or local(f, n.id)):
                continue
            q = p.resolve_expr(n, f.module, f)
            ext = q[1] if q and q[0] == "ext" else None
            if ext is None:
                continue
            if ext in PROCESS_WRITES and not in_catch_warnings(f, n.lineno):
                res.add("process-setting-changed", f"{f.qual}|{ext}", f"{ext} changes process-wide state and is not undone", file=f.file, line=n.lineno)
            if ext.startswith(AMBIENT) and not (ext.startswith("builtins.id") and ext != "builtins.id"):
                if ext == "builtins.id" and not called(f, n):
                    continue
                res.add("ambient-input", f"{f.qual}|{ext}", f"result may depend on {ext}", file=f.file, line=n.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hash" and f.name != "__hash__":
            res.add("hash-order", f"{f.qual}|hash", "hash() value used outside __hash__", file=f.file, line=n.lineno)
        # ordered consumption of a set
        it = None
        if isinstance(n, ast.For):
            it = n.iter
        elif isinstance(n, ast.comprehension):
            it = n.iter
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "zip", "iter", "next") and n.args:
            it = n.args[0]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "fromiter", "concatenate", "stack", "join") and n.args:
            it = n.args[0]
        if it is not None and is_set(f, it):
            res.add("hash-order", f"{f.qual}|{ast.unparse(it)[:40]}", "iteration order of a set reaches the result", file=f.file, line=n.lineno if hasattr(n, "lineno") else it.lineno)


def called(f, n):
    return any(isinstance(c, ast.Call) and c.func is n for c in walk_own(f.node))


def local(f, name):
    g = f
    while g is not None:
        if name in g.params():
            return True
        for n in walk_own(g.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return True
        g = g.parent
    return False


def is_set(f, e):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        return True
    if isinstance(e, ast.Name):
        vals = [
            s.value for s in walk_own(f.node)
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)
        ]
        return bool(vals) and all(is_set(f, v) for v in vals if not isinstance(v, ast.Name))and any(not isinstance(v, ast.Name) for v in vals)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(f, e.left) or is_set(f, e.right)
    return False
