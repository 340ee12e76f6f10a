"""C05: a memoised value is the one that would be computed afresh."""
import ast

from ..common import in_library, invert, with_helpers
from ..deps import CONFIG, Deps, faithful
from ..prog import walk_own
from .c02 import CONSTRUCTORS, allowed, derived_only

LEVEL = "other"
EXPLANATION = (
    "Dependence analysis of every memo in the package: attribute caches filled outside "
    "the constructor, module-level dictionaries, functools.cached_property and lru_cache. "
    "Obligation per memo: the stored expression depends (backward slice through locals, "
    "closures and resolved callees) on the receiver's construction data and on arguments "
    "that occur undistorted in the key, on no other argument and on no option of the "
    "global configuration; a cache that is filled for one variant is re-tested against "
    "the requested variant before it is returned."
)
ASSUMPTIONS = [
    "the explicit precomputation call of the Normal covariance factor is part of the interface (its damping argument applies to the first computation)",
]
DOCUMENTED = {"precompute_cov_cholesky"}
# options that select the representation of a result (array / linear operator), not its
# value; that both representations denote the same matrix is judged by C18
REPRESENTATION_ONLY = {"matrix_free"}


def stores(f):
    """(attr, key expr or None, value, node) for self.attr = v and self.attr[key] = v"""
    sn = f.self_name
    if sn is None:
        return
    for n in walk_own(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and getattr(n, "value", None) is not None:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn:
                    yield t.attr, None, n.value, n
                elif (
                    isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute)
                    and isinstance(t.value.value, ast.Name) and t.value.value.id == sn
                ):
                    yield t.value.attr, t.slice, n.value, n


def expand_key(key, f, d):
    """Inline local definitions of the key (one level of names, repeatedly)."""
    keys = [key]
    seen = set()
    todo = [n.id for n in ast.walk(key) if isinstance(n, ast.Name)]
    while todo:
        nm = todo.pop()
        if nm in seen:
            continue
        seen.add(nm)
        for v in d.defs(f).get(nm, []):
            keys.append(v)
            todo += [n.id for n in ast.walk(v) if isinstance(n, ast.Name)]
    return keys


def retested(f, param, attr, line):
    """After the store, a test mentions the parameter again (variant check)."""
    names = {param}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, (ast.Name, ast.UnaryOp, ast.BoolOp, ast.Compare)) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                names.add(n.targets[0].id)
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    holders = {attr}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, ast.Attribute) and n.value.attr == attr:
                holders.add(n.targets[0].id)
    returns = [
        n for n in walk_own(f.node)
        if isinstance(n, ast.Return) and n.value is not None and any(
            (isinstance(x, ast.Attribute) and x.attr == attr) or (isinstance(x, ast.Name) and x.id in holders) for x in ast.walk(n.value))
    ]
    mention = lambda t: any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(t))
    if not returns:
        return any(isinstance(n, (ast.If, ast.IfExp)) and n.test.lineno > line and mention(n.test) for n in walk_own(f.node))
    for r in returns:
        ok = any(isinstance(x, ast.IfExp) and mention(x.test) for x in ast.walk(r.value))
        n = r
        while not ok and n in par:
            up = par[n]
            if isinstance(up, ast.If) and n is not up.test and mention(up.test):
                ok = True
            # an earlier sibling that leaves the function on a test of the parameter
            for blk in ("body", "orelse", "finalbody"):
                lst = getattr(up, blk, None)
                if isinstance(lst, list) and n in lst:
                    for s in lst[: lst.index(n)]:
                        if isinstance(s, ast.If) and mention(s.test) and any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s)):
                            ok = True
            n = up
        if not ok:
            return False
    return True


def compared(f, params):
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("array_equal", "array_equiv"):
            return True
    return False


def control_params(f, line, d):
    """Parameters deciding which value is stored at `line` (enclosing tests)."""
    return set()


def check(ctx, res):
    p, e = ctx.prog, ctx.eff
    d = Deps(p, e)
    al = allowed(p)
    inv = invert(e.callees)
    for c in p.classes:
        if c.module.name.startswith("probnum.conftest") or al.get(c, set()) is None:
            continue
        lim = al.get(c) or set()
        if lim:
            lim = with_helpers(e, c, lim | CONSTRUCTORS, inv)
        doc = with_helpers(e, c, DOCUMENTED, inv) if any(c.find(x) for x in DOCUMENTED) else DOCUMENTED
        for f in c.methods.values():
            if f.name in CONSTRUCTORS or f.is_setter or f.name in lim or f.is_classmethod or f.is_static:
                continue
            for attr, key, val, node in stores(f):
                if not derived_only(c, c.mangle(attr), p):
                    # a constructor attribute completed later (lazy representation)
                    pass
                res.count("attribute_memos")
                if f.name in doc:
                    continue
                dep = d.expr(val, f)
                for o in sorted(x for x in dep if x.startswith(CONFIG) and x[len(CONFIG):] not in REPRESENTATION_ONLY):
                    res.add("memo-depends-on-config", f"{f.qual}|{attr}|{o[len(CONFIG):]}",
                            f"value stored in `{attr}` depends on configuration option {o[len(CONFIG):]}, which may differ at the next use",
                            file=f.file, line=node.lineno)
                pars = {x for x in dep if not x.startswith(CONFIG)}
                if key is not None:
                    ks = expand_key(key, f, d)
                    pars = {q for q in pars if not any(faithful(k, q) for k in ks)}
                else:
                    pars = {q for q in pars if not retested(f, q, attr, node.lineno)}
                if compared(f, pars):
                    pars = set()
                if pars and not read_back(c, c.mangle(attr), f, attr):
                    continue
                if pars:
                    res.add("memo-key-incomplete", f"{f.qual}|{attr}",
                            f"value stored in `{attr}` depends on argument(s) {sorted(pars)} that do not key the cache",
                            file=f.file, line=node.lineno)
    for f in p.funcs:
        if not in_library(f):
            continue
        lru = any(x.split("(")[0].split(".")[-1] in ("lru_cache", "cache") for x in f.decorators)
        if not (lru or f.is_cached_property):
            continue
        res.count("decorated_memos")
        if f.name in DOCUMENTED:
            continue
        if f.is_cached_property and f.cls is not None and f.cls.name in ("RandomVariable",):
            continue
        for o in sorted(d.func_config(f)):
            if o == "covariance_inversion_damping" or o in REPRESENTATION_ONLY:
                continue
            res.add("memo-depends-on-config", f"{f.qual}|{o}",
                    f"memoised function reads configuration option {o}: the first caller's setting sticks", file=f.file, line=f.node.lineno)
    module_memos(ctx, res, d)
    for c in p.classes:
        if c.module.name.startswith("probnum.conftest"):
            continue
        for f in c.methods.values():
            if f.self_name and f.name not in CONSTRUCTORS:
                try:
                    served_unfilled(c, f, res)
                except Exception:  # unknown construct: undecided, counted
                    res.count("memo_guards_undecided")


def self_attr(x, sn):
    return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn else None


def is_none_of(t, sn, positive=True):
    """attribute tested by `self.a is None` (or `is not None`)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return is_none_of(t.operand, sn, not positive)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        if isinstance(t.ops[0], ast.Is if positive else ast.IsNot):
            return self_attr(t.left, sn)
    return None


def conjuncts(t, op):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, op):
        return [y for x in t.values for y in conjuncts(x, op)]
    return [t]


def filled_without(c, other, attr, sn_fn):
    """a method that sets `other` to a value but leaves `attr` alone"""
    for k in c.mro():
        for m in k.methods.values():
            if m is sn_fn or m.name in CONSTRUCTORS or not m.self_name:
                continue
            st = {a: v for a, key, v, n in stores(m) if key is None}
            v = st.get(other)
            if v is None or (isinstance(v, ast.Constant) and v.value is None) or attr in st:
                continue
            calls = {x.attr for x in ast.walk(m.node) if isinstance(x, ast.Attribute) and self_attr(x, m.self_name)}
            if any(attr in {a for a, *_ in stores(q)} for kk in c.mro() for q in kk.methods.values() if q.name in calls):
                continue
            return m
    return None


def served_unfilled(c, f, res):
    """`if <guard>: self.a = ...` then `return self.a`: not <guard> must imply filled."""
    sn = f.self_name
    body = f.node.body
    for i, st in enumerate(body):
        if not isinstance(st, ast.If) or st.orelse:
            continue
        rest = body[i + 1:]
        for r in rest:
            if isinstance(r, ast.Return):
                break
        else:
            continue
        if r.value is None:
            continue
        inside = {}
        for x in st.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    sub = isinstance(t, ast.Subscript)
                    a = self_attr(t.value if sub else t, sn)
                    if a:
                        inside[a] = sub
        # served: plain `self.a` or `self.a[key]`
        v = r.value
        key = None
        if isinstance(v, ast.Subscript):
            key, v = v.slice, v.value
        a = self_attr(v, sn)
        if a not in inside or inside[a] != (key is not None):
            continue
        between = [t for x in rest[: rest.index(r)] for t in ast.walk(x) if self_attr(t, sn) == a and not isinstance(t.ctx, ast.Load)]
        if between:
            continue
        res.count("memo_guards")
        if key is None:
            tests = [is_none_of(t, sn) for t in conjuncts(st.test, ast.And)]
            if not tests or None in tests:
                continue
            for other in tests:
                if other == a:
                    continue
                m = filled_without(c, other, a, f)
                if m is not None:
                    res.add("memo-served-unfilled", f"{f.qual}|{a}",
                            f"`{a}` is returned although only `{other}` is known to be filled when its computation is skipped ({m.qual} fills that one alone)",
                            file=f.file, line=st.lineno)
        else:
            t = st.test
            empty = (
                (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and self_attr(t.operand, sn) == a)
                or (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name)
                    and t.left.func.id == "len" and t.left.args and self_attr(t.left.args[0], sn) == a
                    and isinstance(t.ops[0], (ast.Eq, ast.Lt)))
            )
            if empty and any(isinstance(x, ast.Name) and x.id in f.params() and x.id != sn for x in ast.walk(key)):
                res.add("memo-served-unfilled", f"{f.qual}|{a}",
                        f"an entry of `{a}` is served whenever the memo is non-empty, not only when that entry has been computed",
                        file=f.file, line=st.lineno)


def read_back(c, attr, f, raw):
    """Is the attribute read anywhere (other than being overwritten)?"""
    for k in set(c.mro()) | set(c.all_subclasses()):
        for m in k.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and n.attr == raw and isinstance(n.ctx, ast.Load):
                    return True
    return False


def module_memos(ctx, res, d):
    p = ctx.prog
    for f in p.func_of_node.values():
        if not in_library(f):
            continue
        for key, val, gname, node in global_stores(p, f):
            res.count("module_level_memos")
            bad = bad_global_store(d, f, key, val)
            if bad:
                res.add("memo-key-incomplete", f"{f.qual}|{gname}", f"value stored in module-level {gname} depends on {sorted(bad)} that do not key it",
                        file=f.file, line=node.lineno)


def global_stores(p, f):
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    if any(isinstance(x, ast.Name) and x.id == t.value.id and isinstance(x.ctx, ast.Store) for x in walk_own(f.node)):
                        continue
                    q = p.resolve_expr(t.value, f.module, f)
                    if q and q[0] == "global" and t.value.id not in f.params():
                        yield t.slice, n.value, f"{q[1].name}.{q[2]}", n


def bad_global_store(d, f, key, val):
    dep = d.expr(val, f)
    ks = expand_key(key, f, d)
    bad = {x for x in dep if x.startswith(CONFIG) or not any(faithful(k, x) for k in ks)}
    if f.self_name and any(isinstance(n, ast.Name) and n.id == f.self_name for n in ast.walk(val)):
        if not any(isinstance(n, ast.Name) and n.id == f.self_name for k in ks for n in ast.walk(k)):
            bad.add("self")
    return bad
