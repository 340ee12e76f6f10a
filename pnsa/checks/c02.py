"""C02: using a value object does not change it."""
import ast

from ..common import in_library, invert, is_private, public_class, with_helpers
from ..prog import walk_own

LEVEL = "other"
EXPLANATION = (
    "Write-effect analysis of every method of every class that is not a documented "
    "mutable protocol: obligation per non-constructor public method, property and "
    "operator: no attribute of the receiver is rebound, no object held by the receiver is "
    "written in place and no attribute of a held object is rebound, on any path through "
    "any helper, except by the memo idiom (the write is control-dependent on a test of "
    "the very attribute it fills) and by explicit property setters."
)
ASSUMPTIONS = [
    "classes whose documented purpose is to evolve (ODE solvers, LinearSolverState, posteriors under construction, diffusion calibration, iteration counters, the configuration) are exempt",
]

# (class, methods allowed to update the receiver; None = all)
MUTABLE = {
    "probnum._config.Configuration": None,
    "probnum.diffeq.ODESolver": None,
    "probnum.linalg.solvers.LinearSolverState": None,
    "probnum.filtsmooth.TimeSeriesPosterior": {"append", "freeze"},
    "probnum.randprocs.markov.continuous.Diffusion": {"update_in_place"},
    "probnum.diffeq.odefilter.information_operators.ODEInformationOperator": {"incorporate_ode"},
    "probnum.filtsmooth.optim.FiltSmoothStoppingCriterion": {"__call__", "terminate"},
    "probnum.quad.solvers.BayesianQuadrature": {"integrate"},
    "probnum.linalg.solvers.matrixbased.MatrixBasedSolver": None,
    "probnum.linalg.solvers.matrixbased.SymmetricMatrixBasedSolver": None,
}
CONSTRUCTORS = {"__init__", "__new__", "__post_init__", "__init_subclass__", "__setstate__", "__set_name__"}


def allowed(p):
    m = {}
    for d, ms in MUTABLE.items():
        c = public_class(p, d) or p.get_class(d.split(".")[-1])
        if c is None:
            continue
        for s in c.all_subclasses():
            if s in m and m[s] is not None and ms is not None:
                m[s] = m[s] | ms
            else:
                m[s] = ms
    return m


class SelfReads:
    """Attributes of self that an expression may read, through properties and methods."""

    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def expr(self, e, f, depth=0):
        res = set()
        cls = f.encl_cls
        sn = None
        g = f
        while g is not None:
            if g.self_name:
                sn = g.self_name
                break
            g = g.parent
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn:
                a = cls.mangle(n.attr) if cls else n.attr
                res.add(a)
                if cls is not None and depth < 3:
                    m = cls.find(n.attr)
                    if m is not None:
                        res |= self.func(m, depth + 1)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr"):
                if n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == sn and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        res.add(n.args[1].value)
                    else:
                        res.add("*")
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and depth == 0:
                # a local variable that was loaded from self just before
                for st in walk_own(f.node):
                    if isinstance(st, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == n.id for t in st.targets
                    ):
                        res |= self.expr(st.value, f, 1) if st.value is not e else set()
        return res

    def func(self, m, depth):
        k = (m, depth)
        if k not in self.memo:
            self.memo[k] = set()
            r = set()
            for n in walk_own(m.node):
                if isinstance(n, ast.expr):
                    if isinstance(n, ast.Attribute):
                        r |= self.expr(n, m, depth)
            self.memo[k] = r
        return self.memo[k]


def conditions_at(f, line):
    """(test, truth) pairs that hold whenever the statement at `line` of f executes:
    enclosing branches and earlier branches that leave the function."""
    out = []

    def exits(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def covers(s):
        return s.lineno <= line <= (s.end_lineno or s.lineno)

    def walk(body):
        for s in body:
            if covers(s):
                if isinstance(s, (ast.If, ast.While)):
                    for blk, tr in ((s.body, True), (s.orelse, False)):
                        if any(covers(x) for x in blk):
                            out.append((s.test, tr))
                            walk(blk)
                            return
                    return
                if isinstance(s, ast.Try):
                    for h in s.handlers:
                        if any(covers(x) for x in h.body):
                            for x in s.body:
                                out.append((x, "except"))
                            walk(h.body)
                            return
                for fld in ("body", "orelse", "finalbody"):
                    blk = getattr(s, fld, None)
                    if isinstance(blk, list) and any(covers(x) for x in blk):
                        walk(blk)
                        return
                for n in ast.walk(s):
                    if isinstance(n, ast.IfExp) and covers(n):
                        out.append((n.test, None))
                return
            if isinstance(s, ast.If):
                if exits(s.body):
                    out.append((s.test, False))
                elif s.orelse and exits(s.orelse):
                    out.append((s.test, True))

    walk(f.body())
    return out


def absent(test, truth, attr, f, sr):
    """Does (test == truth) say that `attr` has not been filled yet?
    True / False / None (the test does not speak about attr)."""
    if truth == "except":
        r = sr.expr(test, f)
        return True if attr in r else None
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return absent(test.operand, None if truth is None else not truth, attr, f, sr)
    if isinstance(test, ast.BoolOp):
        vals = [absent(v, truth, attr, f, sr) for v in test.values]
        conj = isinstance(test.op, ast.And) == (truth is True)
        known = [v for v in vals if v is not None]
        if not known:
            return None
        if conj:
            return any(known)
        return known[0] if len(set(known)) == 1 else True
    r = sr.expr(test, f)
    if not (attr in r or "*" in r):
        return None
    if truth is None:
        return True
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = test.ops[0]
        none = isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None
        if none and isinstance(op, (ast.Is, ast.Eq)):
            return bool(truth)
        if none and isinstance(op, (ast.IsNot, ast.NotEq)):
            return not truth
        if isinstance(op, ast.NotIn):
            return bool(truth)
        if isinstance(op, ast.In):
            return not truth
        return True
    if isinstance(test, (ast.Attribute, ast.Name)) or (
        isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "hasattr"
    ):
        return not truth
    return True


def guarded(f, line, attr, sr):
    """Is the statement executed only when `attr` has not been filled yet?"""
    res = [absent(t, tr, attr, f, sr) for t, tr in conditions_at(f, line)]
    res = [r for r in res if r is not None]
    return bool(res) and any(res)


def check(ctx, res):
    p, e = ctx.prog, ctx.eff
    al = allowed(p)
    byq = {f.qual: f for f in p.funcs}
    sr = SelfReads(p)
    inv = invert(e.callees)
    closures(ctx, res, al)
    for c in p.classes:
        if c.module.name.startswith("probnum.conftest"):
            continue
        lim = al.get(c, set())
        if lim is None:
            res.count("classes_exempt")
            continue
        if lim:
            lim = with_helpers(e, c, lim | CONSTRUCTORS, inv)
        res.count("classes")
        for name, f in c.methods.items():
            if name in CONSTRUCTORS or f.is_setter or f.is_static or f.is_classmethod:
                continue
            res.count("methods")
            if is_private(name) and not f.is_property:
                # private helpers are judged through the public methods that reach them;
                # judge hooks that are only reached by dynamic dispatch as well
                pass
            if name in lim:
                res.count("documented_mutators")
                continue
            s = e.summ.get(f)
            if s is None:
                continue
            for ef in s.effects.values():
                if ef.origin[0] not in ("self", "S") or ef.kind == "sub":
                    continue
                if ef.func.is_setter and ef.kind == "attr" and not ef.via:
                    continue
                attr = ef.attr if ef.origin[0] == "self" else ef.origin[1]
                attr = attr or "*"
                if c is not None:
                    attr = c.mangle(attr)
                res.count("receiver_writes_examined")
                root = ef.func
                chain = [root] + [byq[q] for q, _ in ef.via if q in byq] + [f]
                if is_private(name) and only_from_constructor(f, e, c):
                    continue
                # a write that only a dispatch target of another, documented-mutable class does
                if root.cls is not None and al.get(root.cls, set()) is None:
                    continue
                # the chain may pass through documented mutators of other, held objects
                family = set(c.mro()) | set(c.all_subclasses())
                if any(
                    g.cls is not None and g.cls not in family and g.name in (al.get(g.cls, ()) or ())
                    for g in chain
                ):
                    continue
                # the write itself, or the call that leads to it, happens only while unset
                sites = [(root, ef.line)]
                up = [byq.get(q) for q, _ in ef.via][::-1]  # callee nearest to root first
                lines = [ln for _, ln in ef.via][::-1]
                owners = up[1:] + [f]
                sites += [(o, ln) for o, ln in zip(owners, lines) if o is not None]
                if any(guarded(g, ln, attr, sr) for g, ln in sites):
                    res.count("memo_writes_accepted")
                    continue
                if any(g.name in CONSTRUCTORS for g in chain):
                    continue
                if derived_only(c, attr, p):
                    # never given a value by the constructor: a memo, judged by C05
                    res.count("memo_writes_accepted")
                    continue
                res.add(
                    "value-object-changed",
                    f"{root.qual}|{attr}",
                    f"{ef.why}: {c.name}.{name} changes the receiver (attribute `{attr}`) "
                    "outside construction and without the memo idiom",
                    file=root.file,
                    line=ef.line,
                    path=[f.qual] + [f"{q}@{ln}" for q, ln in ef.via],
                )


def closures(ctx, res, al):
    """Closures created in a constructor run later: they must not write the receiver."""
    p, e = ctx.prog, ctx.eff
    for f, s in e.summ.items():
        if f.parent is None or f.encl_cls is None or al.get(f.encl_cls, set()) is None:
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        if top.name not in CONSTRUCTORS:
            continue
        res.count("closures_in_constructors")
        for ef in s.captured.values():
            if ef.origin[0] not in ("self", "S") or ef.kind == "sub" or ef.via:
                continue
            attr = ef.attr if ef.origin[0] == "self" else ef.origin[1]
            if attr and derived_only(f.encl_cls, attr, p):
                continue
            res.add(
                "value-object-changed",
                f"{f.qual}|{attr}",
                f"{ef.why}: a closure stored by the constructor of {f.encl_cls.name} changes the receiver (attribute `{attr}`)",
                file=f.file,
                line=ef.line,
            )


def only_from_constructor(f, e, c):
    callers = [g for g, cs in e.callees.items() if f in cs]
    return bool(callers) and all(g.name in CONSTRUCTORS for g in callers)


def _empty(v):
    return (
        isinstance(v, ast.Constant) and v.value is None
        or isinstance(v, ast.Dict) and not v.keys
        or isinstance(v, (ast.List, ast.Tuple, ast.Set)) and not v.elts
        or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set") and not v.args and not v.keywords
    )


def derived_only(cls, attr, p):
    """No constructor in the hierarchy gives `attr` a (non-empty) value."""
    if attr == "*":
        return True
    for c in set(cls.mro()) | set(cls.all_subclasses()):
        if c.is_dataclass and (attr in c.class_ann or attr in c.class_attrs):
            return False
        if attr in c.class_attrs and not _empty(c.class_attrs[attr]):
            return False
        if attr in c.methods:
            return False  # a property / method result (memoised or stored elsewhere)
        for m in list(c.methods.values()):
            ctor = m.name in CONSTRUCTORS
            for n in walk_own(m.node):
                tv = []
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        tv += [(x, n.value) for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
                    tv = [(n.target, n.value)]
                for t, v in tv:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.self_name:
                        if c.mangle(t.attr) == attr and ctor and not (v is None or _empty(v)):
                            return False
    return True
