"""C03: the supplied generator is the only source of randomness."""
import ast

from ..common import in_library
from ..prog import walk_own

LEVEL = "other"
EXPLANATION = (
    "Source/sink dataflow analysis of random generators over all functions: every call "
    "that draws (SciPy .rvs, SciPy quasi-Monte-Carlo engines, stochastic optimisers, "
    "sparse.random, NumPy Generator methods) is a sink whose generator argument must be "
    "derived from a generator parameter (through locals, attributes, closures, partials "
    "and helper parameters); legacy global NumPy/stdlib randomness, unseeded or hidden "
    "fixed generators, generator copies and state resets are sources that must not exist, "
    "and a generator in scope must be forwarded to every callee that accepts one."
)
ASSUMPTIONS = [
    "user-supplied samplers and distributions honour the generator they are given",
    "a generator with a literal seed may be used to infer shape and dtype only (its values must not flow further)",
]

RNG_NAMES = {"rng", "_rng", "random_state", "generator", "gen", "random_generator", "bit_generator"}
SEED_KW = {"random_state", "seed", "rng"}
NP_OK = {"Generator", "default_rng", "BitGenerator", "SeedSequence", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "RandomState"}
FRESH_GEN = {"default_rng", "RandomState", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM", "SeedSequence", "Generator"}
EXT_DRAW_PREFIX = ("scipy.stats.qmc.",)
EXT_DRAW = {
    "scipy.optimize.differential_evolution", "scipy.optimize.dual_annealing",
    "scipy.optimize.basinhopping", "scipy.sparse.random", "scipy.sparse.rand",
    "scipy.sparse.random_array", "scipy.cluster.vq.kmeans", "scipy.cluster.vq.kmeans2",
    "scipy.linalg.interpolative.svd", "scipy.linalg.clarkson_woodruff_transform",
}
QMC_NOT_DRAW = {"scale", "discrepancy", "update_discrepancy", "geometric_discrepancy"}
META = {"shape", "dtype", "ndim", "size", "itemsize", "nbytes"}
ENTROPY = ("random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getrandom")


class Rng:
    def __init__(self, ctx, res):
        self.p, self.e, self.res = ctx.prog, ctx.eff, res
        self.rnglike = {}  # (FuncInfo, param) -> True
        self.attrs = set()  # attribute names holding a generator
        self.owner = {}  # id(node) -> FuncInfo
        self.all_funcs = [f for f in self.p.func_of_node.values() if in_library(f)]
        for f in self.all_funcs:
            for n in walk_own(f.node):
                self.owner[id(n)] = f
        self.seed()

    def seed(self):
        for f in self.all_funcs:
            for prm in f.params():
                ann = f.annotation(prm)
                if prm in RNG_NAMES or (ann is not None and "random.Generator" in ast.unparse(ann) and "Callable" not in ast.unparse(ann)):
                    self.rnglike[(f, prm)] = True
        for _ in range(3):
            for f in self.all_funcs:
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and self.derived(n.value, f):
                                self.attrs.add(t.attr)

    # -------------------------------------------------------------------- derived
    def derived(self, e, f, seen=()):
        """True: derived from a generator parameter.  False otherwise."""
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if (g, e.id) in self.rnglike:
                    return True
                if e.id in g.params():
                    return False
                vals = self.defs(g, e.id)
                if vals:
                    if e.id in seen:
                        return True
                    return all(self.derived(v, g, seen + (e.id,)) or _is_none(v) for v in vals) and any(
                        self.derived(v, g, seen + (e.id,)) for v in vals
                    )
                g = g.parent
            return False
        if isinstance(e, ast.Attribute):
            if e.attr in self.attrs or e.attr in RNG_NAMES:
                return True
            return False
        if isinstance(e, ast.Call):
            r = self.p.resolve_expr(e.func, f.module, f)
            if r and r[0] == "ext" and r[1].split(".")[-1] in FRESH_GEN | {"check_random_state"}:
                return any(self.derived_any(a, f, seen) for a in list(e.args) + [k.value for k in e.keywords])
            if isinstance(e.func, ast.Attribute):
                return self.derived(e.func.value, f, seen)  # rng.spawn(...), rng.integers(...)
            if r and r[0] == "ext" and r[1] in ("copy.copy", "copy.deepcopy"):
                return False
            if r and r[0] == "func" and any(self.derived(a, f, seen) for a in e.args):
                return True
            return False
        if isinstance(e, ast.IfExp):
            return (self.derived(e.body, f, seen) or _is_none(e.body)) and (
                self.derived(e.orelse, f, seen) or _is_none(e.orelse)
            )
        if isinstance(e, ast.BoolOp):
            return all(self.derived(v, f, seen) for v in e.values)
        if isinstance(e, ast.Subscript):
            return self.derived(e.value, f, seen)
        if isinstance(e, ast.NamedExpr):
            return self.derived(e.value, f, seen)
        return False

    def derived_any(self, e, f, seen):
        return self.derived(e, f, seen) or any(
            self.derived(n, f, seen) for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute))
        )

    def defs(self, f, name):
        vals = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vals.append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                        if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                            vals += [v for x, v in zip(t.elts, n.value.elts) if isinstance(x, ast.Name) and x.id == name]
                        else:
                            vals.append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                vals.append(n.value)
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                vals.append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg = n.target
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(tg)):
                    it = n.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("zip", "enumerate"):
                        elts = tg.elts if isinstance(tg, ast.Tuple) else [tg]
                        args = it.args if it.func.id == "zip" else [None] + it.args
                        for x, a in zip(elts, args):
                            if a is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                                vals.append(a)
                    else:
                        vals.append(it)
        return vals

    def is_param(self, e, f):
        """Name bound to a parameter of f or an enclosing function (not rebound)."""
        if not isinstance(e, ast.Name):
            return None
        g = f
        while g is not None:
            if e.id in g.params():
                return (g, e.id)
            if self.defs(g, e.id):
                return None
            g = g.parent
        return None

    # ---------------------------------------------------------------------- sinks
    def sink(self, e, f, what, line):
        """generator expression e used by a draw"""
        self.res.count("draw_sinks")
        if e is None:
            self.res.add("draw-without-generator", f"{f.qual}|{what}",
                         f"{what} draws without a generator argument: the ambient global generator is used",
                         file=f.file, line=line)
            return
        if self.derived(e, f):
            return
        prm = self.is_param(e, f)
        if prm is not None:
            if prm not in self.rnglike:
                self.rnglike[prm] = True
                self.grew = True
            return
        self.res.add("draw-from-foreign-generator", f"{f.qual}|{what}",
                     f"{what} draws from `{ast.unparse(e)}`, which is not derived from a supplied generator",
                     file=f.file, line=line)


def _is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def check(ctx, res):
    r = Rng(ctx, res)
    p = ctx.prog
    for _ in range(4):
        r.grew = False
        for f in r.all_funcs:
            scan_draws(r, f)
        if not r.grew:
            break
        res.coverage["draw_sinks"] = 0
        # a parameter recognised late may have produced a premature finding
        res.findings = []
    for f in r.all_funcs:
        scan_sources(r, f)
        scan_forwarding(r, f)
    for m in p.modules.values():
        if m.name.startswith("probnum.conftest"):
            continue
        for n in m.tree.body:
            for x in ast.walk(n):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    break
                if isinstance(x, ast.Call):
                    q = p.resolve_expr(x.func, m)
                    if q and q[0] == "ext" and q[1].startswith("numpy.random."):
                        res.add("module-level-generator", m.name, f"module-level `{ast.unparse(x)}`: generator shared between all callers",
                                file=m.relpath, line=x.lineno)
    res.coverage["generator_parameters"] = len(r.rnglike)
    res.coverage["functions_scanned"] = len(r.all_funcs)


def scan_draws(r, f):
    p = r.p
    called = set()
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        called.add(id(n.func))
        q = p.resolve_expr(n.func, f.module, f)
        ext = q[1] if q and q[0] == "ext" else None
        kws = {k.arg: k.value for k in n.keywords}
        gen = next((kws[k] for k in SEED_KW if k in kws), None)
        star = any(k.arg is None for k in n.keywords)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "rvs":
            if gen is None and star:
                continue
            r.sink(gen, f, ast.unparse(n.func), n.lineno)
        elif ext and ext.startswith(EXT_DRAW_PREFIX) and ext.split(".")[-1] not in QMC_NOT_DRAW:
            r.sink(gen, f, ext, n.lineno)
        elif ext in EXT_DRAW:
            r.sink(gen, f, ext, n.lineno)
        elif ext in ("functools.partial",) and n.args:
            a0 = n.args[0]
            if isinstance(a0, ast.Attribute) and a0.attr == "rvs":
                called.add(id(a0))
                if gen is None and not _partial_bound(r, f, n):
                    r.sink(None, f, ast.unparse(a0), n.lineno)
                elif gen is not None:
                    r.sink(gen, f, ast.unparse(a0), n.lineno)
    # sampling methods handed around as values: the receiver of the value must supply the
    # generator; `wrapper(dist.rvs)()` does not
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and any(
            isinstance(a, ast.Attribute) and a.attr == "rvs" and id(a) not in called for a in n.args
        ):
            # is the result called immediately / stored?
            outer = next(
                (c for c in walk_own(f.node) if isinstance(c, ast.Call) and c.func is n), None
            )
            if outer is not None:
                kws = {k.arg: k.value for k in outer.keywords}
                gen = next((kws[k] for k in SEED_KW if k in kws), None)
                if gen is None:
                    r.sink(None, f, f"{ast.unparse(n)}()", n.lineno)
                elif not r.derived(gen, f) and not meta_only(r, f, outer):
                    r.sink(gen, f, f"{ast.unparse(n)}()", n.lineno)


def _partial_bound(r, f, n):
    """partial(dist.rvs, ...) assigned to a name that is always called with a generator"""
    for s in walk_own(f.node):
        if isinstance(s, ast.Assign) and s.value is n and isinstance(s.targets[0], ast.Name):
            nm = s.targets[0].id
            calls = [c for c in walk_own(f.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == nm]
            return bool(calls) and all(any(k.arg in SEED_KW for k in c.keywords) for c in calls)
    return False


def parents(f):
    m = {}
    for n in walk_own(f.node):
        for c in ast.iter_child_nodes(n):
            m[id(c)] = n
    return m


def meta_only(r, f, e):
    """The value of expression e is used for shape / dtype only."""
    par = parents(f)
    cur = e
    while True:
        up = par.get(id(cur))
        if up is None:
            return False
        if isinstance(up, ast.Attribute) and up.attr in META:
            return True
        if isinstance(up, ast.Call) and (cur in up.args or isinstance(cur, ast.keyword)):
            q = r.p.resolve_expr(up.func, f.module, f)
            if q and q[0] == "ext" and q[1].split(".")[-1] in ("shape", "ndim", "result_type", "isscalar", "type"):
                return True
            cur = up
            continue
        if isinstance(up, ast.keyword):
            cur = up
            continue
        if isinstance(up, (ast.Call,)) and up.func is cur:
            cur = up
            continue
        if isinstance(up, ast.Assign) and up.value is cur and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name):
            nm = up.targets[0].id
            uses = [n for n in walk_own(f.node) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
            for g in f.nested:
                uses += [n for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id == nm]
            return bool(uses) and all(
                isinstance(par.get(id(u)), ast.Attribute) and par[id(u)].attr in META
                or (isinstance(par.get(id(u)), ast.Call) and meta_only(r, f, u))
                or (isinstance(par.get(id(u)), ast.Call) and par[id(u)].func is not u and meta_only(r, f, par[id(u)]))
                for u in uses
            )
        return False


def scan_sources(r, f):
    p, res = r.p, r.res
    for d in list(f.defaults().values()):
        for x in ast.walk(d):
            if isinstance(x, ast.Call):
                q = p.resolve_expr(x.func, f.module)
                if q and q[0] == "ext" and q[1].startswith("numpy.random."):
                    res.add("default-argument-generator", f.qual, "generator created once as a default argument and shared between calls",
                            file=f.file, line=f.node.lineno)
    for n in walk_own(f.node):
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            q = p.resolve_expr(n, f.module, f)
            ext = q[1] if q and q[0] == "ext" else None
            if ext and ext.startswith("numpy.random.") and ext.count(".") == 2:
                if ext.split(".")[-1] not in NP_OK:
                    res.add("global-generator", f"{f.qual}|{ext}", f"uses the process-global generator ({ext})", file=f.file, line=n.lineno)
            if ext and ext.startswith(ENTROPY) and not ext.startswith("random_"):
                res.add("ambient-entropy", f"{f.qual}|{ext}", f"ambient entropy source {ext}", file=f.file, line=n.lineno)
        if isinstance(n, ast.Call):
            q = p.resolve_expr(n.func, f.module, f)
            ext = q[1] if q and q[0] == "ext" else None
            if ext and ext.startswith("numpy.random.") and ext.split(".")[-1] in FRESH_GEN:
                res.count("generator_constructions")
                args = list(n.args) + [k.value for k in n.keywords]
                if not args or all(_is_none(a) for a in args):
                    res.add("unseeded-generator", f"{f.qual}|{ext}", "generator seeded from the operating system", file=f.file, line=n.lineno)
                elif any(r.derived_any(a, f, ()) or r.is_param(a, f) for a in args):
                    pass
                elif not meta_only(r, f, n):
                    res.add("hidden-generator", f"{f.qual}|{ext}",
                            "values drawn from a generator created inside the library (not the supplied one) reach the result",
                            file=f.file, line=n.lineno)
            if ext in ("copy.copy", "copy.deepcopy") and n.args and r.derived(n.args[0], f):
                res.add("generator-copied", f.qual, "copy of the supplied generator: draws are repeated and the caller's generator does not advance",
                        file=f.file, line=n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute) and t.attr == "state" and "bit_generator" in ast.unparse(t.value):
                    res.add("generator-reset", f.qual, "state of a generator is overwritten", file=f.file, line=n.lineno)


def scan_forwarding(r, f):
    """A generator in scope is handed to every callee that takes one."""
    p, e, res = r.p, r.e, r.res
    avail = any((g, x) in r.rnglike for g in chain(f) for x in g.params())
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        callees = e.sites.get(id(n), ())
        cand = [(g, x) for g in callees for x in g.params() if (g, x) in r.rnglike]
        if not cand:
            continue
        res.count("generator_forwarding_sites")
        # all callees at this site agree that there is a generator parameter
        if len({g for g, _ in cand}) < len(set(callees)):
            continue
        bad = []
        for g, x in cand:
            pos = g.pos_params()
            arg = None
            kws = {k.arg: k.value for k in n.keywords}
            if x in kws:
                arg = kws[x]
            elif x in pos and len(n.args) > pos.index(x):
                arg = n.args[pos.index(x)]
                if any(isinstance(a, ast.Starred) for a in n.args):
                    arg = "star"
            elif any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
                arg = "star"
            if arg == "star":
                return
            if arg is None:
                if avail:
                    bad.append((g, x, "is not passed on"))
            elif _is_none(arg):
                if avail:
                    bad.append((g, x, "is replaced by None"))
            elif not r.derived(arg, f) and r.is_param(arg, f) is None and not meta_only(r, f, n):
                bad.append((g, x, f"receives `{ast.unparse(arg)}`, which is not derived from a supplied generator"))
        if bad and len(bad) == len(cand):
            g, x, why = bad[0]
            res.add("generator-not-forwarded", f"{f.qual}->{g.name}", f"generator parameter `{x}` of {g.qual} {why}", file=f.file, line=n.lineno)


def chain(f):
    while f is not None:
        yield f
        f = f.parent
