"""C11: every option a caller can set reaches the computation it names."""
import ast
import re

from ..common import in_library, invert
from ..influence import Influence, bind, stub
from ..prog import walk_own

LEVEL = "other"
EXPLANATION = (
    "Interprocedural influence analysis (backward slices, fixpoint over the call graph): "
    "every parameter of a public callable must influence what it returns, yields, stores "
    "or passes on (merely guarding an exception or a warning does not count); every "
    "constructor option kept in an attribute must be read by a method; no call drops an "
    "argument its callee accepts under the same name, hands one option over in the place "
    "of another, or passes a keyword that every implementation swallows unused; every "
    "documented key of an option dictionary is read and used."
)
ASSUMPTIONS = ["parameters listed in the check's table of interface-mandated unused parameters (one line of reason each) are exempt"]

# (Class.method or function, parameter): reason
UNUSED_OK = {
    ("ODEFilterSolution.transform_base_measure_realizations", "*"): "documented as not implemented",
    ("WrappedScipyRungeKutta.method_callback", "state"): "hook without action",
    ("PerturbedStepSolver.method_callback", "state"): "hook delegating to the wrapped solver's empty hook",
    ("PerturbedStepSolution.interpolate", "next_index"): "interface",
    ("ConstantSteps.suggest", "*"): "constant steps ignore the error by definition",
    ("ConstantSteps.is_accepted", "*"): "constant steps are always accepted",
    ("Kalman.smooth", "_previous_posterior"): "interface; the smoother has no linearisation point",
    ("ContinuousEKFComponent.linearize", "t"): "the linearised model is a function of time",
    ("DiscreteEKFComponent.linearize", "t"): "the linearised model is a function of time",
    ("IteratedDiscreteComponent.backward_rv", "rv_forwarded"): "recomputed at every linearisation",
    ("IteratedDiscreteComponent.backward_rv", "gain"): "recomputed at every linearisation",
    ("BootstrapImportanceDistribution.generate_importance_rv", "*"): "bootstrap proposal ignores the data by definition",
    ("BootstrapImportanceDistribution.process_initrv_with_data", "*"): "bootstrap proposal ignores the data by definition",
    ("BootstrapImportanceDistribution.log_correction_factor", "*"): "bootstrap proposal has no correction",
    ("Function.__add__", "other"): "singledispatch fallback (NotImplemented)",
    ("Function.__sub__", "other"): "singledispatch fallback (NotImplemented)",
    ("Zero.__add__", "other"): "singledispatch registration",
    ("Zero.__sub__", "other"): "singledispatch registration",
    ("SumFunction.__add__", "other"): "singledispatch registration",
    ("SumFunction.__sub__", "other"): "singledispatch registration",
    ("problinsolve", "assume_A"): "only one solver is implemented; other assumptions raise",
    ("ConjugateGradientPolicy.__call__", "rng"): "interface; deterministic policy",
    ("LinearOperator.astype", "subok"): "only the default is supported, others raise",
    ("_TypeCastLinearOperator.__init__", "casting"): "checked only",
    ("suitesparse_matrix", "verbose"): "progress output only",
    ("genz_cornerpeak", "u"): "accepted for uniformity of the Genz functions",
    ("RandomPolicy.__call__", "bq_state"): "interface",
    ("VanDerCorputPolicy.__call__", "rng"): "interface; deterministic policy",
    ("ImmediateStop.__call__", "*"): "interface",
    ("IntegralVarianceTolerance.__call__", "info"): "interface",
    ("MaxNevals.__call__", "bq_state"): "interface",
    ("RelativeMeanChange.__call__", "info"): "interface",
    ("ConstantDiffusion.estimate_locally", "*"): "interface; uses the measurement only",
    ("ConstantDiffusion.update_in_place", "t"): "interface; time-constant",
    ("PiecewiseConstantDiffusion.estimate_locally", "meas_rv"): "interface",
    ("PiecewiseConstantDiffusion.estimate_locally", "t"): "checked only",
    ("LinearSDE.forward_rv", "_compute_gain"): "interface; no gain in continuous time",
    ("LinearSDE.forward_rv", "compute_gain"): "interface; no gain in continuous time",
    ("LinearSDE.backward_rv", "rv_forwarded"): "documented as ignored",
    ("LinearSDE.backward_rv", "gain"): "documented as ignored",
    ("NonlinearGaussian.forward_realization", "compute_gain"): "interface; no gain for realisations",
    ("as_shape", "ndim"): "checked only",
}
# calls that deliberately leave a same-named parameter at the callee's default
DROP_OK = {
    ("LTISDE.__init__", "forward_implementation"): "chooses the moment-equation solver of the superclass, which is not used",
    ("Kalman.filtsmooth", "_previous_posterior"): "the smoother has no linearisation point",
    ("Kalman.smooth", "_previous_posterior"): "the smoother has no linearisation point",
    ("IteratedDiscreteComponent.backward_rv", "rv_forwarded"): "recomputed at every linearisation",
    ("IteratedDiscreteComponent.backward_rv", "gain"): "recomputed at every linearisation",
    ("BayesianQuadrature.integrate", "nodes"): "assigned through the state update",
    ("BayesianQuadrature.integrate", "fun_evals"): "assigned through the state update",
    ("_TypeCastLinearOperator.__init__", "*"): "the cast was checked when the operator was built",
    ("ODEFilter.attempt_step", "dt"): "measurement models are discrete",
    ("LinearizationImportanceDistribution.generate_importance_rv", "dt"): "measurement models are discrete",
}
STORED_OK = {
    ("ODESolution", "derivatives"): "public data of the result",
    ("InitializationRoutine", "is_exact"): "public metadata",
    ("InitializationRoutine", "requires_jax"): "public metadata",
}
OPTION_NAMES = {
    "forward_implementation", "backward_implementation", "mde_atol", "mde_rtol", "mde_solver",
    "atol", "rtol", "jitter", "stopcrit", "with_smoothing", "steprule", "scale_estimation",
}
CROSS_MIN_LEN = 3


def short(f):
    return f"{f.cls.name}.{f.name}" if f.cls is not None else f.name


def ok(table, f, q):
    if (short(f), q) in table or (short(f), "*") in table:
        return True
    # a helper is judged like the methods it was taken from
    cs = CALLERS.get(f, ()) if f.name.startswith("_") and not f.name.startswith("__") else ()
    return bool(cs) and all((short(g), q) in table or (short(g), "*") in table for g in cs)


CALLERS = {}


def public(f):
    if f.parent is not None or f.is_abstract or stub(f):
        return False
    if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
        return False
    if f.cls is not None and f.cls.name.startswith("_") and False:
        return False
    if any("register" in d for d in f.decorators) or f.name in ("_",):
        return False
    if f.is_setter:
        return False
    return not any("overload" in d for d in f.decorators)


def check(ctx, res):
    p, e = ctx.prog, ctx.eff
    inf = Influence(p, e)
    CALLERS.clear()
    CALLERS.update(invert(e.callees))
    for f in p.funcs:
        if not in_library(f) or f.module.name.endswith("._config"):
            continue
        if public(f) and f.name not in ("__exit__", "__setattr__", "__getattr__", "__array_ufunc__"):
            for q in f.params():
                res.count("parameters")
                if q in inf.of(f) or ok(UNUSED_OK, f, q):
                    continue
                if returns_constant_by_type(f):
                    continue
                res.add("option-ignored", f"{f.qual}|{q}", f"parameter `{q}` does not influence the result of {short(f)}", file=f.file, line=f.node.lineno)
    for f in p.func_of_node.values():
        if in_library(f):
            calls(p, e, f, inf, res)
            option_dict(f, inf, res)
            overridden(f, res)
    stored(p, inf, res)


def returns_constant_by_type(f):
    """`return NotImplemented` only."""
    b = f.body()
    return len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Name) and b[0].value.id == "NotImplemented"


def tail(e):
    """Trailing identifier of a name or attribute chain, without leading underscores."""
    if isinstance(e, ast.Name):
        return e.id.lstrip("_")
    if isinstance(e, ast.Attribute):
        return e.attr.lstrip("_")
    return None


def root(f):
    while f.parent is not None:
        f = f.parent
    return f


def family_attrs(c):
    if c is None:
        return set()
    if not hasattr(c, "_all_attrs"):
        s = set()
        for k in c.mro():
            for m in k.methods.values():
                if m.is_property:
                    s.add(m.name)
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr.lstrip("_"))
        c._all_attrs = s
    return c._all_attrs


def calls(p, e, f, inf, res):
    mine = set()
    g = f
    while g is not None:
        mine |= set(g.params())
        g = g.parent
    rf = root(f)
    attrs = family_attrs(f.encl_cls)
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        cs = [g for g in e.sites.get(id(n), ()) if not (g.name == "__init__" and g.cls is None)]
        if not cs:
            # unresolved: crossed keywords can still be told apart
            if len(n.keywords) > 1:
                kws = {k.arg for k in n.keywords if k.arg}
                for k in n.keywords:
                    t = tail(k.value)
                    if k.arg and t and t != k.arg.lstrip("_") and len(t) >= CROSS_MIN_LEN and t in {x.lstrip("_") for x in kws}:
                        cross(res, f, rf, n, k.arg, t)
            continue
        binds = [(g, bind(n, g)) for g in cs]
        if any(b is None for _, b in binds):
            continue
        res.count("call_sites")
        # dropped: every possible callee accepts the name, none is given it
        common = None
        for g, b in binds:
            s = {q for q in g.defaults() if q not in b and q in inf.of(g) | {q for q in g.params() if stub(g)}}
            common = s if common is None else common & s
        live = inf.of(f) if f in inf.inf else set()
        for q in sorted(common or ()):
            if q in mine and len(q) >= CROSS_MIN_LEN and not ok(DROP_OK, rf, q) and not reassigned_only(f, q):
                if not forwards_elsewhere(p, e, f, n, q, cs):
                    res.add("option-dropped", f"{rf.qual}|{q}|{cs[0].name}",
                            f"`{q}` is not handed on to {short(cs[0])}, which then uses its own default", file=f.file, line=n.lineno)
            elif q in OPTION_NAMES and q in attrs and not ok(DROP_OK, rf, q) and f.encl_cls not in {g.cls for g in cs} and not is_super(n):
                res.add("option-dropped", f"{rf.qual}|{q}|{cs[0].name}",
                        f"the object's `{q}` is not handed on to {short(cs[0])}, which then uses its own default", file=f.file, line=n.lineno)
        # crossed
        for g, b in binds[:1] if specific(cs) else ():
            names = {x.lstrip("_") for x in g.params()}
            for q, v in b.items():
                t = tail(v)
                if t and t != q.lstrip("_") and len(t) >= CROSS_MIN_LEN and len(q) >= CROSS_MIN_LEN and t in names and q in g.params():
                    other = b.get(t, b.get("_" + t))
                    if other is not None and tail(other) == q.lstrip("_") and not same_family(f, g):
                        cross(res, f, rf, n, q, t)
                    elif not same_family(f, g):
                        cross(res, f, rf, n, q, t)
        # swallowed keyword
        for k in n.keywords:
            if k.arg is None:
                continue
            if all(k.arg not in g.params() and g.has_kwargs for g in cs):
                meths = p.by_method.get(cs[0].name, []) if cs[0].cls is not None else cs
                if all(k.arg not in g.params() and not uses_kwargs(g) for g in meths):
                    res.add("option-swallowed", f"{rf.qual}|{k.arg}|{cs[0].name}",
                            f"keyword `{k.arg}` matches no parameter of any implementation of {cs[0].name} and is silently discarded", file=f.file, line=n.lineno)


SYMMETRIC = {"inner_product"}


def same_family(f, g):
    return g.name in SYMMETRIC or g.name.startswith("_") and g.cls is None and len(g.params()) <= 2


# value handed over under another option's name on purpose
CROSS_OK = {
    ("IntegrationMeasure.sample", "size"): "size of the underlying distribution's sample",
    ("Configuration.register", "value"): "an option starts at its default",
    ("MatrixBasedLinearBeliefUpdate.__call__", "observ"): "the inverse is updated with the roles exchanged",
    ("SymmetricMatrixBasedLinearBeliefUpdate.__call__", "observ"): "the inverse is updated with the roles exchanged",
    ("MatrixBasedLinearBeliefUpdate.__call__", "action"): "the inverse is updated with the roles exchanged",
    ("SymmetricMatrixBasedLinearBeliefUpdate.__call__", "action"): "the inverse is updated with the roles exchanged",
    ("_InverseLinearOperator.__init__", "matmul"): "multiplying by the inverse is solving",
    ("Constant.__init__", "std"): "both are zero",
}


def cross(res, f, rf, n, q, t):
    if ok(CROSS_OK, rf, q):
        return
    res.add("option-crossed", f"{rf.qual}|{q}<-{t}", f"`{t}` is handed over as `{q}`", file=f.file, line=n.lineno)


def is_super(n):
    return isinstance(n.func, ast.Attribute) and (
        (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super") or n.func.attr == "__init__"
    )


def uses_kwargs(g):
    k = g.node.args.kwarg
    if k is None:
        return False
    return any(isinstance(x, ast.Name) and x.id == k.arg and isinstance(x.ctx, ast.Load) for x in ast.walk(g.node))


def reassigned_only(f, q):
    """A closure parameter shadowing is not our case; a local of the same name is."""
    return False


def forwards_elsewhere(p, e, f, call, q, cs):
    """The callee is not the one meant to honour q: q reaches the same object's later
    use (e.g. measurement call followed by the real one)."""
    # static/discrete models take no time increment
    return q in ("rv", "data", "nodes", "fun_evals", "n_sample") or (q == "dt" and any(g.name in ("backward_realization", "forward_rv", "backward_rv", "forward_realization") for g in cs))\
        or not specific(cs)


def specific(cs):
    """Resolved by type rather than by method name alone (several unrelated classes)."""
    bases = {g.cls.mro()[-1].qual if g.cls else g.qual for g in cs}
    return len(bases) == 1


def option_dict(f, inf, res):
    """Options read from a dictionary parameter by string key."""
    dict_params = {}
    for n in walk_own(f.node):
        key = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and isinstance(n.func.value, ast.Name) and n.args:
            if isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                key, src = n.args[0].value, n.func.value.id
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            key, src = n.slice.value, n.value.id
        if key is not None and src in f.params():
            dict_params.setdefault(src, {}).setdefault(key, []).append(n)
    doc = ast.get_docstring(f.node) if isinstance(f.node, (ast.FunctionDef,)) else None
    for src, keys in dict_params.items():
        if len(keys) < 2:
            continue
        res.count("dictionary_options", len(keys))
        if doc:
            for m in re.finditer(r"(?m)^\s{4,}(\w+) : ", doc):
                if m[1] not in keys and m[1] not in f.params():
                    res.add("option-key-unread", f"{f.qual}|{m[1]}", f"documented option `{m[1]}` is never read from `{src}`", file=f.file, line=f.node.lineno)
        sl = inf.slices[f]
        sl.compute()
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                tn = n.targets[0].id
                for k, sites in keys.items():
                    if n.value in sites:
                        if tn not in sl.rel:
                            res.add("option-ignored", f"{f.qual}|{src}[{k}]", f"option `{k}` is read but does not influence the result", file=f.file, line=n.lineno)
                        if tn != k and tn in keys:
                            res.add("option-crossed", f"{f.qual}|{tn}<-{k}", f"option `{k}` is used as `{tn}`", file=f.file, line=n.lineno)


# option replaced by a literal on purpose
OVERRIDE_OK = {("GaussianMeasure.__init__", "input_dim"): "scalar mean: the dimension is one (others are rejected)"}


def is_literal(e):
    names = [x for x in ast.walk(e) if isinstance(x, ast.Name)]
    return not names and any(isinstance(x, ast.Constant) for x in ast.walk(e))


def limited(e, q):
    """max(q, literal), min(...), np.clip(q, ...)"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            fn = ast.unparse(x.func).split(".")[-1]
            if fn in ("max", "min", "clip", "maximum", "minimum") and any(isinstance(a, ast.Name) and a.id == q for a in x.args) and any(
                is_literal(a) for a in x.args
            ):
                return True
    return False


def overridden(f, res):
    """An option replaced by (or clamped to) a literal on a path that never looked at it."""
    if isinstance(f.node, ast.Lambda):
        return
    par = None
    params = set(f.params())
    for n in walk_own(f.node):
        if not isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            continue
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        for t in ts:
            if not (isinstance(t, ast.Name) and t.id in params and n.value is not None):
                continue
            q = t.id
            lit = is_literal(n.value) and not isinstance(n, ast.AugAssign)
            lim = q in f.defaults() and limited(n.value, q)
            if not (lit or lim) or ok(OVERRIDE_OK, f, q):
                continue
            if par is None:
                par = {c: x for x in ast.walk(f.node) for c in ast.iter_child_nodes(x)}
            a, looked = n, False
            while a in par:
                a = par[a]
                if isinstance(a, (ast.If, ast.While)) and any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(a.test)):
                    looked = True
                if isinstance(a, (ast.For, ast.While)):
                    looked = True  # loop state
            if not looked:
                res.add("option-overridden", f"{f.qual}|{q}", f"the caller's `{q}` is {'replaced by' if lit else 'clamped to'} {ast.unparse(n.value)[:40]}", file=f.file, line=n.lineno)


def trivial(g):
    b = g.body()
    return g.is_property and len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute)


NOT_USES = ("__repr__", "__eq__", "__str__", "__hash__")


def stored(p, inf, res):
    reads = {}
    for f in p.func_of_node.values():
        if not in_library(f):
            continue
        g = root(f)
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.setdefault(n.attr, []).append((g, isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr":
                for a in n.args[1:2]:
                    if isinstance(a, ast.Constant):
                        reads.setdefault(a.value, []).append((g, False))

    def readers(c, attr, seen=frozenset()):
        fam = set(c.mro())
        for s in c.all_subclasses():
            fam |= set(s.mro())
        out = []
        for g, is_self in reads.get(attr, []):
            if is_self and g.cls is not None and g.cls not in fam:
                continue
            if g.name in NOT_USES:
                continue
            if trivial(g):
                if g.name != attr and g.name not in seen:
                    out += readers(c, g.name, seen | {attr})
                continue
            out.append(g)
        return out

    for c in p.classes:
        f = c.methods.get("__init__")
        if f is None or not in_library(f):
            continue
        params = set(f.params())
        for n in walk_own(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.self_name):
                    continue
                res.count("stored_attributes")
                v = n.value
                if isinstance(v, ast.Name) and v.id in params and v.id != t.attr.lstrip("_") and t.attr.lstrip("_") in params:
                    res.add("option-crossed", f"{f.qual}|{t.attr}<-{v.id}", f"constructor argument `{v.id}` is stored as `{t.attr}`", file=f.file, line=n.lineno)
                src = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & params
                if not src:
                    continue
                if any(g is not f for g in readers(c, t.attr)):
                    continue
                for q in src:
                    if ok_store(c, q) or other_use(f, q, n, inf):
                        continue
                    res.add("option-stored-unused", f"{c.qual}|{q}", f"constructor option `{q}` is stored in `{t.attr}` but nothing ever reads it", file=f.file, line=n.lineno)
        for g in c.methods.values():
            if trivial(g) and isinstance(g.body()[0].value.value, ast.Name):
                a = g.body()[0].value.attr.lstrip("_")
                if a != g.name and a in family_attrs(c) and g.name in params and a in params:
                    res.add("option-crossed", f"{g.qual}|{a}", f"property `{g.name}` returns `{a}`", file=g.file, line=g.node.lineno)


def ok_store(c, q):
    return any((k.name, q) in STORED_OK for k in c.mro())


def other_use(f, q, node, inf):
    """Is parameter q used in the constructor for something other than this store and guards?"""
    for n in walk_own(f.node):
        if n is node or not isinstance(n, (ast.Assign, ast.Expr, ast.Return, ast.AnnAssign)):
            continue
        v = getattr(n, "value", None)
        if v is None or (isinstance(v, ast.Call) and ast.unparse(v.func).endswith("warn")):
            continue
        if any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(v)):
            return True
    for n in f.nested:
        if any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(n.node)):
            return True
    for n in walk_own(f.node):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(n.test)):
            if not any(isinstance(s, ast.Raise) for s in n.body):
                return True
        if isinstance(n, ast.IfExp) and any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(n)):
            return True
        if isinstance(n, ast.comprehension) or isinstance(n, ast.For):
            if any(isinstance(x, ast.Name) and x.id == q for x in ast.walk(n.iter)):
                return True
    return False
