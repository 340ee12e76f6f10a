"""C01: objects handed in by the caller keep their contents.

Interprocedural may-alias / side-effect analysis (pnsa.effects).  An effect of kind
`content` or `attr` whose origin is a parameter (through any chain of views, containers,
attributes and helper calls) of a public entry point is a violation; so is an in-place
change of an attribute that a constructor bound to a caller's object without copying, and
of an array a user-supplied callable returned.
"""
from ..common import in_library, invert, is_private, public_class

LEVEL = "other"
EXPLANATION = (
    "Summary-based interprocedural alias and side-effect analysis over every function of "
    "src/probnum: for each function the set of in-place writes (item/slice assignment, "
    "augmented assignment, out=, overwrite_*, mutating methods, ufunc.at, attribute "
    "rebinding) is computed together with the origin of the object written (parameter, "
    "receiver attribute, module-level object, result of a user callable). Obligation per "
    "public function and parameter: no write has that parameter as origin."
)
ASSUMPTIONS = [
    "user-supplied callables and NumPy/SciPy functions without out=/overwrite_* do not write into their arguments",
    "objects of the documented mutable protocols (LinearSolverState, random generators) are exempt: being updated is their purpose",
    "setflags(write=False) on a stored array is not a change of contents",
]

MUTABLE_PROTOCOL = [
    "probnum.linalg.solvers.LinearSolverState",
    "probnum.filtsmooth.TimeSeriesPosterior",
    "probnum.randprocs.markov.continuous.Diffusion",
    "probnum.diffeq.ODESolver",
    "probnum.filtsmooth.optim.FiltSmoothStoppingCriterion",
]


def exempt_types(p):
    res = set()
    for d in MUTABLE_PROTOCOL:
        c = public_class(p, d) or p.get_class(d.split(".")[-1])
        if c is not None:
            res |= set(c.all_subclasses())
    return res


def check(ctx, res):
    p, e = ctx.prog, ctx.eff
    ex = exempt_types(p)
    callers = invert(e.callees)
    nparams = 0
    for f, s in e.summ.items():
        if not in_library(f):
            continue
        res.count("functions_summarised")
        nparams += len(f.params())
        entry = (
            f.parent is not None
            or not is_private(f.name)
            or not callers.get(f)
        )
        for ef in s.effects.values():
            if ef.kind not in ("content", "attr"):
                continue
            res.count("write_effects_examined")
            o = ef.origin
            if o[0] == "P":
                pn = o[1].lstrip("*")
                t = p.ann_types(f.annotation(pn), f.module, f)
                if t is not None and t & ex:
                    continue
                if f.is_setter or f.name in ("__setitem__", "__iadd__", "__setstate__"):
                    pass
                if not entry:
                    continue
                if f.parent is not None and not escapes(f):
                    continue
                res.add(
                    "input-mutated",
                    f"{ef.func.qual}",
                    f"{ef.why}: may write into the object passed as `{pn}` of {f.qual}",
                    file=ef.func.file,
                    line=ef.line,
                    path=[f.qual] + [f"{q}@{ln}" for q, ln in ef.via] or None,
                )
            elif o[0] == "U" and o[1].startswith("user callable") and ef.kind == "content" and not ef.via:
                res.add(
                    "callable-result-mutated",
                    f"{ef.func.qual}|{o[1]}",
                    f"{ef.why}: may write into an array returned by the {o[1]}",
                    file=ef.func.file,
                    line=ef.line,
                )
    res.count("parameters", nparams)
    # captured inputs
    for f, s in e.summ.items():
        if not in_library(f) or f.cls is None:
            continue
        for ef in s.effects.values():
            if ef.kind != "content" or ef.origin[0] != "S" or ef.via:
                continue
            av = e.attr_av(f.cls, ef.origin[1])
            res.count("attribute_writes_examined")
            kept = {o for k in f.cls.mro() for o in e.attr_direct.get((k, ef.origin[1]), ())}
            if av is not None and any(o[0] == "P" for o in av.direct) and (f.cls not in ex or kept):
                res.add(
                    "captured-input-mutated",
                    f"{f.qual}|{ef.origin[1]}",
                    f"{ef.why}: attribute `{ef.origin[1]}` may be the caller's own object "
                    f"({sorted(o[1] for o in av.direct if o[0] == 'P')})",
                    file=f.file,
                    line=ef.line,
                )


def escapes(f):
    """Nested function / lambda used other than by being called directly."""
    import ast

    par = f.parent.node
    if f.name == "<lambda>":
        return True
    for n in ast.walk(par):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name:
            continue
        if isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load):
            # called directly?
            direct = any(
                isinstance(c, ast.Call) and c.func is n for c in ast.walk(par)
            )
            if not direct:
                return True
    return False
