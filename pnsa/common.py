"""Helpers shared by the checks."""
from __future__ import annotations

import ast

from .prog import ClassInfo, FuncInfo, Program

NON_LIBRARY = ("probnum.conftest",)


def in_library(f) -> bool:
    return not f.module.name.startswith(NON_LIBRARY)


def is_private(name: str) -> bool:
    return name.startswith("_") and not (name.startswith("__") and name.endswith("__"))


def invert(callees):
    inv = {}
    for f, cs in callees.items():
        for c in cs:
            inv.setdefault(c, set()).add(f)
    return inv


def with_helpers(e, cls, names, inv=None):
    """names of methods, together with private methods that only these (or helpers of
    these) call: a body moved into a helper is judged like the method it was moved from."""
    inv = inv if inv is not None else invert(e.callees)
    names = set(names)
    family = set(cls.mro()) | set(cls.all_subclasses())
    grown = True
    while grown:
        grown = False
        for k in family:
            for n, m in k.methods.items():
                if n in names or not n.startswith("_") or n.startswith("__"):
                    continue
                cs = inv.get(m, ())
                if cs and all(g.name in names and g.cls in family for g in cs):
                    names.add(n)
                    grown = True
    return names


def public_class(p: Program, dotted):
    r = p.get_public(dotted)
    return r[1] if r is not None and r[0] == "class" else None


def classes_under(p: Program, *dotted):
    res = []
    for d in dotted:
        c = public_class(p, d)
        if c is not None:
            for s in c.all_subclasses():
                if s not in res:
                    res.append(s)
    return res


def loc(f: FuncInfo):
    return dict(file=f.file, line=getattr(f.node, "lineno", None))


def dotted_name(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


def param_names(f):
    """Named parameters (without self), including *args and **kwargs names."""
    a = f.node.args
    out = list(f.params())
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.append(x.arg)
    return out
