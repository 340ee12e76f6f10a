"""Which parameters influence what a function returns, yields, stores or passes on.

Backward slice per function (relevant statements and names), made interprocedural by a
fixpoint over the resolved call graph: an argument counts only if some possible callee
uses the parameter it is bound to.  Uses that merely guard a raise, or feed a warning,
do not count as influence.
"""
from __future__ import annotations

import ast

QUIET_CALLS = {"warn", "print", "debug", "info", "warning", "log"}


def always_raises(stmts):
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
    return False


def bind(call, g, drop_self=True):
    """argument expression per parameter name of g (None if it cannot be told)."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pp = g.pos_params()
    b = {}
    for i, a in enumerate(call.args):
        if i < len(pp):
            b[pp[i]] = a
        else:
            b["*"] = a
    for k in call.keywords:
        b[k.arg] = k.value
    return b


class Influence:
    def __init__(self, prog, eff):
        self.p, self.e = prog, eff
        self.inf = {}
        funcs = list(prog.func_of_node.values())
        self.slices = {f: Slice(f, self) for f in funcs}
        for f in funcs:
            self.inf[f] = set()
        # optimistic start would lose recursion; iterate upward from "nothing influences"
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for f in funcs:
                r = self.slices[f].compute()
                if r - self.inf[f]:
                    self.inf[f] |= r
                    changed = True

    def of(self, f):
        return self.inf[f]


class Slice:
    def __init__(self, f, ctx):
        self.f, self.ctx = f, ctx
        self.nested = {n.name: n for n in f.nested if n.name != "<lambda>"}

    def compute(self):
        f = self.f
        self.rel = set()  # relevant names
        self.relnested = set()
        body = f.node.body if not isinstance(f.node, ast.Lambda) else [ast.Return(value=f.node.body)]
        for _ in range(60):
            n0 = (len(self.rel), len(self.relnested))
            self.block(body)
            if (len(self.rel), len(self.relnested)) == n0:
                break
        names = set(f.params(drop_self=False))
        a = f.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                names.add(x.arg)
        g = f.parent
        out = self.rel & names
        # names of enclosing functions used by this nested one are exported through names()
        self.free = self.rel - names
        return out

    def block(self, stmts):
        r = False
        for s in stmts:
            r = self.stmt(s) or r
        return r

    def stmt(self, s):
        """Mark names; return True if the statement is relevant."""
        if isinstance(s, (ast.Return,)):
            if s.value is not None:
                self.expr(s.value)
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.Raise, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return False
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return False
            if isinstance(v, ast.Call):
                fn = v.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
                if nm in QUIET_CALLS:
                    return False
            self.expr(v)
            return True
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return False
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            hit = False
            for t in ts:
                hit = self.target(t) or hit
            if hit:
                self.expr(s.value)
            else:
                # a walrus or a yield inside an otherwise irrelevant assignment
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s.value)):
                    self.expr(s.value)
                    hit = True
            return hit
        if isinstance(s, ast.Delete):
            return False
        if isinstance(s, ast.If):
            a = self.block(s.body)
            b = self.block(s.orelse)
            ra, rb = always_raises(s.body), always_raises(s.orelse)
            if (a and not ra) or (b and not rb):
                if not ra and not rb:
                    self.expr(s.test)
            # an early return/continue in one branch makes the test decide what follows
            return a or b
        if isinstance(s, ast.While):
            a = self.block(s.body) | self.block(s.orelse)
            if a:
                self.expr(s.test)
            return a
        if isinstance(s, (ast.For, ast.AsyncFor)):
            a = self.block(s.body) | self.block(s.orelse)
            t = any(isinstance(x, ast.Name) and x.id in self.rel for x in ast.walk(s.target))
            if a or t:
                self.expr(s.iter)
            return a or t
        if isinstance(s, (ast.With, ast.AsyncWith)):
            a = self.block(s.body)
            if a:
                for i in s.items:
                    self.expr(i.context_expr)
            return a
        if isinstance(s, ast.Try):
            a = self.block(s.body)
            for h in s.handlers:
                a = self.block(h.body) or a
            return self.block(s.orelse) | self.block(s.finalbody) | a
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if s.name in self.relnested:
                self.nestedfunc(s)
            return False
        if isinstance(s, ast.ClassDef):
            return False
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e)
        return True

    def target(self, t):
        if isinstance(t, ast.Name):
            return t.id in self.rel
        if isinstance(t, (ast.Tuple, ast.List)):
            return any([self.target(x) for x in t.elts])
        if isinstance(t, ast.Starred):
            return self.target(t.value)
        if isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and not isinstance(t.value, ast.Attribute):
                own = set(self.f.params(drop_self=False))
                if b.id not in own and b.id not in self.rel and self.is_local(b.id):
                    return False
            self.expr(t.slice)
            return True
        if isinstance(t, ast.Attribute):
            return True
        return True

    def is_local(self, name):
        return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name for n in ast.walk(self.f.node))

    def nestedfunc(self, node):
        loc = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        nf = self.ctx.p.func_of_node.get(id(node))
        for d in node.args.defaults + [k for k in node.args.kw_defaults if k is not None]:
            self.expr(d)
        if nf is not None:
            sl = self.ctx.slices.get(nf)
            if sl is not None:
                sl.compute()
                for n in sl.free:
                    self.mark(n)
                return
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in loc:
                self.mark(x.id)

    def mark(self, name):
        self.rel.add(name)
        if name in self.nested:
            self.relnested.add(name)

    def expr(self, e):
        if e is None:
            return
        if isinstance(e, ast.Name):
            self.mark(e.id)
            return
        if isinstance(e, ast.Lambda):
            self.nestedfunc(e)
            return
        if isinstance(e, ast.Call):
            self.call(e)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c)
            elif isinstance(c, ast.comprehension):
                self.expr(c.iter)
                for i in c.ifs:
                    self.expr(i)
            elif isinstance(c, (ast.keyword,)):
                self.expr(c.value)
            elif isinstance(c, ast.Slice):
                self.expr(c)

    def call(self, e):
        self.expr(e.func)
        cs = self.ctx.e.sites.get(id(e), ())
        gs = [g for g in cs if g in self.ctx.inf]
        if gs and len(gs) == len(cs):
            handled = {}
            ok = True
            for g in gs:
                b = bind(e, g)
                if b is None or "*" in b or g.is_abstract or stub(g):
                    ok = False
                    break
                for q, v in b.items():
                    live = q in self.ctx.inf[g] or q not in g.params()
                    handled.setdefault(id(v), [v, False])
                    handled[id(v)][1] |= live
            if ok:
                for v, live in handled.values():
                    if live:
                        self.expr(v)
                return
        for a in e.args:
            self.expr(a.value if isinstance(a, ast.Starred) else a)
        for k in e.keywords:
            self.expr(k.value)


def stub(f):
    b = f.body()
    return not b or all(isinstance(s, (ast.Raise, ast.Pass)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) for s in b)
