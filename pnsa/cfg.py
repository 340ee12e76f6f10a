"""Control-flow graph over the statement kinds used in the package.

Nodes are simple statements, tests of if/while, iterators of for and with-headers.
`finally` bodies are duplicated per continuation (normal / exception / return / break /
continue), so that every path through the graph is a syntactic path of the function.
Edge kinds: "n" normal, "t"/"f" branch outcome, "x" exception raised explicitly by a
raise/assert statement, "i" exception possibly raised implicitly (call, subscript, ...).
"""
from __future__ import annotations

import ast


class Node:
    __slots__ = ("id", "ast", "kind", "succ", "pred", "copy")

    def __init__(self, i, a, kind, copy):
        self.id, self.ast, self.kind, self.copy = i, a, kind, copy
        self.succ, self.pred = [], []

    @property
    def line(self):
        return getattr(self.ast, "lineno", None)

    def __repr__(self):
        return f"<{self.kind}@{self.line}>"


def may_raise(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
    return False


class CFG:
    def __init__(self, func_node):
        self.nodes = []
        self.entry = self._new(None, "entry")
        self.exit = self._new(None, "exit")
        self.raise_exit = self._new(None, "raise")
        self._copy = 0
        body = func_node.body if not isinstance(func_node, ast.Lambda) else [ast.Return(value=func_node.body, lineno=func_node.lineno)]
        env = dict(exc=lambda: [self.raise_exit], ret=lambda: [self.exit], brk=None, cont=None)
        outs = self._block(body, [(self.entry, "n")], env)
        for n, k in outs:
            self._edge(n, self.exit, k)

    def _new(self, a, kind):
        n = Node(len(self.nodes), a, kind, getattr(self, "_copy", 0))
        self.nodes.append(n)
        return n

    def _edge(self, a, b, k):
        if (b, k) not in a.succ:
            a.succ.append((b, k))
            b.pred.append((a, k))

    def _link(self, ins, node):
        for n, k in ins:
            self._edge(n, node, k)

    def _raises(self, node, expr, env):
        if expr is not None and may_raise(expr):
            for h in env["exc"]():
                self._edge(node, h, "i")

    def _block(self, stmts, ins, env):
        for s in stmts:
            if not ins:
                break
            ins = self._stmt(s, ins, env)
        return ins

    def _stmt(self, s, ins, env):
        if isinstance(s, ast.If):
            t = self._new(s.test, "test")
            self._link(ins, t)
            self._raises(t, s.test, env)
            a = self._block(s.body, [(t, "t")], env)
            b = self._block(s.orelse, [(t, "f")], env)
            return a + b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            h = self._new(s, "iter")
            self._link(ins, h)
            self._raises(h, s.iter, env)
            brk = []
            e2 = dict(env, brk=brk, cont=h)
            outs = self._block(s.body, [(h, "t")], e2)
            self._link(outs, h)
            return self._block(s.orelse, [(h, "f")], env) + brk
        if isinstance(s, ast.While):
            h = self._new(s.test, "test")
            self._link(ins, h)
            self._raises(h, s.test, env)
            brk = []
            e2 = dict(env, brk=brk, cont=h)
            outs = self._block(s.body, [(h, "t")], e2)
            self._link(outs, h)
            const = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return (self._block(s.orelse, [(h, "f")], env) if not const else []) + brk
        if isinstance(s, (ast.With, ast.AsyncWith)):
            h = self._new(s, "with")
            self._link(ins, h)
            for i in s.items:
                self._raises(h, i.context_expr, env)
            return self._block(s.body, [(h, "n")], env)
        if isinstance(s, ast.Try):
            return self._try(s, ins, env)
        if isinstance(s, ast.Match):
            h = self._new(s, "stmt")
            self._link(ins, h)
            outs = [(h, "n")]
            for c in s.cases:
                outs += self._block(c.body, [(h, "n")], env)
            return outs
        n = self._new(s, "stmt")
        self._link(ins, n)
        if isinstance(s, ast.Return):
            self._raises(n, s.value, env)
            for r in env["ret"]():
                self._edge(n, r, "n")
            return []
        if isinstance(s, ast.Raise):
            for h in env["exc"]():
                self._edge(n, h, "x")
            return []
        if isinstance(s, ast.Assert):
            for h in env["exc"]():
                self._edge(n, h, "x")
            return [(n, "n")]
        if isinstance(s, ast.Break):
            if env.get("brkf"):
                for r in env["brkf"]():
                    self._edge(n, r, "n")
            elif env["brk"] is not None:
                env["brk"].append((n, "n"))
            return []
        if isinstance(s, ast.Continue):
            if env.get("contf"):
                for r in env["contf"]():
                    self._edge(n, r, "n")
            elif env["cont"] is not None:
                self._edge(n, env["cont"], "n")
            return []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return [(n, "n")]
        self._raises(n, s, env)
        return [(n, "n")]

    def _try(self, s, ins, env):
        fin = s.finalbody

        def through_finally(target):
            """A fresh copy of the finally body that continues to the given targets."""
            cache = {}

            def get():
                if "n" not in cache:
                    self._copy += 1
                    start = self._new(s, "finally")
                    cache["n"] = start
                    outs = self._block(fin, [(start, "n")], env)
                    for t in target():
                        for o, k in outs:
                            self._edge(o, t, k)
                return [cache["n"]]

            return get

        if fin:
            env_out = dict(env, exc=through_finally(env["exc"]), ret=through_finally(env["ret"]))
            if env["brk"] is not None:
                def brk_target(env=env):
                    n = self._new(s, "join")
                    if env.get("brkf"):
                        for r in env["brkf"]():
                            self._edge(n, r, "n")
                    else:
                        env["brk"].append((n, "n"))
                    return [n]

                def cont_target(env=env):
                    if env.get("contf"):
                        return env["contf"]()
                    return [env["cont"]]

                env_out["brkf"] = through_finally(brk_target)
                env_out["contf"] = through_finally(cont_target)
        else:
            env_out = env
        heads = []
        for h in s.handlers:
            heads.append(self._new(h, "handler"))
        catch_all = any(h.type is None or ast.unparse(h.type).split(".")[-1] in ("Exception", "BaseException") for h in s.handlers)

        def exc():
            r = list(heads)
            if not catch_all:
                r += env_out["exc"]()
            return r

        body_env = dict(env_out, exc=exc) if heads else env_out
        outs = self._block(s.body, ins, body_env)
        outs = self._block(s.orelse, outs, env_out)
        for h, hd in zip(s.handlers, heads):
            outs = outs + self._block(h.body, [(hd, "n")], env_out)
        if fin:
            start = self._new(s, "finally")
            self._link(outs, start)
            outs = self._block(fin, [(start, "n")], env) if outs else []
        return outs

    # ------------------------------------------------------------------ queries
    def reach(self, start, kinds="ntfxi", avoid=lambda n: False, skip_start=True):
        """Nodes reachable from `start` (a node or list) along edges of the given kinds
        without passing through nodes satisfying `avoid` (those are not entered)."""
        todo = list(start) if isinstance(start, (list, set, tuple)) else [start]
        seen = set()
        out = set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for m, k in n.succ:
                if k in kinds and not avoid(m):
                    out.add(m)
                    todo.append(m)
        return out

    def find(self, pred):
        return [n for n in self.nodes if n.ast is not None and pred(n)]

    def path(self, start, goal, kinds="ntfxi", avoid=lambda n: False):
        """A shortest path (list of nodes) or None."""
        todo = [(x, (x,)) for x in (start if isinstance(start, (list, set)) else [start])]
        seen = set()
        while todo:
            n, p = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            if goal(n) and len(p) > 1:
                return p
            for m, k in n.succ:
                if k in kinds and not avoid(m):
                    if goal(m):
                        return p + (m,)
                    todo.append((m, p + (m,)))
        return None


def node_exprs(n):
    """Expressions evaluated at a node."""
    a = n.ast
    if a is None:
        return []
    if n.kind == "iter":
        return [a.iter, a.target]
    if n.kind == "with":
        return [i.context_expr for i in a.items]
    if n.kind in ("finally", "join"):
        return []
    if n.kind == "handler":
        return [a.type] if a.type else []
    if isinstance(a, (ast.FunctionDef, ast.ClassDef, ast.Match)):
        return []
    return [a]
