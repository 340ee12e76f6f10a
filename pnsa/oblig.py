"""Obligations: a method's value (vn term) against a reference formula, by normal form."""
from __future__ import annotations

import ast
import itertools

from . import alg as A
from . import vn as V

SELF = ("s", "self")


class Eval:
    """Evaluates methods of a class and reference text on the same symbols."""

    def __init__(self, prog, eff=None, opaque=(), types=None, records=None, max_depth=9):
        self.p, self.eff = prog, eff
        self.opaque, self.types, self.records, self.max_depth = set(opaque), dict(types or {}), records or {}, max_depth
        self.identity_calls = set()
        self.summaries = None
        self.oracle = None

    def new_vn(self, assume=()):
        v = V.VN(self.p, assume=dict(assume), opaque=self.opaque, types=self.types, records=self.records, max_depth=self.max_depth)
        v.identity_calls = self.identity_calls
        v.summaries = self.summaries
        v.oracle = self.oracle
        return v

    # ----------------------------------------------------------------- object state
    def written_elsewhere(self, cls):
        """Attribute names assigned outside constructors anywhere in the class family."""
        out = set()
        fam = set(cls.mro()) | set(cls.all_subclasses())
        for c in fam:
            for m in c.methods.values():
                if m.name in ("__init__", "__new__", "__post_init__"):
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        out.add(c.mangle(n.attr))
        return out

    def state(self, cls, vn, params=None):
        """Attribute environment of an object of class `cls` after construction."""
        init = cls.find("__init__")
        env = {}
        if init is None:
            return env
        save, vn.stack = vn.stack, []
        try:
            vn.func(init, cls, params)
            le = vn.last_env or {}
        finally:
            vn.stack = save
        skip = self.written_elsewhere(cls)
        for k, v in le.items():
            if isinstance(k, tuple) and k[1] == SELF and k[2] not in skip:
                env[k] = v
        return env

    def method(self, cls, name, args=None, vn=None, state=None, params=None, assume=()):
        """(term, vn) of cls.name(self, **args)."""
        vn = vn or self.new_vn(assume)
        f = cls.find(name)
        if f is None:
            return None, vn
        st = state if state is not None else self.state(cls, vn, params)
        env = dict(st)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.self_name:
            env[f.self_name] = SELF
        pos = [n for n in names if n != f.self_name]
        args = args or {}
        if isinstance(args, (list, tuple)):
            args = dict(zip(pos, args))
        for n in pos:
            env[n] = args.get(n, ("s", n))
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, ("s", "*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, ("s", "**" + a.kwarg.arg))
        return vn.body(f, env, cls), vn

    def text(self, src, f, cls, vn, env=None, state=None):
        """Reference expression evaluated in the module and class of f."""
        e = dict(state or {})
        e.update(env or {})
        fr = V.Frame(vn, f, e, cls)
        node = ast.parse(src.strip(), mode="eval").body
        return fr.ev(node)


strip_raise = V.strip_raise


def unknown(t):
    """First construct of a term that was not understood, or None."""
    if not isinstance(t, tuple):
        return None
    if t and t[0] in ("unk", "ifold", "mut", "gen", "exc", "loopret", "map*", "hole"):
        return t[0] + (":" + str(t[1]) if len(t) > 1 and isinstance(t[1], str) else "")
    for x in t:
        if isinstance(x, tuple):
            r = unknown(x)
            if r:
                return r
    return None


def heads(x, out=None):
    """Names of opaque functions inside a canonical form."""
    if out is None:
        out = set()
    if isinstance(x, tuple):
        if x and x[0] in ("f",) and len(x) == 4:
            out.add(x[1] if isinstance(x[1], str) else repr(x[1]))
        elif x and x[0] == "mf" and len(x) == 5:
            out.add("." + x[2])
        elif x and x[0] == "pcall":
            out.add("p:" + str(x[1]))
        elif x and x[0] == "new":
            out.add("new:" + str(x[1]))
        elif x and x[0] in ("had", "bound", "phi", "map", "upd", "lat", "star", "fn"):
            out.add(x[0])
        elif x and x[0] == "bin" and len(x) == 4 and isinstance(x[1], str):
            out.add("bin:" + x[1])
        elif x and x[0] == "idx" and len(x) == 3 and isinstance(x[1], tuple):
            out.add("idx:shape" if shapelike(x[1]) else "idx:const" if x[2][0] == "c" else "idx")
        for y in x:
            heads(y, out)
    return out


def shapelike(a):
    return a[0] == "at" and a[2] == "shape" or a[0] in ("s",) and a[1] == "shape" or a[0] == "par" and a[2] == "shape"


class Verdict:
    def __init__(self, kind, detail="", leaves=0):
        self.kind, self.detail, self.leaves = kind, detail, leaves


def show(p, alg=None, n=240):
    return pretty(p)[:n]


def pretty(p):
    def letter(l):
        s = atom(l[0])
        return s + ("'" if l[1] else "") + ("^-1" if l[2] else "")

    def atom(a):
        if a == A.I:
            return "I"
        if not isinstance(a, tuple):
            return str(a)
        if a[0] == "s":
            return a[1]
        if a[0] == "c":
            return str(a[1])
        if a[0] == "at":
            return atom(a[1]) + "." + a[2]
        if a[0] in ("P", "S", "E"):
            return "(" + pretty(dict(a[1])) + ")"
        if a[0] in ("chol", "sum"):
            return a[0] + "(" + pretty(dict(a[1])) + ")"
        if a[0] == "kron":
            return "kron(" + pretty(dict(a[1])) + ", " + pretty(dict(a[2])) + ")"
        if a[0] == "f":
            return str(a[1]).split(".")[-1] + "(" + ", ".join(atom(x) for x in a[2]) + ")"
        if a[0] == "mf":
            return atom(a[1]) + "." + a[2] + "(" + ", ".join(atom(x) for x in a[3]) + ")"
        if a[0] == "idx":
            return atom(a[1]) + "[" + atom(a[2]) + "]"
        if a[0] == "new":
            return a[1].split(".")[-1] + "(" + ", ".join(k + "=" + atom(v) for k, v in a[2]) + ")"
        if a[0] == "tup":
            return "(" + ", ".join(atom(x) for x in a[1]) + ")"
        return repr(a)[:80]

    if not isinstance(p, dict):
        return atom(p)
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=repr):
        s = "*".join(("@".join(letter(l) for l in w)) + ("" if e == 1 else f"^{e}") for w, e in m)
        out.append((f"{c}*" if c != 1 and s else (str(c) if not s else "")) + s)
    return " + ".join(out)


def compare(impl, refs, alg_factory, max_conds=7, known_heads=(), extra_ok=None, accept=None, consistent=None):
    """Compares a value with its references under every assignment of the conditions.

    refs: list of alternative reference terms.  Verdict kinds: equal / differs / undecided.
    `accept(alg, leaf)` may accept a leaf for other reasons.
    """
    impl = strip_raise(impl)
    if impl is None:
        return Verdict("undecided", "always raises")
    refs = [r for r in (strip_raise(r) for r in refs) if r is not None]
    if not refs:
        return Verdict("undecided", "no reference")
    conds = A.conditions(impl)
    for r in refs:
        A.conditions(r, conds, set())
    conds = list(dict.fromkeys(conds))
    if len(conds) > max_conds:
        return Verdict("undecided", f"{len(conds)} conditions")
    n = und = 0
    why = None
    for bits in itertools.product((True, False), repeat=len(conds)):
        asg = dict(zip(conds, bits))
        if not A.feasible(asg) or (consistent is not None and not consistent(asg)):
            continue
        leaf = strip_raise(A.resolve(impl, asg))
        if leaf is None or leaf == V.RAISE:
            continue
        alg = alg_factory(asg)
        try:
            x = alg.nf(leaf)
            ok = False
            rs = []
            for r in refs:
                y = alg.nf(A.resolve(r, asg))
                rs.append(y)
                if x == y:
                    ok = True
                    break
            if not ok and accept is not None and accept(alg, leaf):
                ok = True
        except (A.TooBig, RecursionError):
            return Verdict("undecided", "too big")
        n += 1
        if ok:
            continue
        u = unknown(leaf)
        if u:
            und += 1
            why = u
            continue
        hx = heads(alg.key(x))
        hr = set(known_heads)
        for y in rs:
            hr |= heads(alg.key(y))
        odd = {h for h in hx - hr if not (extra_ok and extra_ok(h)) and not sibling(h, hr)}
        if odd:
            und += 1
            why = "constructs outside the rule's vocabulary: " + ", ".join(sorted(odd))[:160]
            import os
            if os.environ.get("PNSA_SHOW"):
                print("UND", pretty(x)[:400], "| REF", [pretty(r)[:300] for r in rs], "| WHEN", [(cond_str(k), v) for k, v in asg.items()])
            continue
        cs = "; ".join(("" if v else "not ") + cond_str(k) for k, v in asg.items())
        return Verdict("differs", f"is {pretty(x)[:300]}, must be {pretty(rs[0])[:300]}" + (f" when {cs[:200]}" if cs else ""), n)
    if und:
        return Verdict("undecided", why or "", n)
    return Verdict("equal", "", n)


# functions of one group never compute the same value
GROUPS = [set(x.split()) for x in (
    "argmax argmin nanargmax nanargmin", "log log10 log2 log1p", "exp expm1 exp2", "any all", "maximum minimum", "max min mean median prod sum std var",
    "sin cos tan", "triu tril", "zeros ones zeros_like ones_like", "vstack hstack", "pdf logpdf cdf logcdf sf logsf ppf isf", "floor ceil round rint",
    "builtins.max builtins.min", "builtins.any builtins.all", "abs square sqrt", "cumsum cumprod", "argsort sort", "inner outer",
)]


def sibling(h, hr):
    a = h.split(".")[-1].lstrip(".")
    for g in GROUPS:
        if a in g and any(r.split(".")[-1] in g for r in hr if r != h):
            return True
    return False


def cond_str(k):
    if k[0] == "cmp":
        return f"{pretty_t(k[2])} {k[1]} {pretty_t(k[3])}"
    if k[0] == "isinstance":
        return f"isinstance({pretty_t(k[1])})"
    return pretty_t(k)


def pretty_t(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "c":
        return repr(t[1])
    if t[0] == "s":
        return t[1]
    if t[0] == "at":
        return pretty_t(t[1]) + "." + t[2]
    if t[0] == "m":
        return pretty_t(t[1]) + "." + t[2] + "()"
    if t[0] == "call":
        return str(t[1]).split(".")[-1] + "(..)"
    return t[0]
