"""Helpers shared by the rules."""

from .algebra import canon, equal, splits, resolve, undecidable, atoms_of, ratio, nf, fname
from .proj import AnalysisBroken
from .terms import (T, C, G, Term, NONE, TRUE, FALSE, walk, subst, rewrite, contains, isc, cval, phi, neg, conj, disj,
                    binop, item, show, occurs)
from .world import World
from .vfg import Eval

SELF = T("param", "self")


def par(n):
    return T("param", n)


def attr(b, *names):
    for n in names:
        b = T("attr", b, n)
    return b


def idx(b, *keys):
    for k in keys:
        b = item(b, k if isinstance(k, Term) else C(k))
    return b


def run(proj, cls, name, opaque=None, args=None, **k):
    f = proj.method(cls, name) if cls else proj.func(name)
    hook = k.pop("hook", None)
    ev = World(proj, opaque=opaque, **k)
    if hook:
        ev.hook = hook
    r = ev.run(f, cls=proj.cls(cls) if cls else None, args=args)
    r.func = f
    r.loc = f.loc
    r.ev = ev
    return r


def applied(r, fn, *args):
    """Value of a closure met while evaluating r, at the given argument terms."""
    from .vfg import Frame
    ev = r.ev
    ev.guard = ()
    ev.stack.append(r.func)
    try:
        return ev.apply(fn, list(args), [], Frame(r.func, {}), r.func.node)
    finally:
        ev.stack.pop()


def srcof(t):
    """Strip wrappers that keep the set of elements: sorted(x), list(x), set(x), x.keys() ..."""
    while t.op == "call":
        fn, a, kw = t.a
        if fn.op == "global" and fn.a[0] in ("builtins.sorted", "builtins.list", "builtins.set", "builtins.tuple",
                                             "builtins.frozenset", "builtins.iter", "builtins.reversed") and a:
            t = a[0]
            continue
        if fn.op == "attr" and fn.a[1] in ("keys", "copy") and not a:
            t = fn.a[0]
            continue
        break
    return t


def fuse(t):
    """Elements of an unfiltered comprehension are its body at that element."""
    def f(x):
        if x.op == "elem" and isinstance(x.a[1], Term):
            s = srcof(x.a[1]) if x.a[1].op == "call" and x.a[1].a[0].op == "global" and x.a[1].a[0].a[0] in (
                "builtins.list", "builtins.tuple", "builtins.iter") else x.a[1]
            if s.op == "comp" and s.a[0] in ("list", "gen", "set") and not s.a[4]:
                _, body, l2, src, _ = s.a
                if isinstance(src, Term):
                    return subst(body, {T("elem", l2, src): T("elem", x.a[0], src),
                                        T("idx", l2, src): T("idx", x.a[0], src)})
        return x
    for _ in range(4):
        n = rewrite(t, f)
        if n is t:
            return t
        t = n
    return t


def through(el):
    """An element of a comprehension that only selects: the element it selects from and the selection."""
    conds = ()
    for _ in range(4):
        if el.op != "elem" or not isinstance(el.a[1], Term):
            break
        s = el.a[1]
        while s.op == "call" and s.a[0].op == "global" and s.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(s.a[1]) == 1:
            s = s.a[1][0]
        if s.op != "comp" or s.a[0] not in ("list", "gen") or not isinstance(s.a[3], Term) or s.a[1] is not T("elem", s.a[2], s.a[3]):
            break
        new = T("elem", el.a[0], s.a[3])
        m = {T("elem", s.a[2], s.a[3]): new, T("idx", s.a[2], s.a[3]): T("idx", el.a[0], s.a[3])}
        conds = tuple(subst(c, m) for c in s.a[4]) + conds
        el = new
    return el, conds


def ascomp(t):
    """A list filled by conditional appends in one loop, as a comprehension (its condition may look at the list)."""
    if t.op != "loopout" or t.a[2].op != "list" or t.a[2].a:
        return t
    lid, name, init, new = t.a
    if new.op == "phi":
        c, x, y = new.a
        if x.op == "append" and y.op == "loopvar":
            app, cond, lv = x, c, y
        elif y.op == "append" and x.op == "loopvar":
            app, cond, lv = y, neg(c), x
        else:
            return t
        if app.a[0] is not lv or lv.a[0] != lid:
            return t
        srcs = {x.a[1] for x in walk(new) if x.op in ("elem", "idx") and x.a[0] == lid and isinstance(x.a[1], Term)}
        if len(srcs) == 1:
            return T("comp", "list", app.a[1], lid, srcs.pop(), tuple(cond.a) if cond.op == "and" else (cond,))
    return t


def flatten(c):
    """A comprehension over a (filtered) comprehension as one over the inner source."""
    for _ in range(6):
        if c.op != "comp" or not isinstance(c.a[3], Term):
            return c
        kind, body, lid, src, conds = c.a
        s = src
        while s.op == "call" and s.a[0].op == "global" and s.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(s.a[1]) == 1:
            s = s.a[1][0]
        s = ascomp(s)
        if s.op != "comp" or s.a[0] not in ("list", "gen"):
            return c
        m = {T("elem", lid, src): s.a[1]}
        c = T("comp", kind, subst(body, m), s.a[2], s.a[3], tuple(s.a[4]) + tuple(subst(x, m) for x in conds))
    return c


class Sum:
    def __init__(self, lid, src, term, sign=1):
        self.lid, self.src, self.term, self.sign = lid, src, term, sign

    @property
    def el(self):
        return T("elem", self.lid, self.src)


def summands(t):
    """Decompose an additive term: (plain terms with sign, [Sum]) or None."""
    plain, sums = [], []

    def add(t, s):
        t0 = t
        if t.op == "bin" and t.a[0] in ("+", "-"):
            return add(t.a[1], s) and add(t.a[2], s if t.a[0] == "+" else -s)
        if t.op == "un" and t.a[0] == "-":
            return add(t.a[1], -s)
        if t.op == "fold" and t.a[0] in ("+", "-"):
            return add(t.a[1], s) and comp(t.a[2], s if t.a[0] == "+" else -s)
        n = fname(t.a[0]) if t.op == "call" else None
        if n in ("sum", "fsum") and len(t.a[1]) in (1, 2) and t.a[1][0].op == "comp":
            if len(t.a[1]) == 2 and not add(t.a[1][1], s):
                return False
            return comp(t.a[1][0], s)
        if t.op == "call" and n == "array" and len(t.a[1]) == 1:
            return add(t.a[1][0], s)
        if isc(t, 0) or (t.op == "const" and t.a[0] == 0):
            return True
        if t.op == "loopout":
            # not a plain accumulation: the increment is what one pass adds to the carried value
            lid, name, init, new = t.a
            srcs = {x.a[1] for x in walk(new) if x.op == "elem" and x.a[0] == lid and isinstance(x.a[1], Term)}
            lvs = [x for x in walk(new) if x.op == "loopvar" and x.a[0] == lid]
            if len(srcs) != 1 or len(set(lvs)) > 1:
                return False
            lv = lvs[0] if lvs else T("loopvar", lid, name)
            sums.append(Sum(lid, srcs.pop(), binop("-", new, lv), s))
            return add(init, s)
        plain.append((s, t0))
        return True

    def comp(c, s):
        c = fuse(c)
        if c.op != "comp":
            return False
        _, body, lid, src, conds = c.a
        term = body
        for g in reversed(conds):
            term = phi(g, term, C(0))
        sums.append(Sum(lid, src, term, s))
        return True

    return (plain, sums) if add(fuse(t), 1) else None


def number(x, vals):
    """The number a term has under an assignment of numbers to symbols, or None."""
    y = canon(subst(x, {k: C(v) for k, v in vals.items()}))
    if y.op == "f" and y.a[0] in ("clip", "minimum", "maximum", "array", "min", "max"):
        a = [q.a[0] for q in y.a[1] if q.op == "const"]
        if len(a) == len(y.a[1]) and not (y.a[0] in ("min", "max") and len(a) < 2):
            if y.a[0] == "clip":
                return max(a[1], min(a[2], a[0]))
            return min(a) if y.a[0] in ("minimum", "min") else max(a)
    return y.a[0] if y.op == "const" and isinstance(y.a[0], (int, float)) else None


def order(t, vals):
    """Evaluate comparisons under an assignment of numbers to symbols (a complete set of such assignments
    enumerates the weak orders of the symbols); other uses of the symbols stay symbolic."""
    def num(x):
        return number(x, vals)

    def f(x):
        if x.op == "cmp" and x.a[0] in ("<", "<=", "==", "!=", ">", ">="):
            a, b = num(x.a[1]), num(x.a[2])
            if a is not None and b is not None and any(occurs(x, k) for k in vals):
                return C({"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}[x.a[0]])
        if x.op == "call" and fname(x.a[0]) in ("logical_or", "logical_and", "or_", "and_") and len(x.a[1]) == 2:
            return (disj if "or" in fname(x.a[0]) else conj)(x.a[1])
        if x.op == "call" and fname(x.a[0]) in ("any", "all") and len(x.a[1]) == 1 and x.a[1][0].op == "const":
            return x.a[1][0]
        if x.op == "bin" and x.a[0] in ("|", "&") and all(
                y.op in ("cmp", "not", "and", "or") or isc(y, True, False) for y in x.a[1:]):
            return (disj if x.a[0] == "|" else conj)(x.a[1:])
        return x

    return rewrite(t, f)


VOCAB = {"sum", "mean", "log", "exp", "sqrt", "clip", "where", "minimum", "maximum", "abs", "log10", "log2", "log1p",
         "min", "max", "array", "toint", "floor", "ceil", "isnan", "isinf", "isfinite", "any", "all", "median", "argmax",
         "argmin", "searchsorted", "ones", "zeros", "cumsum", "prod", "round", "erf", "power", "interp", "nanmean",
         "nansum", "nanmedian", "std", "var", "expm1", "sign"}
BASIC = {"const", "param", "global", "attr", "item", "bin", "un", "cmp", "and", "or", "not", "phi", "f", "tuple", "list",
         "elem", "star", "set"}


def symbols(t):
    out = set()
    for x in walk(t):
        if x.op == "f":
            out.add("f:" + str(x.a[0]))
        elif x.op == "call":
            out.add("call:" + head(x.a[0]))
        elif x.op == "global":
            out.add("g:" + x.a[0])
        elif x.op == "attr":
            out.add("a:" + x.a[1])
        elif x.op not in BASIC:
            out.add("op:" + x.op)
    return out


def head(fn):
    if not isinstance(fn, Term):
        return str(fn)
    return fn.a[0] if fn.op == "global" else "." + fn.a[1] if fn.op == "attr" else fn.op


def same(got, want, allow=()):
    """True / False / None: equality of a computed term with its specification.  A term with operations
    outside the specification's vocabulary is undecided rather than different."""
    got, want = canon(fuse(expand_star(got))), canon(fuse(expand_star(want)))
    r = equal(got, want, canonical=True)
    if r is not False:
        return r
    foreign = {s for s in symbols(got) - symbols(want)
               if not (s.startswith("f:") and s[2:] in VOCAB) and not s.startswith("a:") and s not in allow
               and not (s.startswith("g:")) and s != "op:loopvar"}
    if foreign:
        return None
    from .numer import alike
    return alike(got, want)


def expand_star(t):
    """clip(x, *r) -> clip(x, r[0], r[1])"""
    def f(x):
        if x.op == "call" and fname(x.a[0]) == "clip" or (
                x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "clip"):
            args = list(x.a[1])
            if args and args[-1].op == "star":
                r = args[-1].a[0]
                args[-1:] = [item(r, C(0)), item(r, C(1))]
                return T("call", x.a[0], tuple(args), x.a[2])
        return x
    return rewrite(t, f)


def guard_of(e):
    return conj(tuple(e.guard or ()))


def feasible(g, facts=()):
    """Can guard g be true?  (propositional over atoms, with equality consistency)"""
    g = conj((g,) + tuple(facts))
    if isc(g, False):
        return False
    ss = splits(phi(g, C(1), C(0)))
    if ss is None:
        return True
    return any(isc(v, 1) or v.op == "phi" for _, v in ss)


def implied(g, c):
    """Does g imply c, propositionally?"""
    return not feasible(conj((g, neg(c))))


def raises(r):
    return [e for e in r.events if e.kind in ("raise", "assert")]


def raise_guard(e):
    """When does this raise or assert event raise?"""
    g = guard_of(e)
    return conj((g, neg(e.value))) if e.kind == "assert" and e.value is not None else g


def calls(r, *names):
    """Call events whose callee is a global with one of the (last-segment) names or an attribute of that name."""
    out = []
    for e in r.events:
        if e.kind == "call" and e.fn is not None:
            h = head(e.fn)
            if h.split(".")[-1] in names:
                out.append(e)
    return out


def arg(e, i, name, default=None):
    """Argument of a call event by position or keyword."""
    kw = dict((k, v) for k, v in (e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs or ()) if k)
    if name in kw:
        return kw[name]
    if i is not None and i < len(e.args):
        return e.args[i]
    return default


_SPECS = {}


def spec(proj, mod, name, **args):
    """Value of a specification function (sa/specs/<mod>.py) at the given argument terms."""
    import os
    from .proj import Module
    k = (id(proj), mod)
    if k not in _SPECS:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs", mod + ".py")
        _SPECS[k] = (proj, Module(proj, "spec_" + mod, p, "specs/" + mod + ".py"))
    f = _SPECS[k][1].funcs[name][0]
    return Eval(proj, opaque=lambda f: True).run(f, args=args).ret


def opq(*names):
    """Opacity predicate: functions by bare name or qualified suffix."""
    return lambda f: any(f.name == n or f.qual.endswith("." + n) for n in names)


def instantiate(t, el):
    """Existential/universal tests over all elements of el's source, at the element el:
    any(body for x in src) -> body(el),  all(...) -> body(el)."""
    s0 = srcof(el.a[1])

    def f(x):
        if x.op == "call" and fname(x.a[0]) is None and x.a[0].op == "global" and x.a[0].a[0] in (
                "builtins.any", "builtins.all") and len(x.a[1]) == 1 and x.a[1][0].op == "comp":
            c = fuse(x.a[1][0])
            if c.op == "comp" and isinstance(c.a[3], Term) and srcof(c.a[3]) is s0:
                body = subst(c.a[1], {T("elem", c.a[2], c.a[3]): el})
                cs = [subst(g, {T("elem", c.a[2], c.a[3]): el}) for g in c.a[4]]
                if x.a[0].a[0] == "builtins.any":
                    return conj(cs + [body])
                return disj([neg(g) for g in cs] + [body])
        return x
    return rewrite(t, f)


def linsum(t):
    """Sums distributed over addition: sum(a*x + b*y) -> a*sum(x) + b*sum(y); dot products are sums of products."""
    from .algebra import TooBig

    def f(x):
        if x.op == "f" and x.a[0] in ("dot", "vdot", "inner") and len(x.a[1]) == 2:
            x = T("f", "sum", (binop("*", *x.a[1]),), ())
        if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0].endswith(".xlogy") and len(x.a[1]) == 2:
            return binop("*", x.a[1][0], T("f", "log", (x.a[1][1],), ()))
        if x.op == "f" and x.a[0] == "sum" and not x.a[2] and len(x.a[1]) == 1:
            try:
                n, d = ratio(x.a[1][0])
            except TooBig:
                return x
            if d.const() is None or not d.const():
                return x
            acc = C(0)
            for k in sorted(n.d, key=hash):
                mono = C(1)
                for a, e in sorted(k, key=hash):
                    mono = binop("*", mono, a if e == 1 else binop("**", a, C(e)))
                c = n.d[k] / d.const()
                c = int(c) if c.denominator == 1 else float(c)
                acc = binop("+", acc, binop("*", C(c), T("f", "sum", (mono,), ())))
            return acc
        return x
    return rewrite(canon(fuse(t)), f)


def rets(r):
    """Exits as [(guard term, value, loc)]."""
    return [(conj(g if isinstance(g, tuple) else (g,)), t, l) for g, t, h, l in r.exits]


def callterms(r, name):
    """Distinct call terms with this callee name in what r returns, tests or stores."""
    out = []
    ts = [x for g, t, l in rets(r) for x in (g, t)] + list(r.heap.values()) + [x for e in r.events for x in e.guard]
    seen = set()
    for t in ts:
        if not isinstance(t, Term):
            continue
        for x in walk(t, seen):
            if x.op == "call" and head(x.a[0]).split(".")[-1] == name and x not in out:
                out.append(x)
    return out


def inum(t, env):
    """Integer or boolean value of an index term under an assignment of its symbols; None if not determined."""
    if t in env:
        return env[t]
    if t.op == "const":
        return t.a[0] if isinstance(t.a[0], (int, float)) else None
    if t.op in ("bin", "cmp", "un", "phi", "and", "or", "not", "f"):
        if t.op == "f":
            a = [inum(x, env) if isinstance(x, Term) else None for x in t.a[1]]
            if None in a:
                return None
            n = t.a[0]
            if n == "clip" and len(a) == 3:
                return min(max(a[0], a[1]), a[2])
            if n in ("minimum", "min") and len(a) == 2:
                return min(a)
            if n in ("maximum", "max") and len(a) == 2:
                return max(a)
            if n in ("toint", "floor", "array", "round", "rint", "trunc"):
                return a[0] if a[0] == int(a[0]) else None
            if n == "where" and len(a) == 3:
                return a[1] if a[0] else a[2]
            return None
        o = t.a[0]
        if t.op == "bin":
            a, b = inum(t.a[1], env), inum(t.a[2], env)
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b}[o]()
            except (KeyError, ZeroDivisionError):
                return None
        if t.op == "cmp":
            a, b = inum(t.a[1], env), inum(t.a[2], env)
            if a is None or b is None:
                return None
            return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}.get(o)
        if t.op == "un":
            a = inum(t.a[1], env)
            return None if a is None else -a if o == "-" else a
        if t.op == "phi":
            c = inum(t.a[0], env)
            return None if c is None else inum(t.a[1] if c else t.a[2], env)
    return None


def clamp(raw, n):
    """JAX gather: negative indices count from the end, the rest is clamped."""
    if raw < 0:
        raw += n
    return min(max(raw, 0), n - 1)
