"""Hash-consed value terms (the nodes of the gated value-flow graph)."""

import itertools


class Term:
    __slots__ = ("op", "a", "_h", "__weakref__")

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


_TAB = {}


def T(op, *a):
    k = (op, tuple((type(x), x) if not isinstance(x, Term) else x for x in a))
    t = _TAB.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.a = op, a
        t._h = hash(k)
        _TAB[k] = t
    return t


_uid = itertools.count(1)


def fresh():
    return next(_uid)


def C(v):
    return T("const", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def isc(t, *v):
    return t.op == "const" and (not v or any(t.a[0] is x or (type(t.a[0]) is type(x) and t.a[0] == x) for x in v))


def cval(t):
    return t.a[0] if t.op == "const" else None


def G(d):
    return T("global", d)


def children(t):
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _tup(x)


def _tup(x):
    for y in x:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, tuple):
            yield from _tup(y)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def occurs(t, sub):
    return any(x is sub for x in walk(t))


def mapc(x, f):
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(mapc(y, f) for y in x)
    return x


def subst(t, m, memo=None):
    """Simultaneous replacement of terms."""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(mapc(y, go) for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            memo[x] = r
        return r

    return go(t)


def rebuild(op, a):
    if op == "phi":
        return phi(*a)
    if op == "item":
        return item(*a)
    if op == "not":
        return neg(a[0])
    if op == "and":
        return conj(a)
    if op == "or":
        return disj(a)
    if op == "cmp":
        return cmpt(*a)
    if op == "bin":
        return binop(*a)
    return T(op, *a)


def rewrite(t, f, memo=None):
    """Bottom-up rewriting with f(term) -> term."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            na = tuple(mapc(y, go) for y in x.a)
            y = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            r = f(y)
            memo[x] = r
        return r

    return go(t)


# -- smart constructors ------------------------------------------------------

_NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "is": "is not", "is not": "is",
        "in": "not in", "not in": "in"}


def neg(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "const":
        try:
            return C(not t.a[0])
        except Exception:
            pass
    if t.op == "cmp" and t.a[0] in ("==", "!=", "is", "is not", "in", "not in"):
        return T("cmp", _NEG[t.a[0]], t.a[1], t.a[2])
    if t.op == "and":
        return disj(tuple(neg(x) for x in t.a))
    if t.op == "or":
        return conj(tuple(neg(x) for x in t.a))
    return T("not", t)


def conj(ts):
    out = []
    for t in ts:
        for x in t.a if t.op == "and" else (t,):
            if isc(x, True):
                continue
            if isc(x, False):
                return FALSE
            if x not in out:
                out.append(x)
    if any(neg(x) in out for x in out):
        return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else T("and", *out)


def disj(ts):
    out = []
    for t in ts:
        for x in t.a if t.op == "or" else (t,):
            if isc(x, False):
                continue
            if isc(x, True):
                return TRUE
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if any(neg(x) in out for x in out):
        return TRUE
    for i, x in enumerate(out):
        if x.op == "and":
            kept = [y for y in x.a if neg(y) not in out]
            if len(kept) < len(x.a):
                return disj(out[:i] + [conj(kept)] + out[i + 1:])
    return out[0] if len(out) == 1 else T("or", *out)


def phi(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        try:
            return a if c.a[0] else b
        except Exception:
            pass
    if c.op == "not":
        return phi(c.a[0], b, a)
    if c.op == "cmp" and c.a[0] in ("!=", "is not", "not in"):
        return phi(neg(c), b, a)
    # phi(c, phi(c, x, y), b) = phi(c, x, b)
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return T("phi", c, a, b)


def cmpt(op, a, b):
    if op in ("in", "not in"):
        while b.op == "call" and b.a[0].op == "global" and b.a[0].a[0] in (
                "builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.frozenset") and len(b.a[1]) == 1 and b.a[1][0].op in (
                "list", "tuple", "set", "dict"):
            b = b.a[1][0]
    if a.op == "const" and b.op == "const":
        x, y = a.a[0], b.a[0]
        try:
            if op == "==":
                return C(x == y)
            if op == "!=":
                return C(x != y)
            if op == "is":
                return C(x is y)
            if op == "is not":
                return C(x is not y)
            if op == "<":
                return C(x < y)
            if op == "<=":
                return C(x <= y)
            if op == ">":
                return C(x > y)
            if op == ">=":
                return C(x >= y)
            if op == "in":
                return C(x in y)
            if op == "not in":
                return C(x not in y)
        except Exception:
            pass
    if op in ("in", "not in") and b.op in ("list", "tuple", "set") and a.op == "const" \
            and all(x.op == "const" for x in b.a):
        r = any(isc(x, a.a[0]) for x in b.a)
        return C(r if op == "in" else not r)
    if op in ("in", "not in") and b.op in ("list", "tuple", "set") and (not b.a or any(x is a for x in b.a)):
        return C(bool(b.a) == (op == "in"))
    if op in ("in", "not in") and b.op == "dict" and not b.a:
        return C(op == "not in")
    if op in ("in", "not in") and b.op == "dict" and a.op == "const":
        ks = [p[0] for p in b.a]
        if all(isinstance(k, Term) and k.op == "const" for k in ks):
            r = any(isc(x, a.a[0]) for x in ks)
            return C(r if op == "in" else not r)
    if op in ("is", "is not") and isc(b, None) and a.op in (
            "list", "tuple", "dict", "set", "comp", "fstr", "append", "closure", "setitem"):
        return C(op == "is not")
    if op in ("is", "is not", "==", "!="):
        for x, y in ((a, b), (b, a)):
            if x.op in ("list", "tuple", "dict", "set") and y.op == "const" and not isinstance(y.a[0], (list, tuple, dict, set)):
                return C(op in ("is not", "!="))
    if op in ("is not", "!=", "not in"):
        return T("cmp", op, a, b)
    if op == ">":
        return T("cmp", "<", b, a)
    if op == ">=":
        return T("cmp", "<=", b, a)
    return T("cmp", op, a, b)


def binop(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.a[0], b.a[0]
        num = (int, float)
        try:
            if op == "+" and isinstance(x, str) and isinstance(y, str):
                return C(x + y)
            if op == "*" and ((isinstance(x, str) and isinstance(y, int)) or (isinstance(x, int) and isinstance(y, str))):
                return C(x * y)
            if isinstance(x, num) and isinstance(y, num) and not isinstance(x, bool) and not isinstance(y, bool):
                if op == "+":
                    return C(x + y)
                if op == "-":
                    return C(x - y)
                if op == "*":
                    return C(x * y)
                if op == "/" and y:
                    return C(x / y)
                if op == "**" and abs(x) < 1e3 and abs(y) < 64:
                    r = x ** y
                    if not isinstance(r, complex):
                        return C(r)
                if op == "%" and y:
                    return C(x % y)
                if op == "//" and y:
                    return C(x // y)
        except Exception:
            pass
    if op == "*" and a.op in ("list", "tuple") and b.op == "const" and isinstance(b.a[0], int) and 0 <= b.a[0] <= 8 and not any(
            isinstance(x, Term) and x.op == "star" for x in a.a):
        return T(a.op, *(a.a * b.a[0]))
    if op == "+" and a.op == b.op and a.op in ("list", "tuple"):
        return T(a.op, *(a.a + b.a))
    if op == "|" and a.op == "set" and b.op == "set":
        return T("set", *(a.a + b.a))
    return T("bin", op, a, b)


def item(b, i):
    if b.op in ("tuple", "list") and i.op == "const" and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
        if not any(x.op == "star" for x in b.a) and -len(b.a) <= i.a[0] < len(b.a):
            return b.a[i.a[0]]
        k = i.a[0]
        # an element before the first or after the last unpacked part
        if 0 <= k < len(b.a) and not any(x.op == "star" for x in b.a[:k + 1]):
            return b.a[k]
        if -len(b.a) <= k < 0 and not any(x.op == "star" for x in b.a[k:]):
            return b.a[k]
    if b.op == "dict" and i.op == "const":
        for k, v in reversed(b.a):
            if k is i:
                return v
            if not (isinstance(k, Term) and k.op == "const"):
                break
    if b.op == "setitem":
        if b.a[1] is i:
            return b.a[2]
        if b.a[1].op == "const" and i.op == "const":
            return item(b.a[0], i)
    if b.op == "append" and isc(i, -1):
        return b.a[1]
    if b.op == "phi":
        x, y = item(b.a[1], i), item(b.a[2], i)
        if not (x.op == "item" and x.a[0] is b.a[1] and y.op == "item" and y.a[0] is b.a[2]):
            return phi(b.a[0], x, y)
    if b.op == "slice_of" and i.op == "const" and isinstance(i.a[0], int):
        lo, hi, st = b.a[1].a
        if isc(st, None) and isc(lo, None) and i.a[0] >= 0:
            return item(b.a[0], i)
        if isc(st, None) and lo.op == "const" and isinstance(lo.a[0], int) and lo.a[0] >= 0 and i.a[0] >= 0:
            return item(b.a[0], C(lo.a[0] + i.a[0]))
    if i.op == "slice":
        if b.op in ("tuple", "list") and all(x.op == "const" for x in i.a) and not any(x.op == "star" for x in b.a):
            return T(b.op, *b.a[slice(*(x.a[0] for x in i.a))])
        if b.op in ("tuple", "list") and all(x.op == "const" for x in i.a) and i.a[2].a[0] in (None, 1):
            lo, hi = i.a[0].a[0], i.a[1].a[0]
            n = len(b.a)
            okl = lo is None or isinstance(lo, int) and 0 <= lo <= n and not any(x.op == "star" for x in b.a[:lo])
            okh = hi is None or isinstance(hi, int) and -n <= hi < 0 and not any(x.op == "star" for x in b.a[hi:])
            if okl and okh and (lo or 0) <= n + (hi or 0):
                r = b.a[lo or 0:n + (hi or 0)]
                return T(b.op, *r)
        return T("slice_of", b, i)
    if i.op == "idx" and i.a[1] is b:
        return T("elem", i.a[0], b)
    return T("item", b, i)


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) if isinstance(x, (Term, tuple)) else repr(x) for x in t) + ")"
        return repr(t)
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    if t.op == "const":
        return repr(t.a[0])
    if t.op in ("param", "global"):
        return str(t.a[0])
    if t.op == "attr":
        return f"{s(t.a[0])}.{t.a[1]}"
    if t.op == "item":
        return f"{s(t.a[0])}[{s(t.a[1])}]"
    if t.op == "bin":
        return f"({s(t.a[1])} {t.a[0]} {s(t.a[2])})"
    if t.op == "cmp":
        return f"({s(t.a[1])} {t.a[0]} {s(t.a[2])})"
    if t.op == "un":
        return f"({t.a[0]}{s(t.a[1])})"
    if t.op == "call":
        args = [s(x) for x in t.a[1]] + [f"{k}={s(v)}" if k else f"**{s(v)}" for k, v in t.a[2]]
        return f"{s(t.a[0])}({', '.join(args)})"
    if t.op == "phi":
        return f"φ({s(t.a[0])} ? {s(t.a[1])} : {s(t.a[2])})"
    if t.op in ("tuple", "list", "set"):
        o, c = {"tuple": "()", "list": "[]", "set": "{}"}[t.op]
        return o + ", ".join(s(x) for x in t.a) + c
    return f"{t.op}<" + ", ".join(s(x) if isinstance(x, (Term, tuple)) else str(x) for x in t.a) + ">"
