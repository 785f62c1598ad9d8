"""Numeric canonicalisation of value-flow terms and a rational normal form.

canon(t)   array-library spelling (np/jnp/method/cast variants) -> T("f", name, args, kw)
ratio(t)   rational function over algebraically independent atoms
equal(a,b) True / False / None (None: a construct outside the decidable fragment occurs)
"""

from fractions import Fraction

from .terms import T, C, NONE, TRUE, FALSE, Term, binop, rewrite, walk, phi, neg, subst, contains, item, isc

NUMMODS = ("numpy.", "jax.numpy.", "jax.lax.", "jax.nn.", "jax.scipy.special.", "scipy.special.", "math.")
METHODS = {"sum", "mean", "astype", "reshape", "ravel", "clip", "min", "max", "any", "all", "copy", "item", "prod",
           "round", "flatten", "transpose", "dot", "cumsum", "squeeze", "std", "argsort", "argmax", "argmin", "tolist"}
ALIAS = {"true_divide": "divide", "concat": "concatenate", "absolute": "abs", "fabs": "abs", "amax": "max",
         "amin": "min", "float_power": "power", "pow": "power", "logical_not": "not_", "flatten": "ravel",
         "inner": "dot", "product": "prod", "asfarray": "array", "asarray": "array", "ascontiguousarray": "array",
         "copy": "array", "float32": "array", "float64": "array", "sub": "subtract", "mul": "multiply",
         "div": "divide", "neg": "negative", "atleast_1d": "atleast_1d"}
BIN2 = {"multiply": "*", "add": "+", "subtract": "-", "divide": "/", "power": "**"}
FLOATS = ("FLOAT", "float", "float32", "float64")
INTS = ("INT", "int", "int32", "int64")


def fname(fn):
    """Canonical numeric function name of a callee term, or None."""
    if fn.op == "global":
        d = fn.a[0]
        for m in NUMMODS:
            if d.startswith(m) and "." not in d[len(m):]:
                n = d[len(m):]
                return ALIAS.get(n, n)
        if d in ("builtins.abs", "builtins.min", "builtins.max", "builtins.sum", "builtins.round"):
            return d.split(".")[1]
        if d == "builtins.float":
            return "array"
        if d == "builtins.int":
            return "toint"
    return None


def ty(t):
    n = None
    if t.op == "global":
        n = t.a[0].split(".")[-1]
    elif t.op == "const" and isinstance(t.a[0], str):
        n = t.a[0]
    if n in FLOATS:
        return "float"
    if n in INTS:
        return "int"
    if n in ("bool", "bool_"):
        return "bool"
    return None


def _one(t):
    if t.op == "un" and t.a[0] == "-":
        return binop("*", C(-1), t.a[1])
    if t.op == "item" and t.a[1].op == "const" and t.a[1].a[0] == 0 and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
        return T("call", T("global", "builtins.len"), (t.a[0].a[0],), ())
    if t.op == "call":
        fn, args, kw = t.a
        n = fname(fn)
        if n is None and fn.op == "attr" and fn.a[1] in METHODS:
            n = ALIAS.get(fn.a[1], fn.a[1])
            args = (fn.a[0],) + args
        if n is None:
            return t
        return simp(n, args, kw)
    return t


def simp(n, args, kw):
    kd = dict(kw)
    if n == "astype" and len(args) == 2:
        k = ty(args[1])
        if k == "float":
            return args[0]
        if k == "int":
            return T("f", "toint", (args[0],), ())
    if n == "array" and args:
        if args[0].op == "const" and isinstance(args[0].a[0], str):
            try:
                return C(float(args[0].a[0]))
            except ValueError:
                return T("f", "array", tuple(args), tuple(kw))
        k = kd.get("dtype") or (args[1] if len(args) > 1 else None)
        if k is not None and ty(k) == "int":
            return T("f", "toint", (args[0],), ())
        return args[0]
    if n in BIN2 and len(args) == 2 and not kw:
        return binop(BIN2[n], args[0], args[1])
    if n == "square" and len(args) == 1:
        return binop("**", args[0], C(2))
    if n == "reciprocal" and len(args) == 1:
        return binop("/", C(1), args[0])
    if n == "negative" and len(args) == 1:
        return binop("*", C(-1), args[0])
    if n == "clip":
        a = list(args)
        if len(a) == 2 and a[1].op == "star":
            a = [a[0], T("item", a[1].a[0], C(0)), T("item", a[1].a[0], C(1))]
        for names in (("a_min", "min"), ("a_max", "max")):
            if len(a) < 2 + (names[0] == "a_max"):
                v = next((kd[x] for x in names if x in kd), NONE)
                a.append(v)
        return T("f", "clip", tuple(a), ())
    if n == "where" and len(args) == 3:
        c, a, b = args
        if a is b:
            return a
        return T("f", "where", (c, a, b), ())
    if n in ("minimum", "maximum") and len(args) == 2:
        return T("f", n, tuple(sorted(args, key=hash)), ())
    return T("f", n, tuple(args), tuple(kw))


def canon(t):
    return rewrite(t, _one)


# -- rational functions -------------------------------------------------------

MAXTERMS = 4000


class TooBig(Exception):
    pass


def _num(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return None


class P:
    """Polynomial: {monomial: Fraction}; monomial = frozenset of (atom, exponent)."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}
        if len(self.d) > MAXTERMS:
            raise TooBig

    def __add__(s, o):
        d = dict(s.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return P(d)

    def neg(s):
        return P({k: -v for k, v in s.d.items()})

    def __mul__(s, o):
        d = {}
        if len(s.d) * len(o.d) > MAXTERMS * 10:
            raise TooBig
        for k, v in s.d.items():
            for k2, v2 in o.d.items():
                m = dict(k)
                for a, e in k2:
                    m[a] = m.get(a, 0) + e
                kk = frozenset((a, e) for a, e in m.items() if e)
                d[kk] = d.get(kk, 0) + v * v2
        return P(d)

    def __eq__(s, o):
        return s.d == o.d

    def __hash__(s):
        return hash(frozenset(s.d.items()))

    def atoms(s):
        return {a for k in s.d for a, _ in k}

    def const(s):
        if not s.d:
            return Fraction(0)
        if len(s.d) == 1 and frozenset() in s.d:
            return s.d[frozenset()]
        return None


ONE = P({frozenset(): Fraction(1)})
ZERO = P({})


def atom(t):
    return P({frozenset([(t, 1)]): Fraction(1)})


def ratio(t, memo=None):
    """(numerator, denominator) of a canonical term."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = _ratio(t, memo)
    return r


def _ratio(t, memo):
    if t.op == "const":
        v = _num(t.a[0])
        if v is not None:
            return P({frozenset(): v}), ONE
        return atom(t), ONE
    if t.op == "bin":
        o, a, b = t.a
        if o in ("+", "-", "*", "/"):
            an, ad = ratio(a, memo)
            bn, bd = ratio(b, memo)
            if o == "+" or o == "-":
                if o == "-":
                    bn = bn.neg()
                if ad == bd:
                    return an + bn, ad
                return an * bd + bn * ad, ad * bd
            if o == "*":
                return an * bn, ad * bd
            return an * bd, ad * bn
        if o == "**" and b.op == "const" and _num(b.a[0]) is not None:
            e = _num(b.a[0])
            if e.denominator == 1 and -8 <= e <= 8:
                n, d = ratio(a, memo)
                e = int(e)
                if e < 0:
                    n, d, e = d, n, -e
                rn, rd = ONE, ONE
                for _ in range(e):
                    rn, rd = rn * n, rd * d
                return rn, rd
    if t.op == "f" and t.a[0] == "sqrt":
        return atom(T("bin", "**", nf(t.a[1][0], memo), C(0.5))), ONE
    return atom(nfatom(t, memo)), ONE


def nfatom(t, memo):
    """Atoms: normalise arithmetic inside their arguments."""
    from .terms import mapc
    if t.op in ("const", "param", "global", "idx", "elem", "closure"):
        return t
    na = tuple(mapc(y, lambda x: nf(x, memo)) for y in t.a)
    if all(p is q for p, q in zip(na, t.a)):
        return t
    from .terms import rebuild
    return rebuild(t.op, na)


def nf(t, memo=None):
    """Canonical representative term of the arithmetic value of t (used inside atoms)."""
    if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "**"):
        n, d = reduced(*ratio(t, memo))
        k = ("nf", frozenset(n.d.items()), frozenset(d.d.items()))
        return T("nf", _Key(k))
    if t.op in ("const", "param", "global"):
        return t
    return nfatom(t, memo if memo is not None else {})


def reduced(n, d):
    """Common factors of a single term cancelled, a one-term denominator without coefficient."""
    if not n.d or not d.d:
        return (ZERO, ONE) if d.d else (n, d)
    common = None
    for k in list(n.d) + list(d.d):
        m = dict(k)
        common = m if common is None else {a: min(e, m[a]) for a, e in common.items() if a in m}
    if common:
        down = P({frozenset((a, -e) for a, e in common.items()): Fraction(1)})
        n, d = n * down, d * down
    if len(d.d) == 1:
        c = next(iter(d.d.values()))
        if c != 1:
            f = P({frozenset(): 1 / c})
            n, d = n * f, d * f
    return n, d


class _Key:
    """Hashable wrapper so that polynomials can live inside terms."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, _Key) and self.k == o.k

    def __hash__(self):
        return hash(self.k)


def req(a, b):
    """Rational equality of two canonical phi-free terms (True/False), None when too big."""
    try:
        m = {}
        an, ad = ratio(a, m)
        bn, bd = ratio(b, m)
        return an * bd == bn * ad
    except TooBig:
        return None


# -- guarded equality ---------------------------------------------------------

def conds(t):
    """Atomic conditions of the phi nodes (and where's) in a term."""
    out = []
    for x in walk(t):
        if x.op == "phi":
            for c in atoms_of(x.a[0]):
                if c not in out:
                    out.append(c)
    return out


def atoms_of(c):
    if c.op in ("and", "or"):
        r = []
        for x in c.a:
            r += atoms_of(x)
        return r
    if c.op == "not":
        return atoms_of(c.a[0])
    if c.op == "cmp" and c.a[0] in ("!=", "is not", "not in"):
        return [neg(c)]
    return [c]


def resolve(t, asg):
    """Specialise a term under a truth assignment of condition atoms."""
    m = {}
    for c, v in asg.items():
        m[c] = TRUE if v else FALSE
        m[neg(c)] = FALSE if v else TRUE
    return subst(t, m)


def consistent(asg):
    """Reject assignments with x == 'a' and x == 'b' both true for different constants."""
    eq = {}
    for c, v in asg.items():
        if v and c.op == "cmp" and c.a[0] in ("==", "is"):
            a, b = c.a[1], c.a[2]
            if a.op == "const":
                a, b = b, a
            if b.op == "const":
                if a in eq and eq[a] is not b:
                    return False
                eq[a] = b
    for c, v in asg.items():
        if c.op == "cmp" and c.a[0] in ("==", "is"):
            a, b = c.a[1], c.a[2]
            if a.op == "const":
                a, b = b, a
            if not v and a in eq and eq[a] is b:
                return False
        if c.op == "cmp" and c.a[0] == "in" and c.a[1] in eq and c.a[2].op in ("list", "tuple", "set") and all(
                x.op == "const" for x in c.a[2].a):
            if (eq[c.a[1]] in c.a[2].a) != v:
                return False
    return True


def splits(t, limit=9, base=None):
    """[(assignment, phi-free term)] or None if too many conditions."""
    out = []

    def go(t, asg):
        if len(out) > 600:
            raise TooBig
        c = None
        for x in walk(t):
            if x.op == "phi":
                for y in atoms_of(x.a[0]):
                    if y not in asg and not contains(y, lambda z: z.op == "phi"):
                        c = y
                        break
                if c is not None:
                    break
        if c is None:
            out.append((asg, t))
            return
        for v in (True, False):
            a2 = dict(asg)
            a2[c] = v
            if consistent(a2):
                go(resolve(t, {c: v}), a2)

    try:
        go(resolve(t, base) if base else t, dict(base or {}))
    except TooBig:
        return None
    return out


OPAQUE_OPS = {"unknown", "loopout", "last", "mutated", "freevar", "missing", "starred", "exc"}


def undecidable(t):
    return contains(t, lambda x: x.op in OPAQUE_OPS)


def equal(a, b, canonical=False):
    """True: equal on every path. False: definitely different on some path. None: undecided."""
    if not canonical:
        a, b = canon(a), canon(b)
    if a is b:
        return True
    pair = T("pair", a, b)
    ss = splits(pair)
    if ss is None:
        return None
    res = True
    for asg, p in ss:
        x, y = p.a
        if x is y:
            continue
        r = req(x, y)
        if r is True:
            continue
        if r is None or undecidable(x) or undecidable(y):
            res = None if res is True else res
            continue
        return False
    return res
