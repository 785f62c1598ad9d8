"""Component-wise evaluation of array code for one generic query point.

Batched positions (N, D) become a vector of D symbolic coordinates, the grid description becomes per-axis symbols, and
gathers from the map become node(i_0, ..., i_{D-1}).  Operations outside the vocabulary raise Undecided.
"""

from .algebra import canon, fname
from .terms import T, C, Term, isc, walk, contains, binop


class Undecided(Exception):
    pass


class V:
    def __init__(self, c):
        self.c = list(c)


ELEM = {"floor", "clip", "sqrt", "abs", "round", "rint", "ceil", "toint", "minimum", "maximum", "where", "power", "square",
        "exp", "log", "log10", "array", "sign", "nan_to_num", "isnan", "logical_and", "logical_or", "trunc", "fix", "exp2", "hypot"}
FULL = ("slice",)


def full(x):
    return x.op == "slice" and all(isc(y, None) for y in x.a)


def new(x):
    return isc(x, None) or x.op == "global" and x.a[0].endswith("newaxis")


def dots(x):
    return isc(x, Ellipsis) or x.op == "const" and x.a[0] is Ellipsis


class Axes:
    def __init__(self, D, syms, val, dim1=False):
        """syms: {param term: list of D terms or a scalar term}; val: term of the map values; shape symbols N_k."""
        self.D, self.syms, self.val = D, syms, val
        self.N = [T("param", f"$N{k}") for k in range(D)]
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def sc(self, t):
        v = self(t)
        if isinstance(v, V):
            if len(v.c) == 1:
                return v.c[0]
            raise Undecided("vector where a scalar is expected")
        return v

    def zip(self, f, *ts):
        vs = [self(t) for t in ts]
        n = {len(v.c) for v in vs if isinstance(v, V)}
        n -= {1} if len(n) > 1 else set()
        if not n:
            return f(*vs)
        if len(n) > 1:
            raise Undecided("shapes")
        n = n.pop()
        return V([f(*[(v.c[i] if len(v.c) > 1 else v.c[0]) if isinstance(v, V) else v for v in vs]) for i in range(n)])

    def ev(self, t):
        if t in self.syms:
            s = self.syms[t]
            return V(s) if isinstance(s, list) else s
        if t is self.val:
            return t
        o = t.op
        if o in ("const", "global"):
            return t
        if o == "bin":
            return self.zip(lambda a, b: canon(binop(t.a[0], a, b)), t.a[1], t.a[2])
        if o == "un":
            return self.zip(lambda a: canon(T("un", t.a[0], a)), t.a[1])
        if o == "cmp":
            return self.zip(lambda a, b: T("cmp", t.a[0], a, b), t.a[1], t.a[2])
        if o in ("and", "or"):
            return self.zip(lambda *a: T(o, *a), *t.a)
        if o == "phi":
            return self.zip(lambda c, a, b: T("phi", c, a, b), *t.a)
        if o == "not":
            return self.zip(lambda a: T("not", a), t.a[0])
        if o in ("tuple", "list"):
            return V([self.sc(x) for x in t.a])
        if o == "attr":
            if t.a[1] == "shape" and t.a[0] is self.val:
                return V(self.N)
            if t.a[1] == "size" and t.a[0] is self.val and self.D == 1:
                return self.N[0]
            if t.a[1] in ("T", "mT"):
                return self(t.a[0])
        if o == "item":
            return self.gather(t.a[0], t.a[1])
        if o == "slice_of":
            b = self(t.a[0])
            if full(t.a[1]) or isinstance(b, Term):
                return b
            if all(x.op == "const" for x in t.a[1].a):
                return V(b.c[slice(*[x.a[0] for x in t.a[1].a])])
        if o == "scatter":
            op, base, ix, val = t.a
            b, k = self(base), self.axis(ix)
            if isinstance(b, V) and k is not None and op in ("add", "set", "subtract", "multiply"):
                v = self.sc(val)
                c = list(b.c)
                c[k] = v if op == "set" else canon(binop({"add": "+", "subtract": "-", "multiply": "*"}[op], c[k], v))
                return V(c)
            ks = self.axes_of(ix, len(b.c)) if isinstance(b, V) else None
            if ks is not None and op in ("add", "set", "subtract", "multiply"):
                v = self(val)
                vs = v.c if isinstance(v, V) else [v] * len(ks)
                if len(vs) == 1:
                    vs = vs * len(ks)
                if len(vs) != len(ks):
                    raise Undecided("shapes")
                c = list(b.c)
                for k, x in zip(ks, vs):
                    c[k] = x if op == "set" else canon(binop({"add": "+", "subtract": "-", "multiply": "*"}[op], c[k], x))
                return V(c)
        if o == "call":
            return self.call(t)
        if o == "f":
            return self.func(t.a[0], t.a[1], dict(t.a[2]))
        if o == "closure":
            raise Undecided("closure")
        raise Undecided(o)

    def axis(self, ix):
        if ix.op == "const" and isinstance(ix.a[0], int):
            return ix.a[0]
        if ix.op == "tuple":
            r = [x for x in ix.a if not full(x) and not dots(x) and not new(x)]
            if len(r) == 1 and r[0].op == "const" and isinstance(r[0].a[0], int) and not new(ix.a[-1]):
                return r[0].a[0]
        return None

    def axes_of(self, ix, n):
        """Known list of axes (numbers or a mask) selected from the last dimension, or None."""
        if ix.op == "tuple":
            r = [x for x in ix.a if not full(x) and not dots(x) and not new(x)]
            if len(r) != 1 or new(ix.a[-1]) or ix.a[-1] is not r[0]:
                return None
            ix = r[0]
        while ix.op in ("call", "f") and ix.a[1] and (ix.op == "f" and ix.a[0] == "array"):
            ix = ix.a[1][0]
        try:
            v = self(ix)
        except Undecided:
            return None
        if not isinstance(v, V) or not all(x.op == "const" for x in v.c):
            return None
        xs = [x.a[0] for x in v.c]
        if all(isinstance(x, bool) for x in xs):
            return [i for i, x in enumerate(xs) if x] if len(xs) == n else None
        if all(isinstance(x, int) and -n <= x < n for x in xs):
            return [x % n for x in xs]
        return None

    def gather(self, b, ix):
        if b is self.val or self.is_val(b):
            ii = list(ix.a) if ix.op == "tuple" else [ix]
            out = []
            for x in ii:
                v = self(x.a[0] if x.op == "star" else x)
                out += v.c if isinstance(v, V) else [v]
            if len(out) != self.D:
                raise Undecided("gather of another rank")
            return T("node", *out)
        v = self(b)
        if isinstance(v, Term):
            if ix.op == "tuple" and all(full(x) or dots(x) or new(x) for x in ix.a) or full(ix) or new(ix):
                return v
            if v.op == "grid" or v.op == "f" and v.a[0] == "grid":
                return T("gridpos", v, self.sc(ix))
            raise Undecided("subscript of a scalar")
        if ix.op == "tuple" and all(full(x) or dots(x) or new(x) for x in ix.a) or full(ix) or new(ix):
            return v
        k = self.axis(ix)
        if k is None or not -len(v.c) <= k < len(v.c):
            ks = self.axes_of(ix, len(v.c))
            if ks is not None:
                return V([v.c[i] for i in ks])
            raise Undecided("subscript")
        return v.c[k]

    def is_val(self, b):
        try:
            return b.op == "f" and b.a[0] == "array" and b.a[1][0] is self.val
        except Exception:
            return False

    def call(self, t):
        fn, args, kw = t.a
        h = fn.a[0] if fn.op == "global" else "." + fn.a[1] if fn.op == "attr" else fn.op
        if h == "builtins.len" and len(args) == 1:
            if args[0] is self.val:
                return self.N[0]
            v = self(args[0])
            if isinstance(v, Term) and v.op == "grid":
                return v.a[2]
            if isinstance(v, V):
                return C(len(v.c))
        if h.endswith("linalg.norm") and dict(kw).get("axis") is not None and isc(dict(kw)["axis"], -1, 1) and len(args) == 1:
            v = self(args[0])
            if isinstance(v, V):
                s = C(0)
                for x in v.c:
                    s = binop("+", s, binop("*", x, x))
                return canon(T("f", "sqrt", (s,), ()))
        if h in ("builtins.tuple", "builtins.list") and len(args) == 1:
            return self(args[0])
        raise Undecided(h)

    def func(self, n, args, kw):
        if n in ELEM:
            k = tuple((a, self.sc(v) if isinstance(v, Term) else v) for a, v in sorted(kw.items()) if a not in ("dtype", "decimals"))
            return self.zip(lambda *a: canon(T("f", n, tuple(a), k)), *args)
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if n in ("sum", "prod", "mean", "max", "min") and ax is not None and isc(ax, -1, 1):
            v = self(args[0])
            if not isinstance(v, V):
                raise Undecided("reduction")
            acc = None
            for x in v.c:
                acc = x if acc is None else canon(binop("*" if n == "prod" else "+", acc, x)) if n in ("sum", "prod", "mean") \
                    else T("f", n + "imum" if False else {"max": "maximum", "min": "minimum"}[n], (acc, x), ())
            return canon(binop("/", acc, C(len(v.c)))) if n == "mean" else acc
        if n == "shape" and args[0] is self.val:
            return V(self.N)
        if n == "size" and args[0] is self.val and self.D == 1:
            return self.N[0]
        if n in ("expand_dims", "transpose", "ravel", "squeeze", "reshape", "atleast_1d", "broadcast_to", "moveaxis", "swapaxes"):
            return self(args[0])
        if n in ("stack", "column_stack", "vstack", "array"):
            return self(args[0])
        if n == "linspace" and len(args) >= 3 and not (set(kw) - {"dtype"}):
            return T("grid", self.sc(args[0]), self.sc(args[1]), self.sc(args[2]))
        if n == "linspace" and len(args) == 2 and "num" in kw:
            return T("grid", self.sc(args[0]), self.sc(args[1]), self.sc(kw["num"]))
        if n in ("argmin", "argmax"):
            return T("f", n, (self.sc(args[0]),), ())
        if n == "searchsorted" and len(args) >= 2:
            side = kw.get("side", args[2] if len(args) > 2 else C("left"))
            return T("f", "searchsorted", (self.sc(args[0]), self.sc(args[1]), side), ())
        if n == "take" and args[0] is self.val and self.D == 1 and len(args) == 2 and not (set(kw) - {"axis"}):
            return T("node", self.sc(args[1]))
        if n == "interp":
            return T("f", "interp", tuple(self.sc(a) if a is not self.val else a for a in args), tuple(sorted(kw.items())))
        raise Undecided(n)
