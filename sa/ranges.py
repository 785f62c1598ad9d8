"""Interval analysis of elementwise value terms, and a small prover for linear facts between them.

iv(t) -> Iv(lo, hi, exact, vars): every value of t lies in [lo, hi]; exact: both bounds are approached by some choice of
the independent roots vars.  Not-a-number results are outside the analysis.  nonneg(t) proves t >= 0 from the structure
of clips, maxima, draws and their arguments."""

import math
from collections import namedtuple
from fractions import Fraction

from .terms import T, C, isc, occurs

INF = math.inf
Iv = namedtuple("Iv", "lo hi exact vars")
TOP = Iv(-INF, INF, False, frozenset())


def fix(v, default):
    return default if v != v else v


def hull(xs):
    return min(xs), max(xs)


def ends(f, a, b):
    """Range of a function monotone in each argument from the corners."""
    out = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            try:
                v = f(x, y)
            except (OverflowError, ZeroDivisionError, ValueError):
                return None
            if v != v:
                return None
            out.append(v)
    return hull(out)


def mul(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


DRAWS = {"binomial", "poisson", "uniform", "normal", "truncate_normal", "gamma", "skewnormal", "bernoulli", "negative_binomial",
         "generalized_poisson", "twohalfnorm", "binomial_hybrid"}
CONSTS = {"numpy.pi": math.pi, "jax.numpy.pi": math.pi, "numpy.inf": INF, "jax.numpy.inf": INF, "math.inf": INF, "math.pi": math.pi,
          "numpy.e": math.e, "jax.numpy.e": math.e, "jax.numpy.euler_gamma": 0.5772156649}
MONO = {"exp": (lambda x: math.exp(min(x, 700)) if x < 700 else INF, 0.0, INF), "erf": (math.erf, -1.0, 1.0), "tanh": (math.tanh, -1.0, 1.0),
        "round": (lambda x: x if math.isinf(x) else float(round(x)), -INF, INF), "rint": (lambda x: x if math.isinf(x) else float(round(x)), -INF, INF),
        "floor": (lambda x: x if math.isinf(x) else math.floor(x), -INF, INF), "ceil": (lambda x: x if math.isinf(x) else math.ceil(x), -INF, INF),
        "toint": (lambda x: x if math.isinf(x) else math.trunc(x), -INF, INF), "trunc": (lambda x: x if math.isinf(x) else math.trunc(x), -INF, INF),
        "arctan": (math.atan, -math.pi / 2, math.pi / 2), "expm1": (lambda x: math.expm1(x) if x < 700 else INF, -1.0, INF),
        "sigmoid": (lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0, 0.0, 1.0), "cbrt": (lambda x: math.copysign(abs(x) ** (1 / 3), x), -INF, INF)}
SHAPE = {"reshape", "ravel", "squeeze", "broadcast_to", "atleast_1d", "expand_dims", "repeat", "stop_gradient", "nan_to_num", "flip", "sort", "transpose", "array"}


def draw(t):
    """(name, args by position, kwargs) of the draw a term is the result of."""
    if t.op == "item" and isc(t.a[1], 1) and t.a[0].op == "call" and t.a[0].a[0].op == "global":
        d = t.a[0].a[0].a[0]
        if d.startswith("appletree.randgen.") and d.rsplit(".", 1)[1] in DRAWS:
            return d.rsplit(".", 1)[1], t.a[0].a[1], dict(t.a[0].a[2])
    return None


class Ranges:
    def __init__(self, roots, facts=(), ints=()):
        self.roots = roots  # term -> Iv or None
        self.facts = facts  # pairs (a, b) with a >= b given
        self.ints = ints
        self.memo = {}
        self.lins = {}
        self.busy = set()

    def arg(self, d, i, *names):
        n, a, kw = d
        for x in names:
            if x in kw:
                return kw[x]
        return a[i] if len(a) > i else None

    # -- intervals
    def iv(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = TOP
            r = self.memo[t] = self._iv(t)
        return r

    def _iv(self, t):
        r = self.roots(t)
        if r is not None:
            return r
        if t.op == "const":
            v = t.a[0]
            if isinstance(v, (bool, int, float)):
                return Iv(float(v), float(v), True, frozenset())
            return TOP
        if t.op == "global" and t.a[0] in CONSTS:
            v = CONSTS[t.a[0]]
            return Iv(v, v, True, frozenset())
        d = draw(t)
        if d:
            return self.drawn(t, d)
        if t.op == "bin":
            return self.binary(t.a[0], self.iv(t.a[1]), self.iv(t.a[2]), t)
        if t.op == "un" and t.a[0] == "-":
            a = self.iv(t.a[1])
            return Iv(-a.hi, -a.lo, a.exact, a.vars)
        if t.op in ("cmp", "and", "or", "not"):
            v = self.truth(t)
            return Iv(0.0, 1.0, True, frozenset([t])) if v is None else Iv(float(v), float(v), True, frozenset())
        if t.op == "phi":
            a, b = self.iv(t.a[1]), self.iv(t.a[2])
            return Iv(min(a.lo, b.lo), max(a.hi, b.hi), a.exact and b.exact, a.vars | b.vars | {t.a[0]})
        if t.op == "f":
            return self.fun(t, t.a[0], t.a[1])
        return TOP

    def truth(self, t):
        if t.op == "not":
            v = self.truth(t.a[0])
            return None if v is None else not v
        if t.op in ("and", "or"):
            vs = [self.truth(x) for x in t.a]
            if (t.op == "or") in vs:
                return t.op == "or"
            return None if None in vs else t.op == "and"
        if t.op != "cmp":
            i = self.iv(t)
            return bool(i.lo) if i.lo == i.hi else None
        a, b = self.iv(t.a[1]), self.iv(t.a[2])
        o = t.a[0]
        if o in (">", ">="):
            a, b, o = b, a, {">": "<", ">=": "<="}[o]
        if o == "<":
            return True if a.hi < b.lo else False if a.lo >= b.hi else None
        if o == "<=":
            return True if a.hi <= b.lo else False if a.lo > b.hi else None
        if o in ("==", "!="):
            if a.lo == a.hi == b.lo == b.hi:
                return o == "=="
            if a.hi < b.lo or b.hi < a.lo:
                return o == "!="
        return None

    def drawn(self, t, d):
        n = d[0]
        own = frozenset([t])
        if n in ("binomial", "binomial_hybrid"):
            k = self.arg(d, 2, "n")
            if k is None:
                return TOP
            k = self.iv(k)
            return Iv(0.0, max(k.hi, 0.0), k.exact, k.vars | own)
        if n in ("poisson", "gamma", "negative_binomial", "generalized_poisson"):
            return Iv(0.0, INF, True, own)
        if n == "bernoulli":
            return Iv(0.0, 1.0, True, own)
        if n in ("uniform", "truncate_normal"):
            i = 1 if n == "uniform" else 3
            lo, hi = self.arg(d, i, "vmin"), self.arg(d, i + 1, "vmax")
            a = Iv(-INF, INF, True, frozenset()) if lo is None or isc(lo, None) else self.iv(lo)
            b = Iv(-INF, INF, True, frozenset()) if hi is None or isc(hi, None) else self.iv(hi)
            return Iv(a.lo, max(b.hi, a.lo), a.exact and b.exact, a.vars | b.vars | own)
        return Iv(-INF, INF, True, own)

    def binary(self, op, a, b, t):
        ex = a.exact and b.exact and not (a.vars & b.vars)
        vs = a.vars | b.vars
        same = t.a[1] is t.a[2]
        if op == "+":
            return Iv(fix(a.lo + b.lo, -INF), fix(a.hi + b.hi, INF), ex, vs)
        if op == "-":
            return Iv(0.0, 0.0, True, vs) if same else Iv(fix(a.lo - b.hi, -INF), fix(a.hi - b.lo, INF), ex, vs)
        if op == "*":
            if same:
                m = max(mul(a.lo, a.lo), mul(a.hi, a.hi))
                return Iv(0.0 if a.lo <= 0 <= a.hi else min(a.lo ** 2, a.hi ** 2), m, a.exact, vs)
            lo, hi = ends(mul, a, b)
            return Iv(lo, hi, ex, vs)
        if op == "/":
            if b.lo < 0 < b.hi:
                return Iv(-INF, INF, ex and (a.lo, a.hi) != (0.0, 0.0), vs)
            if b.lo == b.hi == 0:
                return Iv(-INF, INF, False, vs)
            inv = Iv(0.0 if b.hi == INF else (-INF if b.hi == 0 else 1 / b.hi), 0.0 if b.lo == -INF else (INF if b.lo == 0 else 1 / b.lo), True, frozenset())
            lo, hi = ends(mul, a, inv)
            if same:
                return Iv(1.0, 1.0, True, vs)
            return Iv(lo, hi, ex, vs)
        if op == "**":
            if b.lo == b.hi:
                k = b.lo
                if k == int(k) and abs(k) < 64:
                    k = int(k)
                    if k == 0:
                        return Iv(1.0, 1.0, True, vs)
                    if k > 0:
                        p = [self.pw(a.lo, k), self.pw(a.hi, k)]
                        if k % 2 == 0 and a.lo < 0 < a.hi:
                            p.append(0.0)
                        return Iv(min(p), max(p), a.exact, vs)
                if a.lo >= 0 and k > 0:
                    return Iv(self.pw(a.lo, k), self.pw(a.hi, k), a.exact, vs)
                if a.lo >= 0:
                    return Iv(0.0 if a.hi == INF else self.pw(a.hi, k), INF if a.lo == 0 else self.pw(a.lo, k), a.exact, vs)
            if a.lo >= 0:
                c = [self.pw(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                c = [x for x in c if x == x]
                if a.lo <= 1 <= a.hi:
                    c.append(1.0)
                if len(c) < 4:
                    return Iv(0.0, INF, False, vs)
                return Iv(max(0.0, min(c)), max(c), ex, vs)
            return Iv(-INF, INF, False, vs)
        if op in ("&", "|") and {a.lo, a.hi, b.lo, b.hi} <= {0.0, 1.0}:
            f = min if op == "&" else max
            return Iv(f(a.lo, b.lo), f(a.hi, b.hi), ex, vs)
        if op in ("&", "|", "^"):
            return Iv(0.0, 1.0, False, vs)
        return Iv(-INF, INF, False, vs)

    @staticmethod
    def pw(x, k):
        try:
            return float(x) ** k
        except ZeroDivisionError:
            return INF
        except OverflowError:
            return INF

    def fun(self, t, n, args):
        xs = [self.iv(a) for a in args if not isinstance(a, tuple)]
        vs = frozenset().union(*[x.vars for x in xs]) if xs else frozenset()
        dis = all(x.exact for x in xs) and sum(len(x.vars) for x in xs) == len(vs)
        if n in MONO and xs:
            f, lo, hi = MONO[n]
            a = xs[0]
            return Iv(lo if a.lo == -INF else f(a.lo), hi if a.hi == INF else f(a.hi), a.exact, a.vars)
        if n in SHAPE and xs:
            return xs[0]
        if n in ("ones", "ones_like"):
            return Iv(1.0, 1.0, True, frozenset())
        if n in ("zeros", "zeros_like"):
            return Iv(0.0, 0.0, True, frozenset())
        if n in ("full", "full_like") and len(xs) > 1:
            return xs[1]
        if n == "log" and xs:
            a = xs[0]
            return Iv(-INF if a.lo <= 0 else math.log(a.lo) if a.lo < INF else INF, INF if a.hi == INF or a.hi <= 0 else math.log(a.hi), a.exact and a.hi > 0, a.vars)
        if n in ("log10", "log2") and xs:
            a, f = xs[0], math.log10 if n == "log10" else math.log2
            return Iv(-INF if a.lo <= 0 else f(a.lo) if a.lo < INF else INF, INF if a.hi == INF or a.hi <= 0 else f(a.hi), a.exact and a.hi > 0, a.vars)
        if n == "log1p" and xs and xs[0].lo >= 0:
            a = xs[0]
            return Iv(math.log1p(a.lo) if a.lo < INF else INF, INF if a.hi == INF else math.log1p(a.hi), a.exact, a.vars)
        if n == "sqrt" and xs:
            a = xs[0]
            return Iv(math.sqrt(max(a.lo, 0.0)), INF if a.hi == INF else math.sqrt(max(a.hi, 0.0)), a.exact and a.hi >= 0, a.vars)
        if n == "abs" and xs:
            a = xs[0]
            return Iv(0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)), max(abs(a.lo), abs(a.hi)), a.exact, a.vars)
        if n == "sign" and xs:
            a = xs[0]
            return Iv(-1.0 if a.lo < 0 else 0.0 if a.lo == 0 else 1.0, 1.0 if a.hi > 0 else 0.0 if a.hi == 0 else -1.0, False, a.vars)
        if n in ("sin", "cos"):
            return Iv(-1.0, 1.0, False, vs)
        if n in ("relu",) and xs:
            a = xs[0]
            return Iv(max(a.lo, 0.0), max(a.hi, 0.0), a.exact, a.vars)
        if n in ("maximum", "max") and len(xs) == 2:
            return Iv(max(xs[0].lo, xs[1].lo), max(xs[0].hi, xs[1].hi), dis, vs)
        if n in ("minimum", "min") and len(xs) == 2:
            return Iv(min(xs[0].lo, xs[1].lo), min(xs[0].hi, xs[1].hi), dis, vs)
        if n == "hypot":
            return Iv(0.0, INF, False, vs)
        if n == "clip" and len(args) == 3:
            x, l, h = (None if isc(a, None) else self.iv(a) for a in args)
            lo, hi = x.lo, x.hi
            if l is not None:
                lo, hi = max(lo, l.lo), max(hi, l.hi)
            if h is not None:
                lo, hi = min(lo, h.lo), min(hi, h.hi)
            part = [y for y in (x, l, h) if y is not None]
            vs = frozenset().union(*[y.vars for y in part])
            return Iv(lo, hi, all(y.exact for y in part) and sum(len(y.vars) for y in part) == len(vs), vs)
        if n == "where" and len(xs) == 3:
            c, a, b = xs
            if c.lo == c.hi:
                return a if c.lo else b
            a, b = self.under(args[0], True, args[1], a), self.under(args[0], False, args[2], b)
            return Iv(min(a.lo, b.lo), max(a.hi, b.hi), a.exact and b.exact, a.vars | b.vars | c.vars)
        return Iv(-INF, INF, False, vs)

    def under(self, c, yes, t, i):
        """Interval of t where the comparison c holds (does not hold)."""
        if c.op == "bin" and c.a[0] == "&" and yes or c.op == "bin" and c.a[0] == "|" and not yes:
            for x in c.a[1:]:
                i = self.under(x, yes, t, i)
            return i
        if c.op != "cmp" or c.a[0] not in ("<", "<=", ">", ">="):
            return i
        lo, hi = (c.a[1], c.a[2]) if (c.a[0] in ("<", "<=")) == yes else (c.a[2], c.a[1])
        a, b = self.iv(lo), self.iv(hi)
        known = {}
        if lo.op != "const" and b.hi < a.hi and a.lo <= b.hi:
            known[lo] = Iv(a.lo, b.hi, a.exact and b.exact, a.vars | b.vars)
        if hi.op != "const" and a.lo > b.lo and b.hi >= a.lo:
            known[hi] = Iv(a.lo, b.hi, a.exact and b.exact, a.vars | b.vars)
        known = {k: v for k, v in known.items() if occurs(t, k)}
        if not known:
            return i
        return Ranges(lambda x: known.get(x) or self.roots(x), self.facts, self.ints).iv(t)

    # -- linear facts
    def lin(self, t):
        """{atom: coefficient}, with None for the constant; clips that do nothing are looked through."""
        r = self.lins.get(t)
        if r is None:
            r = self.lins[t] = self._lin(t)
        return r

    def _lin(self, t):
        if t.op == "const" and isinstance(t.a[0], (bool, int, float)) and math.isfinite(t.a[0]):
            return {None: Fraction(t.a[0])} if t.a[0] else {}
        if t.op == "bin" and t.a[0] in "+-":
            return comb(self.lin(t.a[1]), self.lin(t.a[2]), 1 if t.a[0] == "+" else -1)
        if t.op == "un" and t.a[0] == "-":
            return comb({}, self.lin(t.a[1]), -1)
        if t.op == "bin" and t.a[0] == "*":
            a, b = self.lin(t.a[1]), self.lin(t.a[2])
            for x, y in ((a, b), (b, a)):
                if not set(x) - {None}:
                    return {k: v * x.get(None, 0) for k, v in y.items() if v * x.get(None, 0)}
        if t.op == "f" and t.a[0] in ("round", "toint", "rint", "floor", "trunc", "ceil") and self.integer(t.a[1][0]):
            return self.lin(t.a[1][0])
        if t.op == "f" and t.a[0] in ("reshape", "ravel", "array", "broadcast_to") and not isinstance(t.a[1][0], tuple):
            return self.lin(t.a[1][0])
        if t.op == "f" and t.a[0] == "clip" and len(t.a[1]) == 3 and t not in self.busy:
            self.busy.add(t)
            try:
                x, l, h = t.a[1]
                if (isc(l, None) or self.ge(x, l)) and (isc(h, None) or self.ge(h, x)):
                    return self.lin(x)
            finally:
                self.busy.discard(t)
        if t.op == "f" and t.a[0] in ("maximum", "minimum") and len(t.a[1]) == 2 and t not in self.busy:
            self.busy.add(t)
            try:
                a, b = t.a[1]
                if self.ge(a, b):
                    return self.lin(a if t.a[0] == "maximum" else b)
                if self.ge(b, a):
                    return self.lin(b if t.a[0] == "maximum" else a)
            finally:
                self.busy.discard(t)
        return {t: Fraction(1)}

    def integer(self, t):
        if t in self.ints:
            return True
        if t.op == "const":
            return isinstance(t.a[0], (bool, int)) or isinstance(t.a[0], float) and t.a[0] == int(t.a[0]) if isinstance(t.a[0], (bool, int)) or isinstance(t.a[0], float) and math.isfinite(t.a[0]) else False
        if t.op == "bin" and t.a[0] in "+-*":
            return self.integer(t.a[1]) and self.integer(t.a[2])
        if t.op == "f":
            if t.a[0] in ("round", "toint", "floor", "ceil", "rint", "trunc"):
                return True
            if t.a[0] in ("maximum", "minimum"):
                return all(self.integer(x) for x in t.a[1])
            if t.a[0] == "clip":
                return all(isc(x, None) or self.integer(x) or self.endless(x) for x in t.a[1])
            if t.a[0] == "where":
                return self.integer(t.a[1][1]) and self.integer(t.a[1][2])
        d = draw(t)
        return bool(d and d[0] in ("binomial", "binomial_hybrid", "poisson", "bernoulli", "negative_binomial", "generalized_poisson"))

    def endless(self, x):
        i = self.iv(x)
        return i.lo == i.hi and math.isinf(i.lo)

    def ge(self, a, b):
        """a >= b always?"""
        if a is b or (a, b) in self.facts:
            return True
        x, y = self.iv(a), self.iv(b)
        if x.lo >= y.hi or x.lo == INF or y.hi == -INF:
            return True
        if self.endless(a) or self.endless(b):
            return (self.endless(a) and x.lo > 0) or (self.endless(b) and y.lo < 0)
        return self.pos(comb(self.lin(a), self.lin(b), -1), 6)

    def nonneg(self, t):
        return self.iv(t).lo >= 0 or self.pos(self.lin(t), 6)

    def pos(self, l, depth):
        if self.numeric(l) >= 0:
            return True
        if depth == 0:
            return False
        for a in [k for k in l if k is not None]:
            c = l[a]
            rest = {k: v for k, v in l.items() if k is not a}
            for how, bs in self.bounds(a, c > 0):
                rs = (self.pos(comb(rest, self.lin(b), c), depth - 1) for b in bs)
                if bs and (all(rs) if how == "all" else any(rs)):
                    return True
        return False

    def numeric(self, l):
        s = float(l.get(None, 0))
        for a, c in l.items():
            if a is None:
                continue
            i = self.iv(a)
            v = i.lo if c > 0 else i.hi
            s += v * float(c) if v else 0.0
            if s != s:
                return -INF
        return s

    def bounds(self, a, lower):
        """Alternatives that bound an atom from below (above): ("any"|"all", [terms])."""
        if a.op == "f" and len(a.a[1]):
            n, xs = a.a[0], a.a[1]
            if n == "clip" and len(xs) == 3:
                x, l, h = xs
                if lower and not isc(l, None) and (isc(h, None) or self.iv(h).lo == INF or a in self.busy or self.ge(h, l)):
                    yield "any", [l]
                if not lower and not isc(h, None) and not self.endless(h):
                    yield "any", [h]
                yield "all", [y for y in xs if not isc(y, None) and not self.endless(y)]
            elif n in ("maximum", "minimum") and len(xs) == 2:
                yield ("any" if (n == "maximum") == lower else "all"), list(xs)
            elif n == "where" and len(xs) == 3:
                yield "all", [xs[1], xs[2]]
            elif n in ("round", "toint", "rint", "floor", "ceil", "trunc"):
                x = xs[0]
                if x.op == "f" and x.a[0] in ("clip", "maximum", "minimum", "where") or draw(x):
                    for how, bs in self.bounds(x, lower):
                        if all(self.integer(b) for b in bs):
                            yield how, bs
        elif a.op == "phi":
            yield "all", [a.a[1], a.a[2]]
        else:
            d = draw(a)
            if d and d[0] in ("binomial", "binomial_hybrid"):
                n = self.arg(d, 2, "n")
                if lower:
                    yield "any", [C(0)]
                elif n is not None and self.nonneg(n):
                    yield "any", [n]
            if d and d[0] in ("truncate_normal", "uniform"):
                i = (1 if d[0] == "uniform" else 3) + (not lower)
                b = self.arg(d, i, "vmin" if lower else "vmax")
                if b is not None and not isc(b, None) and not self.endless(b):
                    yield "any", [b]

    def zero(self, l):
        """True: identically zero; False: not; None: unknown."""
        if not l:
            return True
        if self.pos(l, 6) and self.pos({k: -v for k, v in l.items()}, 6):
            return True
        vs, ex = [], True
        lo = hi = float(l.get(None, 0))
        for a, c in l.items():
            if a is None:
                continue
            i = self.iv(a)
            ex &= i.exact
            vs += list(i.vars)
            p, q = (i.lo * float(c), i.hi * float(c)) if c > 0 else (i.hi * float(c), i.lo * float(c))
            lo, hi = lo + p, hi + q
        if ex and len(vs) == len(set(vs)) and lo < hi:
            return False
        return None


def comb(a, b, k):
    out = dict(a)
    for x, v in b.items():
        out[x] = out.get(x, 0) + k * v
        if not out[x]:
            del out[x]
    return out


class Point(Ranges):
    """Ranges over one point of the box of roots and draws: a box shrunk to a point, to show that a bound is exceeded."""

    def __init__(self, roots, rng, facts=(), ints=()):
        super().__init__(None, facts, ints)
        self.base, self.rng, self.chosen = roots, rng, {}
        self.roots = self.root

    def pick(self, t, i, ints=False):
        lo, hi = max(i.lo, -1e3), min(i.hi, 1e3)
        if lo > hi:
            lo = hi = i.lo if math.isfinite(i.lo) else i.hi
        v = self.rng.choice((lo, hi, (lo + hi) / 2, self.rng.uniform(lo, hi)))
        if ints:
            v = float(math.floor(v)) if math.floor(v) >= lo else float(math.ceil(v))
        self.chosen[t] = v
        return Iv(v, v, True, frozenset())

    def root(self, t):
        i = self.base(t)
        return None if i is None or not i.exact else self.pick(t, i, t in self.ints)

    def drawn(self, t, d):
        i = Ranges.drawn(self, t, d)
        return self.pick(t, i, self.integer(t)) if i.exact else i


def witness(R, t, lo, hi, n=300, rng=None):
    """A point of the roots at which t is below lo or above hi: {root: value}, or None."""
    for _ in range(n):
        p = Point(R.roots, rng, R.facts, R.ints)
        try:
            i = p.iv(t)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        if math.isfinite(i.lo) and i.hi - i.lo <= 1e-6 * max(1.0, abs(i.lo)) and (i.hi < lo - 1e-4 or hi is not None and i.lo > hi + 1e-4):
            return p.chosen, i.lo
    return None
