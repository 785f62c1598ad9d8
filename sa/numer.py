"""Value of a closed formula at a point.

Formulas are the terms the evaluator extracts from the source; random draws in them are uninterpreted functions of
(kind, which draw, parameters), so that two formulas agree at all points only if they feed the same numbers to the
same kinds of draws.  An identity between formulas is tested at many points (identity testing): one point where they
differ refutes it.
"""

import itertools
import math
import random

from .algebra import canon
from .terms import C, NONE, T, Term, contains, rewrite, walk
from .help import head, isc

REAL = {"normal", "uniform", "gamma", "exponential", "truncated_normal", "beta", "laplace", "cauchy", "logistic", "t", "gumbel", "chisquare", "loggamma", "lognormal", "rayleigh", "weibull_min", "standard_normal",
        "maxwell", "pareto", "standard_gamma", "random", "random_sample", "rand", "randn"}
WHOLE = {"poisson", "bernoulli", "binomial", "geometric", "randint", "rademacher"}


class Unknown(Exception):
    pass


def plain(t):
    """Without broadcasting, casts to floats, and changes of shape."""
    t = canon(t)

    def f(x):
        if x.op == "f" and x.a[0] in ("broadcast_to", "reshape", "ravel", "squeeze", "expand_dims", "array", "stop_gradient", "nan_to_num_") and x.a[1]:
            return x.a[1][0]
        if x.op == "item" and x.a[1].op in ("tuple", "slice"):
            ks = x.a[1].a if x.a[1].op == "tuple" else (x.a[1],)
            if all(k is NONE or k.op == "slice" and all(y is NONE for y in k.a) or isc(k, Ellipsis) for k in ks):
                return x.a[0]
        if x.op == "slice_of" and all(y is NONE for y in x.a[1].a):
            return x.a[0]
        if x.op == "f" and x.a[0] in ("ones", "ones_like", "zeros", "zeros_like", "full", "full_like"):
            return C(1.0 if x.a[0].startswith("ones") else 0.0) if not x.a[0].startswith("full") else x.a[1][1] if len(x.a[1]) > 1 else x
        return x
    return rewrite(t, f)


def draw_of(x):
    """(kind, which, {name: term}) of a call of a library sampler."""
    if x.op != "call" or x.a[0].op != "global":
        return None
    d = x.a[0].a[0]
    n = d.split(".")[-1]
    if d.startswith("jax.random.") and n in REAL | WHOLE:
        pos = {"uniform": ("shape", "dtype", "minval", "maxval"), "normal": ("shape", "dtype"), "gamma": ("a", "shape", "dtype"), "poisson": ("lam", "shape", "dtype"),
               "bernoulli": ("p", "shape"), "binomial": ("n", "p", "shape", "dtype"), "truncated_normal": ("lower", "upper", "shape", "dtype"), "exponential": ("shape", "dtype"),
               "beta": ("a", "b", "shape", "dtype"), "loggamma": ("a", "shape", "dtype"), "randint": ("shape", "minval", "maxval", "dtype"), "geometric": ("p", "shape", "dtype"), "chisquare": ("df", "shape", "dtype"),
               "t": ("df", "shape", "dtype")}.get(n, ("shape", "dtype"))
        kw = dict(zip(pos, x.a[1][1:]))
        ks = dict(x.a[2])
        which = x.a[1][0] if x.a[1] else ks.pop("key", NONE)
        kw.update(ks)
        return n, which, kw
    if d.startswith("numpy.random.") and n in REAL | WHOLE:
        pos = {"uniform": ("minval", "maxval", "shape"), "normal": ("loc", "scale", "shape"), "poisson": ("lam", "shape"), "binomial": ("n", "p", "shape"), "gamma": ("a", "scale", "shape"),
               "exponential": ("scale", "shape")}.get(n, ("shape",))
        kw = dict(zip(pos, x.a[1]))
        kw.update(dict(x.a[2]))
        for a, b in (("low", "minval"), ("high", "maxval"), ("size", "shape")):
            if a in kw:
                kw[b] = kw.pop(a)
        which = kw.pop("_n", NONE)
        n = {"standard_normal": "normal", "randn": "normal", "random": "uniform", "random_sample": "uniform", "rand": "uniform"}.get(n, n)
        return n, T("tuple", C("np"), C(n), which), kw
    return None


def draws(t):
    """The draws in a formula: {(kind, which)} in order of appearance."""
    out = []
    for x in walk(t):
        d = draw_of(x)
        if d and (d[0], d[1]) not in out:
            out.append((d[0], d[1]))
    return out


def _close(a, b):
    return a == b or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


class Point:
    """Values of symbols and of draws."""

    def __init__(self, env, u=None, sign=None):
        self.env, self.u, self.sign, self.memo = env, u or {}, sign or {}, {}

    def val(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        v = self._val(t)
        if isinstance(v, complex):
            raise Unknown("complex value")
        self.memo[t] = v
        return v

    def base(self, kind, which):
        k = (kind, which)
        if k not in self.u:
            raise Unknown(f"draw {kind}")
        return self.u[k]

    def draw(self, d):
        kind, which, kw = d
        u = self.base(kind, which)
        par = {k: self.val(v) for k, v in kw.items() if k not in ("shape", "dtype", "size", "_n") and v is not NONE}
        if kind == "uniform":
            a, b = par.get("minval", 0.0), par.get("maxval", 1.0)
            return a + (b - a) * u
        if kind == "normal":
            z = math.tan((u - 0.5) * 2.2)
            return par.get("loc", 0.0) + par.get("scale", 1.0) * z
        if kind == "bernoulli":
            return float(u < par.get("p", 0.5))
        if kind == "binomial":
            n, p = par["n"], par["p"]
            # an arbitrary number between 0 and n that depends on n and p
            f = math.sin(12.9898 * u + 78.233 * p) * 0.5 + 0.5
            return float(round(f * n))
        if kind == "poisson":
            return float(round(abs(math.sin(7.7 * u)) * 5000 * par["lam"]) if par["lam"] < 1e12 else par["lam"])
        s = u
        for k in sorted(par):
            s = s * 0.7 + (1 + len(k)) * par[k]
        if kind == "gamma" and "scale" in par:
            raise Unknown("gamma with scale")
        return abs(s) + 0.1 * len(kind)

    def _val(self, t):
        op = t.op
        if op == "const":
            v = t.a[0]
            if isinstance(v, bool):
                return float(v)
            if isinstance(v, (int, float)):
                return float(v)
            raise Unknown(str(v))
        if op == "global":
            n = t.a[0].split(".")[-1]
            if t.a[0].startswith(("numpy.", "jax.numpy.", "math.", "builtins.")) and n in ("pi", "inf", "e", "nan", "Inf", "PINF"):
                return float(getattr(math, n.lower().replace("pinf", "inf")))
            raise Unknown(t.a[0])
        if op == "bin":
            o = t.a[0]
            a, b = self.val(t.a[1]), self.val(t.a[2])
            try:
                if o == "+":
                    return a + b
                if o == "-":
                    return a - b
                if o == "*":
                    return a * b
                if o == "/":
                    return a / b
                if o == "**":
                    return float(a ** b)
                if o == "//":
                    return float(a // b)
                if o == "%":
                    return float(a % b)
                if o == "&":
                    return float(bool(a) and bool(b))
                if o == "|":
                    return float(bool(a) or bool(b))
            except ZeroDivisionError:
                return math.inf if a > 0 else -math.inf if a < 0 else math.nan
            except OverflowError:
                return math.inf
            raise Unknown(o)
        if op == "un":
            a = self.val(t.a[1])
            if t.a[0] == "~":
                return float(not a)
            return -a if t.a[0] == "-" else a
        if op == "not":
            return float(not self.val(t.a[0]))
        if op in ("and", "or"):
            v = [self.val(x) for x in t.a]
            return float(all(v) if op == "and" else any(v))
        if op == "cmp" and NONE in t.a[1:] and t.a[0] in ("is", "is not", "==", "!="):
            o = t.a[1] if t.a[2] is NONE else t.a[2]
            same = o is NONE
            if not same:
                self.val(o)
            return float(same == (t.a[0] in ("is", "==")))
        if op == "cmp":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            r = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b, "is": a == b, "is not": a != b}.get(t.a[0])
            if r is None:
                raise Unknown(t.a[0])
            return float(r)
        if op == "phi":
            return self.val(t.a[1] if self.val(t.a[0]) else t.a[2])
        d = draw_of(t) if op == "call" else None
        if d:
            return self.draw(d)
        if op == "f":
            return self.fn(t)
        if op == "call":
            return self.fn(T("f", head(t.a[0]).split(".")[-1], t.a[1], t.a[2])) if head(t.a[0]).startswith(("jax.scipy.special", "scipy.special", "jax.numpy", "numpy.", "jax.lax", "jax.nn", "math.")) else self.other(t)
        return self.other(t)

    def other(self, t):
        raise Unknown(f"{t.op} {head(t.a[0]) if t.op == 'call' else ''}")

    def fn(self, t):
        n, args, kw = t.a
        if n == "select" and len(args) == 2:
            args = args + (dict(kw).get("default", C(0.0)),)
        if n in ("where", "select") and len(args) == 3:
            if args[0].op in ("list", "tuple"):
                if args[1].op not in ("list", "tuple") or len(args[1].a) != len(args[0].a):
                    raise Unknown("select")
                for c, v in zip(args[0].a, args[1].a):
                    if self.val(c):
                        return self.val(v)
                return self.val(args[2])
            return self.val(args[1] if self.val(args[0]) else args[2])
        if n in ("chi2.cdf",):
            raise Unknown(n)
        a = [self.val(x) if x is not NONE else None for x in args]
        try:
            if n == "clip":
                lo, hi = (a + [None, None])[1:3]
                v = a[0]
                v = v if lo is None else max(lo, v)
                return v if hi is None else min(hi, v)
            if n in ("exp", "log", "log10", "log2", "log1p", "expm1", "sqrt", "cos", "sin", "tan", "tanh", "erf", "erfc", "floor", "ceil", "arctan", "arctan2", "atan2", "hypot", "cbrt", "sinh", "cosh"):
                m = {"arctan": "atan", "arctan2": "atan2"}.get(n, n)
                if n in ("log", "log10", "log2") and a[0] <= 0:
                    return -math.inf if a[0] == 0 else math.nan
                if n == "sqrt" and a[0] < 0:
                    return math.nan
                return float(getattr(math, m)(*a))
            if n in ("abs", "fabs"):
                return abs(a[0])
            if n in ("minimum", "min", "fmin") and len(a) > 1:
                return min(a)
            if n in ("maximum", "max", "fmax") and len(a) > 1:
                return max(a)
            if n == "power":
                return float(a[0] ** a[1])
            if n in ("round", "rint", "around"):
                return float(round(a[0])) if len(a) == 1 or a[1] == 0 else round(a[0], int(a[1]))
            if n in ("toint", "trunc", "fix"):
                return float(math.trunc(a[0]))
            if n == "sign":
                return math.copysign(1.0, a[0]) if a[0] else 0.0
            if n in ("logical_and", "and_", "bitwise_and"):
                return float(all(a))
            if n in ("logical_or", "or_", "bitwise_or"):
                return float(any(a))
            if n in ("not_", "logical_not", "invert", "bitwise_not"):
                return float(not a[0])
            if n in ("sigmoid", "expit"):
                return 1 / (1 + math.exp(-a[0]))
            if n == "deg2rad" or n == "radians":
                return math.radians(a[0])
            if n in ("add", "subtract", "multiply", "divide"):
                return self.val(T("bin", {"add": "+", "subtract": "-", "multiply": "*", "divide": "/"}[n], args[0], args[1]))
            if n in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal"):
                return self.val(T("cmp", {"greater": ">", "less": "<", "greater_equal": ">=", "less_equal": "<=", "equal": "==", "not_equal": "!="}[n], args[0], args[1]))
            if n == "isnan":
                return float(math.isnan(a[0]))
            if n == "square":
                return a[0] ** 2
        except OverflowError:
            return math.inf
        except (ValueError, TypeError, ZeroDivisionError, KeyError, IndexError):
            return math.nan
        raise Unknown(n)


def agree(got, want, ranges, n=40, extra=(), seed=7, order=True, point=Point):
    """(verdict, detail): do two formulas agree at n points?  ranges: {term: (lo, hi[, integer])} or {term: function(env)}.

    The draws of one are matched with those of the other, kind by kind, in every possible way; signs of centred
    normal draws may be reversed."""
    got, want = plain(got), plain(want)
    if got is want:
        return True, "identical"
    dg, dw = draws(got), draws(want)
    if sorted(k for k, _ in dg) != sorted(k for k, _ in dw):
        if any(k in ("exponential", "loggamma", "beta", "chisquare", "lognormal", "standard_gamma", "geometric", "maxwell") for k, _ in dg) or len(dg) > 4:
            return None, f"built from other draws: {', '.join(k for k, _ in dg)}"
        if {k for k, _ in dg} & {"uniform"} and {k for k, _ in dw} & {"bernoulli"}:
            return None, "built from uniform draws"
        try:
            r = random.Random(seed)
            env = {}
            for s, rg in ranges.items():
                env[s] = rg(env, r) if callable(rg) else r.uniform(*rg[:2]) if len(rg) < 3 else float(r.randint(int(rg[0]), int(rg[1])))
            point(env, {k: r.random() for k in dg}).val(got)
        except Unknown as e:
            return None, f"not evaluated: {e}"
        return False, f"built from draws of {', '.join(k for k, _ in dg) or 'nothing'}, not {', '.join(k for k, _ in dw) or 'nothing'}"
    kinds = sorted({k for k, _ in dw})
    ways = []
    for ps in itertools.product(*[list(itertools.permutations([w for k2, w in dg if k2 == k])) for k in kinds]):
        ways.append({(k, w): (k, ref) for k, p in zip(kinds, ps) for w, ref in zip(p, [w for k2, w in dw if k2 == k])})
    norm = [x for x in dw if x[0] == "normal"]
    best = None
    for way in ways[:24]:
        for flips in itertools.product((False, True), repeat=len(norm)):
            fl = {x for x, f in zip(norm, flips) if f}
            r = random.Random(seed)
            bad = None
            for i in range(n):
                env = {}
                for s, rg in ranges.items():
                    v = rg(env, r) if callable(rg) else r.uniform(*rg[:2]) if len(rg) < 3 else float(r.randint(int(rg[0]), int(rg[1])))
                    env[s] = v
                uw = {k: r.random() for k in dw}
                ug = {k: (1 - uw[way[k]] if way[k] in fl else uw[way[k]]) for k in dg}
                try:
                    b = point(env, uw).val(want)
                    a = point(env, ug).val(got)
                except Unknown as e:
                    return None, f"not evaluated: {e}"
                if math.isnan(b):
                    continue
                if math.isnan(a) or not _close(a, b):
                    from .terms import show
                    bad = f"{a:.6g} instead of {b:.6g} at " + ", ".join(f"{show(k)[:40]}={v:.4g}" for k, v in list(env.items())[:6])
                    break
            if bad is None:
                return True, f"agrees at {n} points"
            best = best or bad
    return False, best


class Free(Point):
    """Whatever is no arithmetic is a symbol of its own."""

    def __init__(self, pick):
        super().__init__({})
        self.pick = pick

    def _val(self, t):
        if t.op in ("bin", "un", "not", "and", "or", "cmp", "phi", "f", "const"):
            return super()._val(t)
        if t.op == "global" and t.a[0].startswith(("numpy.", "jax.numpy.", "math.", "builtins.")):
            return super()._val(t)
        if t.op == "call" and head(t.a[0]).startswith(("jax.scipy.special", "scipy.special", "jax.numpy", "numpy.", "jax.lax", "math.")):
            return super()._val(t)
        if t.op in ("list", "tuple", "dict", "lambda", "comp", "unknown", "loopout", "slice"):
            raise Unknown(t.op)
        return self.pick()


def alike(a, b, n=240):
    """Do two formulas agree at n points, symbols being whatever is no arithmetic?  Ties between symbols occur."""
    r = random.Random(11)
    valid = 0
    for i in range(n):
        def pick():
            return float(r.choice((-2, -1, 0, 1, 2, 0.5))) if i % 3 == 0 else r.uniform(0.05, 3) if i % 3 == 1 else r.uniform(-4, 4)
        p = Free(pick)
        try:
            x, y = p.val(a), p.val(b)
        except (Unknown, RecursionError, TypeError):
            return False
        if math.isnan(x) != math.isnan(y):
            return False
        if math.isnan(x):
            continue
        valid += 1
        if not _close(x, y):
            return False
    return valid >= n // 4
