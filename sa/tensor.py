"""Values of formulas over arrays.

The terms extracted from the source are evaluated on small arrays by the array algebra below (shapes, broadcasting,
gathers, reductions), so that two formulas can be compared, or a law tested, whatever way they are written.
What is not modelled raises Unknown: the obligation is then undecided.
"""

import ast
import itertools
import math

from .help import canon, head, isc, item, raise_guard, raises, rets
from .numer import Unknown
from .terms import C, NONE, T, Term


class Arr:
    __slots__ = ("shape", "d")

    def __init__(self, shape, d):
        self.shape, self.d = tuple(shape), list(d)

    def __repr__(self):
        return f"Arr{self.shape}{[round(x, 4) if isinstance(x, float) else x for x in self.d[:12]]}"


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool, int, float)):
        return Arr((), [x])
    if isinstance(x, (list, tuple)):
        xs = [arr(y) for y in x]
        if not xs:
            return Arr((0,), [])
        if len({y.shape for y in xs}) != 1:
            raise Unknown("ragged")
        return Arr((len(xs),) + xs[0].shape, [v for y in xs for v in y.d])
    raise Unknown(f"no array: {type(x).__name__}")


def out(a):
    """Scalars as numbers."""
    return a.d[0] if a.shape == () else a


def strides(shape):
    st, s = [], 1
    for k in reversed(shape):
        st.append(s)
        s *= k
    return st[::-1]


def broadcast(shapes):
    n = max((len(s) for s in shapes), default=0)
    res = []
    for i in range(n):
        ks = {s[i - n + len(s)] for s in shapes if i - n + len(s) >= 0} - {1}
        if len(ks) > 1:
            raise Unknown("shapes do not match")
        res.append(ks.pop() if ks else 1)
    return tuple(res)


def spread(a, shape):
    if a.shape == tuple(shape):
        return a
    if len(a.shape) > len(shape) or broadcast([a.shape, shape]) != tuple(shape):
        raise Unknown("cannot broadcast")
    off = len(shape) - len(a.shape)
    st = strides(a.shape)
    mult = [0] * off + [0 if a.shape[i] == 1 else st[i] for i in range(len(a.shape))]
    idx = [0]
    for k, m in zip(shape, mult):
        idx = [i + j * m for i in idx for j in range(k)]
    return Arr(shape, [a.d[i] for i in idx])


def each(f, *xs):
    if not any(isinstance(x, (Arr, list, tuple)) for x in xs):
        return f(*xs)
    xs = [arr(x) for x in xs]
    sh = broadcast([x.shape for x in xs])
    xs = [spread(x, sh).d for x in xs]
    return out(Arr(sh, [f(*v) for v in zip(*xs)]))


def sub(a, i):
    """a[i] along the first axis."""
    n = size(a.shape[1:])
    return out(Arr(a.shape[1:], a.d[i * n:(i + 1) * n]))


def perm(a, order):
    st = strides(a.shape)
    sh = [a.shape[k] for k in order]
    idx = [0]
    for k in order:
        idx = [i + j * st[k] for i in idx for j in range(a.shape[k])]
    return Arr(sh, [a.d[i] for i in idx])


def along(a, axis, f):
    """Apply f to the vectors along an axis; f gives a number or a list."""
    a = arr(a)
    if axis is None:
        v = f(a.d)
        return Arr((len(v),), v) if isinstance(v, list) else v
    if isinstance(axis, (list, tuple)):
        axis = sorted(k % len(a.shape) for k in axis)
        rest = [k for k in range(len(a.shape)) if k not in axis]
        b = perm(a, rest + list(axis))
        n = size([a.shape[k] for k in axis])
        return out(Arr([a.shape[k] for k in rest], [f(b.d[i:i + n]) for i in range(0, len(b.d), n)])) if n else _no()
    k = int(axis)
    if not -len(a.shape) <= k < len(a.shape):
        raise Unknown("axis")
    k %= len(a.shape)
    rest = [j for j in range(len(a.shape)) if j != k]
    b = perm(a, rest + [k])
    n = a.shape[k]
    if not n:
        _no()
    vs = [f(b.d[i:i + n]) for i in range(0, len(b.d), n)]
    if vs and isinstance(vs[0], list):
        m = len(vs[0])
        c = Arr([a.shape[j] for j in rest] + [m], [x for v in vs for x in v])
        o = list(range(len(rest)))
        o.insert(k, len(rest))
        return perm(c, o)
    return out(Arr([a.shape[j] for j in rest], vs))


def _no():
    raise Unknown("empty")


def div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    try:
        return a / b
    except OverflowError:
        return math.inf


def power(a, b):
    try:
        v = a ** b
        return math.nan if isinstance(v, complex) else v
    except ZeroDivisionError:
        return math.inf
    except OverflowError:
        return math.inf


def floordiv(a, b):
    if b == 0:
        return math.nan
    return a // b


BIN = {"+": lambda a, b: a + b if not (isinstance(a, bool) and isinstance(b, bool)) else a or b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": div, "**": power, "//": floordiv, "%": lambda a, b: math.nan if b == 0 else a % b,
       "&": lambda a, b: (a and b) if isinstance(a, bool) else a & b, "|": lambda a, b: (a or b) if isinstance(a, bool) else a | b, "^": lambda a, b: a ^ b}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, ZeroDivisionError):
            return math.nan
        except OverflowError:
            return math.inf
    return g


def log_(f):
    return lambda a: f(a) if a > 0 else -math.inf if a == 0 else math.nan


def whole(f):
    return lambda a: a if not math.isfinite(a) else float(f(a))


ONE = {"exp": math.exp, "expm1": math.expm1, "log": log_(math.log), "log10": log_(math.log10), "log2": log_(math.log2), "log1p": lambda a: log_(math.log)(1 + a) if abs(a) > 1e-5 else math.log1p(a),
       "sqrt": lambda a: math.sqrt(a) if a >= 0 else math.nan, "cos": math.cos, "sin": math.sin, "tan": math.tan, "tanh": math.tanh, "arctan": math.atan, "erf": math.erf, "erfc": math.erfc, "gammaln": math.lgamma,
       "floor": whole(math.floor), "ceil": whole(math.ceil), "trunc": whole(math.trunc), "fix": whole(math.trunc), "rint": whole(round), "abs": abs, "fabs": abs, "absolute": abs, "negative": lambda a: -a, "square": lambda a: a * a,
       "reciprocal": lambda a: div(1.0, a), "sign": lambda a: (a > 0) - (a < 0), "isnan": lambda a: a != a, "isfinite": math.isfinite, "isinf": math.isinf, "isneginf": lambda a: a == -math.inf, "isposinf": lambda a: a == math.inf,
       "logical_not": lambda a: not a, "invert": lambda a: (not a) if isinstance(a, bool) else ~a, "deg2rad": math.radians, "radians": math.radians, "not_": lambda a: not a, "sigmoid": lambda a: 1 / (1 + math.exp(-a)),
       "expit": lambda a: 1 / (1 + math.exp(-a))}
TWO = {"add": BIN["+"], "subtract": BIN["-"], "multiply": BIN["*"], "divide": BIN["/"], "true_divide": BIN["/"], "floor_divide": BIN["//"], "mod": BIN["%"], "power": BIN["**"], "minimum": lambda a, b: math.nan if a != a or b != b else min(a, b),
       "maximum": lambda a, b: math.nan if a != a or b != b else max(a, b), "fmin": lambda a, b: b if a != a else a if b != b else min(a, b), "fmax": lambda a, b: b if a != a else a if b != b else max(a, b), "greater": CMP[">"], "less": CMP["<"], "greater_equal": CMP[">="], "less_equal": CMP["<="], "equal": CMP["=="], "not_equal": CMP["!="],
       "logical_and": lambda a, b: bool(a) and bool(b), "logical_or": lambda a, b: bool(a) or bool(b), "bitwise_and": BIN["&"], "bitwise_or": BIN["|"], "and_": BIN["&"], "or_": BIN["|"], "arctan2": math.atan2, "hypot": math.hypot,
       "isclose": lambda a, b: a == b or abs(a - b) <= 1e-8 + 1e-5 * abs(b)}
SAME = {"array", "asarray", "stop_gradient", "copy", "ascontiguousarray", "float64", "float32", "atleast_1d", "deepcopy", "device_put", "asanyarray", "block_until_ready", "tolist", "jit"}
PRE = ("jax.numpy.", "numpy.", "jax.lax.", "math.", "jax.scipy.special.", "scipy.special.", "jax.nn.", "copy.", "jax.")
METHODS = {"sum", "max", "min", "mean", "argmin", "argmax", "any", "all", "cumsum", "prod", "astype", "reshape", "ravel", "flatten", "clip", "copy", "squeeze", "transpose", "take", "dot", "round", "tolist", "argsort", "item", "searchsorted",
           "swapaxes", "repeat", "std", "var"}


def isnum(x):
    return isinstance(x, (bool, int, float))


class Tensor:
    """jax: gathers clamp; otherwise an index out of range is unknown."""

    def __init__(self, env, jax=False, proj=None):
        self.env, self.jax, self.proj, self.memo = env, jax, proj, {}

    def val(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        try:
            v = self._val(t)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError) as e:
            raise Unknown(f"{type(e).__name__} in {t.op}") from None
        self.memo[t] = v
        return v

    def truth(self, t):
        v = self.val(t)
        if isinstance(v, Arr):
            if size(v.shape) != 1:
                raise Unknown("truth of an array")
            v = v.d[0]
        return bool(v)

    def _val(self, t):
        op = t.op
        if op == "const":
            return t.a[0]
        if t is NONE:
            return None
        if op in ("list", "tuple"):
            res = []
            for x in t.a:
                if x.op == "star":
                    v = self.val(x.a[0])
                    res += [sub(v, i) for i in range(v.shape[0])] if isinstance(v, Arr) else list(v)
                else:
                    res.append(self.val(x))
            return res if op == "list" else tuple(res)
        if op == "slice":
            return slice(*[None if x is NONE else int(self.val(x)) for x in t.a])
        if op == "global":
            n = t.a[0].split(".")[-1]
            if t.a[0].startswith(PRE + ("builtins.",)):
                if n in ("pi", "inf", "e", "nan"):
                    return getattr(math, n)
                if n == "newaxis":
                    return None
            elif self.proj is not None:
                return self.const(t.a[0])
            raise Unknown(t.a[0])
        if op == "bin":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            f = BIN.get(t.a[0])
            if t.a[0] == "@":
                return self.dot(a, b)
            if f is None:
                raise Unknown(t.a[0])
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and t.a[0] == "+":
                return a + type(a)(b)
            if isinstance(a, (list, tuple)) and isinstance(b, int) and t.a[0] == "*":
                return a * b
            return each(safe(f), a, b)
        if op == "un":
            a = self.val(t.a[1])
            return each({"-": lambda x: -x, "~": ONE["invert"], "+": lambda x: x}[t.a[0]], a)
        if op == "not":
            return not self.truth(t.a[0])
        if op in ("and", "or"):
            for x in t.a:
                v = self.val(x)
                if isinstance(v, Arr):
                    return self.fn("logical_" + op, [self.val(y) for y in t.a], {})
                if bool(v) == (op == "or"):
                    return v
            return v
        if op == "cmp":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            o = t.a[0]
            if o in ("is", "is not"):
                return (a is b) == (o == "is") if a is None or b is None else _un("is")
            if o in ("in", "not in"):
                if isinstance(b, (list, tuple)) and all(isnum(x) or isinstance(x, str) for x in b):
                    return (a in b) == (o == "in")
                raise Unknown(o)
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                return (a == b) == (o == "==")
            if isinstance(a, tuple) and isinstance(b, tuple):
                return (a == b) == (o == "==")
            return each(CMP[o], a, b)
        if op == "phi":
            return self.val(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if op == "attr":
            if t.a[1] in ("shape", "ndim", "size", "T", "real"):
                v = arr(self.val(t.a[0]))
                return {"shape": v.shape, "ndim": len(v.shape), "size": size(v.shape), "T": None, "real": v}[t.a[1]] if t.a[1] != "T" else perm(v, range(len(v.shape))[::-1])
            return self.other(t)
        if op == "item":
            if t.a[0].op == "attr" and t.a[0].a[1] == "at":
                raise Unknown("at")
            return self.item(self.val(t.a[0]), self.val(t.a[1]))
        if op == "slice_of":
            return self.item(self.val(t.a[0]), self.val(t.a[1]))
        if op == "scatter":
            return self.at(self.val(t.a[1]), self.val(t.a[2]), t.a[0], [self.val(t.a[3])])
        if op == "comp" and t.a[0] in ("list", "gen", "set"):
            kind, body, lid, src, conds = t.a
            if not isinstance(src, Term):
                raise Unknown("comp")
            v = self.val(src)
            v = [sub(v, i) for i in range(v.shape[0])] if isinstance(v, Arr) else list(v)
            res = []
            for x in v:
                e = self.__class__({**self.env, T("elem", lid, src): x}, self.jax, self.proj)
                if all(e.truth(c) for c in conds or ()):
                    res.append(e.val(body))
            return res
        if op == "dict":
            return {self.val(k): self.val(v) for k, v in t.a}
        if op == "f":
            kw = {k: self.val(v) for k, v in t.a[2] if k != "dtype"}
            for k, v in t.a[2]:
                if k == "dtype" and self.whole(v):
                    kw["dtype"] = self.whole(v)
            return self.fn(t.a[0], [self.val(x) if not isinstance(x, (str, int)) else x for x in t.a[1]], kw)
        if op == "call":
            return self.call(t)
        return self.other(t)

    def const(self, d):
        """Number a module-level name stands for."""
        mod, _, n = self.proj.canon(d).rpartition(".")
        m = next((q for q in self.proj.files.values() if q.name == mod), None)
        x = m.consts.get(n) if m is not None else None
        if not x or len(x) != 1 or x[0] is None:
            raise Unknown(d)
        e = x[0]
        try:
            return ast.literal_eval(e)
        except (ValueError, TypeError, SyntaxError):
            pass
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == "finfo":
            double = "64" in ast.unparse(e.value) or ast.unparse(e.value.args[0]) == "float"
            v = {"tiny": (1.1754943508222875e-38, 2.2250738585072014e-308), "eps": (1.1920928955078125e-07, 2.220446049250313e-16), "max": (3.4028234663852886e38, 1.7976931348623157e308)}
            if e.attr in v:
                return v[e.attr][double]
        raise Unknown(d)

    def other(self, t):
        raise Unknown(f"{t.op} {t.a[0] if t.op == 'attr' else ''}"[:60])

    def args(self, t):
        a = []
        for x in t.a[1]:
            if x.op == "star":
                v = self.val(x.a[0])
                a += [sub(v, i) for i in range(v.shape[0])] if isinstance(v, Arr) else list(v)
            else:
                a.append(self.val(x))
        kw = {}
        for k, v in t.a[2]:
            if k in (None, "**"):
                kw.update(self.val(v))
            elif k != "dtype":
                kw[k] = self.val(v)
            elif self.whole(v):
                kw["dtype"] = self.whole(v)
        return a, kw

    @staticmethod
    def whole(t):
        n = head(t).split(".")[-1] if t.op == "global" else t.a[0] if t.op == "const" else ""
        n = n.lstrip("u") if isinstance(n, str) else ""
        return int if n.startswith("int") else bool if n.startswith("bool") else None

    def call(self, t):
        fn = t.a[0]
        if fn.op == "attr":
            b, m = fn.a
            if b.op == "item" and b.a[0].op == "attr" and b.a[0].a[1] == "at":
                return self.at(self.val(b.a[0].a[0]), self.val(b.a[1]), m, self.args(t)[0])
            if m == "astype":
                v = self.val(b)
                kind = " ".join(str(x.a[0]) for x in list(t.a[1]) + [v_ for _, v_ in t.a[2]] if x.op in ("global", "const"))
                low = kind.lower()
                if "int" in low:
                    return each(lambda x: int(x) if math.isfinite(x) else x, v)
                return each(bool, v) if "bool" in low else each(float, v)
            if m in METHODS and not (b.op == "global" and b.a[0].startswith(PRE)):
                a, kw = self.args(t)
                v = self.val(b)
                if isinstance(v, (list, tuple)) and m in ("copy",):
                    return v
                return self.fn({"item": "float", "flatten": "ravel"}.get(m, m), [v] + a, kw)
            if m == "shape":
                return arr(self.val(b)).shape
        if fn.op == "call" and head(fn.a[0]).split(".")[-1] == "vmap" and fn.a[1]:
            return self.vmap(fn, t)
        h = head(fn)
        if h == "builtins.isinstance":
            return self.isinstance(self.val(t.a[1][0]), t.a[1][1])
        if h.startswith(PRE):
            a, kw = self.args(t)
            return self.fn(h.split(".")[-1], a, kw)
        if h.startswith("builtins.") or h in ("len", "list", "tuple"):
            n = h.split(".")[-1]
            a, kw = self.args(t)
            if n == "len":
                return len(a[0]) if not isinstance(a[0], Arr) else a[0].shape[0]
            if n in ("list", "tuple"):
                v = a[0] if a else ()
                v = [sub(v, i) for i in range(v.shape[0])] if isinstance(v, Arr) else v
                return list(v) if n == "list" else tuple(v)
            if n in ("int", "float", "bool"):
                v = a[0]
                v = v.d[0] if isinstance(v, Arr) and len(v.d) == 1 else v
                return {"int": int, "float": float, "bool": bool}[n](v)
            if n in ("abs", "min", "max", "sum", "any", "all", "round"):
                if n in ("min", "max") and len(a) > 1:
                    return {"min": min, "max": max}[n](a)
                return self.fn(n, a, kw)
            if n == "range":
                return list(range(*[int(x) for x in a]))
            if n == "slice":
                return slice(*[None if x is None else int(x) for x in a])
            if n in ("zip", "enumerate"):
                xs = [[sub(v, i) for i in range(v.shape[0])] if isinstance(v, Arr) else list(v) for v in a]
                return list(zip(*xs)) if n == "zip" else list(enumerate(xs[0]))
            if n == "sorted":
                return sorted(a[0].d if isinstance(a[0], Arr) else a[0])
        return self.foreign(t)

    def isinstance(self, v, c):
        if c.op in ("tuple", "list"):
            return any(self.isinstance(v, x) for x in c.a)
        n = head(c).split(".")[-1]
        if n in ("int", "float", "str", "dict", "list", "tuple", "bool"):
            return isinstance(v, {"int": int, "float": float, "str": str, "dict": dict, "list": list, "tuple": tuple, "bool": bool}[n])
        if n in ("integer", "Integral"):
            return isinstance(v, int)
        if n in ("ndarray", "Array"):
            return isinstance(v, Arr)
        raise Unknown(f"isinstance {n}")

    def vmap(self, m, t):
        """A function of the array library mapped over an axis of its arguments."""
        kw = {k: self.val(v) for k, v in m.a[2]}
        pos = [self.val(x) for x in m.a[1][1:]]
        ax = pos[0] if pos else kw.get("in_axes", 0)
        if (pos[1] if len(pos) > 1 else kw.get("out_axes", 0)) != 0 or t.a[2]:
            raise Unknown("vmap")
        f = m.a[1][0]
        bound = []
        if f.op == "call" and head(f.a[0]).split(".")[-1] == "partial":
            if f.a[1][1:]:
                raise Unknown("vmap of a partial")
            bound, f = list(f.a[2]), f.a[1][0]
        if not head(f).startswith(PRE):
            raise Unknown("vmap of " + head(f))
        vals = [self.val(x) for x in t.a[1]]
        ax = list(ax) if isinstance(ax, (list, tuple)) else [ax] * len(vals)
        if len(ax) != len(vals) or any(a not in (0, None) for a in ax):
            raise Unknown("axes of vmap")
        ns = {arr(v).shape[0] for v, a in zip(vals, ax) if a == 0}
        if len(ns) != 1:
            raise Unknown("vmap over different lengths")
        kw = {k: self.val(v) for k, v in bound if k != "dtype"}
        return arr([self.fn(head(f).split(".")[-1], [sub(arr(v), i) if a == 0 else v for v, a in zip(vals, ax)], dict(kw)) for i in range(ns.pop())])

    def foreign(self, t):
        raise Unknown(f"call {head(t.a[0])}")

    # ---- indexing
    def item(self, v, i):
        if isinstance(v, dict):
            return v[i]
        if isinstance(v, (list, tuple)):
            if isinstance(i, (int, slice)):
                return v[i]
            if isinstance(i, tuple) and len(i) == 1:
                return v[i[0]]
            v = arr(v)
        v = arr(v)
        ix = i if isinstance(i, tuple) else (i,)
        return out(self.gather(v, ix))

    def spec(self, v, ix):
        """Per result axis lists of offsets: ([shape], offsets)."""
        ix = [arr(x) if isinstance(x, list) else x for x in ix]
        ix = [x.d[0] if isinstance(x, Arr) and x.shape == () else x for x in ix]
        used = sum(len(x.shape) if isinstance(x, Arr) and x.d and isinstance(x.d[0], bool) else 0 if x is None or x is Ellipsis else 1 for x in ix)
        if used > len(v.shape):
            raise Unknown("too many indices")
        if Ellipsis in [x for x in ix if not isinstance(x, Arr)]:
            k = [j for j, x in enumerate(ix) if x is Ellipsis][0]
            ix[k:k + 1] = [slice(None)] * (len(v.shape) - used)
        else:
            ix += [slice(None)] * (len(v.shape) - used)
        st = strides(v.shape)
        k = 0
        parts = []   # ("new",) | ("sl", [offsets]) | ("adv", Arr of offsets)
        for x in ix:
            if x is None:
                parts.append(("sl", [0]))
                continue
            if isinstance(x, Arr) and x.d and isinstance(x.d[0], bool):
                if x.shape != v.shape[k:k + len(x.shape)]:
                    raise Unknown("mask")
                s2 = strides(x.shape)
                on = [j for j, b in enumerate(x.d) if b]
                offs = []
                for j in on:
                    o = 0
                    for d, (s, n) in enumerate(zip(s2, x.shape)):
                        o += (j // s % n) * st[k + d]
                    offs.append(o)
                parts.append(("adv", Arr((len(on),), offs)))
                k += len(x.shape)
                continue
            n = v.shape[k]
            if isinstance(x, slice):
                parts.append(("sl", [j * st[k] for j in range(*x.indices(n))]))
            elif isinstance(x, Arr):
                parts.append(("adv", Arr(x.shape, [self.bound(j, n) * st[k] for j in x.d])))
            elif isinstance(x, bool):
                raise Unknown("boolean index")
            else:
                if not isinstance(x, int):
                    if not (isinstance(x, float) and x == int(x)):
                        raise Unknown("index")
                    x = int(x)
                if not -n <= x < n:
                    if not self.jax:
                        raise Unknown("index out of range")
                parts.append(("int", self.bound(x, n) * st[k]))
            k += 1
        adv = [j for j, p in enumerate(parts) if p[0] == "adv"]
        if adv:
            # integers take part in the broadcast
            adv = [j for j, p in enumerate(parts) if p[0] in ("adv", "int")]
            xs = [parts[j][1] if parts[j][0] == "adv" else Arr((), [parts[j][1]]) for j in adv]
            sh = broadcast([x.shape for x in xs])
            xs = [spread(x, sh).d for x in xs]
            tot = Arr(sh, [sum(y) for y in zip(*xs)])
            contiguous = adv == list(range(adv[0], adv[-1] + 1))
            rest = [p for j, p in enumerate(parts) if j not in adv]
            at = len([j for j in range(adv[0]) if j not in adv]) if contiguous else 0
            rest.insert(at, ("adv", tot))
            parts = rest
        shape, offs = [], [0]
        for p in parts:
            if p[0] == "int":
                offs = [o + p[1] for o in offs]
            elif p[0] == "sl":
                shape.append(len(p[1]))
                offs = [o + j for o in offs for j in p[1]]
            else:
                shape += p[1].shape
                offs = [o + j for o in offs for j in p[1].d]
        return shape, offs

    def bound(self, j, n):
        if not isinstance(j, int):
            if not (isinstance(j, float) and math.isfinite(j) and j == int(j)):
                raise Unknown("index")
            j = int(j)
        if j < 0:
            j += n
        if 0 <= j < n:
            return j
        if not self.jax:
            raise Unknown("index out of range")
        return min(max(j, 0), n - 1)

    def gather(self, v, ix):
        shape, offs = self.spec(v, ix)
        return Arr(shape, [v.d[o] for o in offs])

    def at(self, v, i, m, a):
        v = arr(v)
        ix = i if isinstance(i, tuple) else (i,)
        # scatters drop what is out of range
        if self.jax and any(isinstance(x, Arr) for x in ix):
            xs = [arr(x) if isinstance(x, list) else x for x in ix]
            if all(isinstance(x, Arr) for x in xs) and len(xs) == len(v.shape) and not isinstance((xs[0].d or [0])[0], bool):
                sh = broadcast([x.shape for x in xs] + [arr(a[0]).shape])
                xs = [spread(x, sh).d for x in xs]
                w = spread(arr(a[0]), sh).d
                st, d = strides(v.shape), list(v.d)
                for row, y in zip(zip(*xs), w):
                    o, good = 0, True
                    for j, n, s in zip(row, v.shape, st):
                        j = int(j)
                        j = j + n if j < 0 else j
                        good &= 0 <= j < n
                        o += j * s
                    if good:
                        d[o] = y if m == "set" else d[o] + y if m == "add" else d[o] * y if m in ("multiply", "mul") else _un(m)
                return Arr(v.shape, d)
        shape, offs = self.spec(v, ix)
        w = spread(arr(a[0]), shape).d
        d = list(v.d)
        for o, y in zip(offs, w):
            d[o] = {"set": lambda p, q: q, "add": lambda p, q: p + q, "multiply": lambda p, q: p * q, "divide": div, "max": max, "min": min}[m](d[o], y)
        return Arr(v.shape, d)

    # ---- functions
    def dot(self, a, b):
        a, b = arr(a), arr(b)
        if len(a.shape) == 1 and len(b.shape) == 1 and a.shape == b.shape:
            return sum(x * y for x, y in zip(a.d, b.d))
        if len(a.shape) == 2 and len(b.shape) == 1 and a.shape[1] == b.shape[0]:
            n = a.shape[1]
            return Arr((a.shape[0],), [sum(a.d[i * n + j] * b.d[j] for j in range(n)) for i in range(a.shape[0])])
        if len(a.shape) <= 2 and len(b.shape) == 2:
            n, m = b.shape
            rows = len(a.d) // n
            r = [sum(a.d[i * n + k] * b.d[k * m + j] for k in range(n)) for i in range(rows) for j in range(m)]
            return Arr((m,) if len(a.shape) == 1 else (rows, m), r)
        raise Unknown("dot")

    def fn(self, n, a, kw):
        kind = kw.pop("dtype", None)
        if kind is bool:
            return each(bool, self.fn(n, a, kw))
        if kind is int:
            if n.startswith(("zeros", "full", "empty")):
                raise Unknown("whole numbers")
            return each(lambda x: int(x) if math.isfinite(x) else x, self.fn(n, a, kw))
        g = lambda i, k, default=None: a[i] if len(a) > i else kw.get(k, default)
        if n in ONE and len(a) == 1:
            return each(safe(ONE[n]), a[0])
        if n == "toint":
            return each(lambda x: int(x) if math.isfinite(x) else x, a[0])
        if n in TWO and len(a) + len(kw) >= 2:
            vs = list(a) + list(kw.values())
            v = vs[0]
            for w in vs[1:] if n in ("logical_and", "logical_or", "and_", "or_") else vs[1:2]:
                v = each(safe(TWO[n]), v, w)
            return v
        if n in SAME:
            v = a[0] if a else next(iter(kw.values()))
            v = out(arr(v)) if n not in ("deepcopy", "copy") or isinstance(v, Arr) else v
            return Arr((1,), [v]) if n == "atleast_1d" and isnum(v) else v
        if n in ("float", "int"):
            return {"float": float, "int": int}[n](arr(a[0]).d[0])
        if n in ("round", "around"):
            return each(whole(lambda x: round(x, int(a[1]) if len(a) > 1 else 0)), a[0])
        if n == "where" or n == "select":
            if n == "select":
                v = g(2, "default", 0)
                for c, x in reversed(list(zip(a[0], a[1]))):
                    v = each(lambda c, x, y: x if c else y, c, x, v)
                return v
            if len(a) == 1:
                m = arr(a[0])
                if len(m.shape) != 1:
                    raise Unknown("where")
                return (Arr((sum(map(bool, m.d)),), [i for i, b in enumerate(m.d) if b]),)
            return each(lambda c, x, y: x if c else y, g(0, "condition"), g(1, "x"), g(2, "y"))
        if n == "clip":
            v = a[0] if a else kw.get("a", kw.get("arr", kw.get("x")))
            lo, hi = g(1, "a_min", kw.get("min")), g(2, "a_max", kw.get("max"))
            v = v if lo is None else each(TWO["maximum"], v, lo)
            return v if hi is None else each(TWO["minimum"], v, hi)
        if n == "nan_to_num":
            z = g(1, "nan", 0.0)
            return each(lambda x: z if x != x else math.copysign(1.7e308, x) if math.isinf(x) else x, a[0])
        red = {"sum": math.fsum, "nansum": lambda v: math.fsum(x for x in v if x == x), "max": lambda v: math.nan if any(x != x for x in v) else max(v), "min": lambda v: math.nan if any(x != x for x in v) else min(v), "mean": lambda v: math.fsum(v) / len(v),
               "prod": lambda v: math.prod(v), "any": any, "all": all, "argmin": lambda v: v.index(min(v)), "argmax": lambda v: v.index(max(v)), "std": lambda v: _std(v), "var": lambda v: _std(v) ** 2, "median": lambda v: quant(v, 0.5),
               "count_nonzero": lambda v: sum(1 for x in v if x), "ptp": lambda v: max(v) - min(v), "nanmax": lambda v: max(x for x in v if x == x), "nanmin": lambda v: min(x for x in v if x == x),
               "nanmean": lambda v: (lambda w: math.fsum(w) / len(w))([x for x in v if x == x])}
        n = {"amax": "max", "amin": "min", "average": "average"}.get(n, n)
        if n in red:
            v = arr(a[0] if a else kw["a"])
            f = red[n]
            if n == "sum" and all(isinstance(x, (bool, int)) for x in v.d):
                f = sum
            if n == "sum" and any(not math.isfinite(x) for x in v.d):
                f = sum
            ax = g(1, "axis")
            r = along(v, ax, f)
            if kw.get("keepdims"):
                sh = [1 if ax is None or k == ax % len(v.shape) else s for k, s in enumerate(v.shape)]
                r = Arr(sh, arr(r).d)
            return r
        if n == "average":
            w = kw.get("weights", a[2] if len(a) > 2 else None)
            ax = g(1, "axis")
            if w is None:
                return along(a[0], ax, red["mean"])
            w = arr(w)
            v = arr(a[0])
            if w.shape != v.shape and len(w.shape) == 1 and ax is not None:
                k = int(ax) % len(v.shape)
                w = spread(Arr([s if j == k else 1 for j, s in enumerate([w.shape[0] if j == k else 1 for j in range(len(v.shape))])], w.d), v.shape)
            return each(div, along(each(BIN["*"], v, w), ax, math.fsum), along(w, ax, math.fsum))
        if n in ("cumsum", "sort", "argsort", "flip", "diff", "cumprod"):
            def f(v):
                if n == "sort":
                    return sorted(v)
                if n == "argsort":
                    return sorted(range(len(v)), key=lambda i: v[i])
                if n == "flip":
                    return v[::-1]
                if n == "diff":
                    return [y - x for x, y in zip(v, v[1:])]
                return list(itertools.accumulate(v, (lambda x, y: x + y) if n == "cumsum" else lambda x, y: x * y))
            ax = kw.get("axis", a[1] if len(a) > 1 and n != "diff" else None)
            v = arr(a[0])
            if ax is None and n in ("sort", "argsort", "diff"):
                ax = -1
            if ax is None and n == "flip" and len(v.shape) > 1:
                raise Unknown("flip")
            return along(v, ax, f)
        if n == "top_k":
            v, k = arr(a[0]), int(g(1, "k"))
            idx = along(v, -1, lambda r: sorted(range(len(r)), key=lambda i: -r[i])[:k])
            return (self.fn("take_along_axis", [v, idx], {"axis": -1}), idx)
        if n == "take_along_axis":
            v, i = arr(a[0]), arr(g(1, "indices"))
            ax = int(g(2, "axis")) % len(v.shape)
            st = strides(v.shape)
            res = []
            for pos in itertools.product(*[range(k) for k in i.shape]):
                j = i.d[sum(p * s for p, s in zip(pos, strides(i.shape)))]
                q = list(pos)
                q[ax] = self.bound(j, v.shape[ax])
                res.append(v.d[sum(p * s for p, s in zip(q, st))])
            return Arr(i.shape, res)
        if n == "take":
            v, i, ax = arr(a[0]), g(1, "indices"), g(2, "axis")
            if ax is None:
                return self.item(Arr((len(v.d),), v.d), arr(i))
            return self.item(v, (slice(None),) * (int(ax) % len(v.shape)) + (arr(i),))
        if n == "linspace":
            lo, hi, k = g(0, "start"), g(1, "stop"), int(g(2, "num", 50))
            e = kw.get("endpoint", a[3] if len(a) > 3 else True)
            d = max(k - 1 if e else k, 1)
            if isinstance(lo, Arr) or isinstance(hi, Arr):
                raise Unknown("linspace of arrays")
            return Arr((k,), [lo + (hi - lo) * j / d if not (e and j == k - 1 and k > 1) else float(hi) for j in range(k)])
        if n in ("logspace", "geomspace"):
            lo, hi, k = g(0, "start"), g(1, "stop"), int(g(2, "num", 50))
            if n == "geomspace" and lo * hi <= 0:
                return Arr((k,), [math.nan] * k)
            if n == "geomspace" and lo < 0:
                lo, hi = math.log10(-lo), math.log10(-hi)
                return Arr((k,), [-10 ** (lo + (hi - lo) * j / max(k - 1, 1)) for j in range(k)])
            if n == "geomspace":
                lo, hi = math.log10(lo), math.log10(hi)
            return Arr((k,), [10 ** (lo + (hi - lo) * j / max(k - 1, 1)) for j in range(k)])
        if n == "arange":
            v = [x for x in a if x is not None]
            if all(isinstance(x, int) for x in v):
                r = list(range(*v))
                return Arr((len(r),), r)
            lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], 1) if len(v) == 2 else v
            k = max(0, math.ceil((hi - lo) / st - 1e-12))
            return Arr((k,), [lo + st * j for j in range(k)])
        if n in ("zeros", "ones", "empty", "full"):
            sh = g(0, "shape")
            sh = tuple(int(x) for x in (sh.d if isinstance(sh, Arr) else sh)) if not isnum(sh) else (int(sh),)
            c = {"zeros": 0.0, "ones": 1.0, "empty": 0.0}.get(n)
            return out(spread(arr(g(1, "fill_value")), sh)) if n == "full" else out(Arr(sh, [c] * size(sh)))
        if n in ("zeros_like", "ones_like", "full_like", "empty_like"):
            v = arr(a[0])
            return each(lambda x: {"z": 0.0, "o": 1.0, "e": 0.0}.get(n[0], None), v) if n != "full_like" else spread(arr(g(1, "fill_value")), v.shape)
        if n in ("stack", "concatenate", "hstack", "vstack", "column_stack", "append"):
            xs = a[0] if n != "append" else [a[0], a[1]]
            xs = [sub(xs, i) for i in range(xs.shape[0])] if isinstance(xs, Arr) else xs
            xs = [arr(x) for x in xs]
            if n == "stack":
                ax = int(g(1, "axis", 0))
                b = arr([out(x) if x.shape == () else x for x in xs])
                ax %= len(b.shape)
                o = list(range(1, len(b.shape)))
                o.insert(ax, 0)
                return perm(b, o)
            if n == "column_stack":
                b = arr(xs)
                return perm(b, (1, 0)) if len(b.shape) == 2 else _un(n)
            if n == "vstack":
                return arr(xs)if all(len(x.shape) == 1 for x in xs) else self.fn("concatenate", [xs], {"axis": 0})
            ax = int(g(2 if n == "append" else 1, "axis", 0) or 0)
            if n == "hstack":
                ax = 0 if all(len(x.shape) <= 1 for x in xs) else 1
            xs = [Arr((1,), x.d) if x.shape == () else x for x in xs]
            ax %= len(xs[0].shape)
            o = [ax] + [k for k in range(len(xs[0].shape)) if k != ax]
            ps = [perm(x, o) for x in xs]
            if len({p.shape[1:] for p in ps}) != 1:
                raise Unknown("shapes")
            b = Arr((sum(p.shape[0] for p in ps),) + ps[0].shape[1:], [v for p in ps for v in p.d])
            return perm(b, [o.index(k) for k in range(len(o))])
        if n in ("reshape", "ravel", "squeeze", "expand_dims", "transpose", "swapaxes", "moveaxis", "broadcast_to", "broadcast_arrays", "atleast_2d"):
            if n == "broadcast_arrays":
                xs = [arr(x) for x in a]
                sh = broadcast([x.shape for x in xs])
                return [spread(x, sh) for x in xs]
            v = arr(a[0])
            if n == "ravel":
                return Arr((len(v.d),), v.d)
            if n == "atleast_2d":
                return Arr((1,) * (2 - len(v.shape)) + v.shape, v.d)
            if n == "reshape":
                sh = a[1] if len(a) == 2 else kw.get("shape", kw.get("newshape", tuple(a[1:])))
                sh = [int(sh)] if isnum(sh) else [int(x) for x in (sh.d if isinstance(sh, Arr) else sh)]
                if -1 in sh:
                    sh[sh.index(-1)] = len(v.d) // max(1, size([x for x in sh if x != -1]))
                if size(sh) != len(v.d):
                    raise Unknown("reshape")
                return out(Arr(sh, v.d))
            if n == "squeeze":
                ax = g(1, "axis")
                return out(Arr([s for k, s in enumerate(v.shape) if s != 1 or ax is not None and k != ax % len(v.shape)], v.d))
            if n == "expand_dims":
                ax = int(g(1, "axis"))
                sh = list(v.shape)
                sh.insert(ax % (len(sh) + 1), 1)
                return Arr(sh, v.d)
            if n == "transpose":
                ax = g(1, "axes")
                return perm(v, [int(x) for x in ax] if ax is not None else range(len(v.shape))[::-1])
            if n == "swapaxes":
                o = list(range(len(v.shape)))
                o[int(a[1])], o[int(a[2])] = o[int(a[2])], o[int(a[1])]
                return perm(v, o)
            if n == "moveaxis":
                o = list(range(len(v.shape)))
                k = o.pop(int(a[1]) % len(v.shape))
                o.insert(int(a[2]) % len(v.shape), k)
                return perm(v, o)
            sh = g(1, "shape")
            return spread(v, tuple(sh) if not isnum(sh) else (sh,))
        if n in ("shape", "ndim", "size"):
            v = arr(a[0])
            return {"shape": v.shape, "ndim": len(v.shape), "size": len(v.d)}[n]
        if n in ("searchsorted", "digitize"):
            ref, x = (arr(a[0]), g(1, "v")) if n == "searchsorted" else (arr(g(1, "bins")), a[0])
            right = (kw.get("side", a[2] if len(a) > 2 else "left") == "right") if n == "searchsorted" else not kw.get("right", a[2] if len(a) > 2 else False)
            if len(ref.shape) != 1:
                raise Unknown(n)
            import bisect
            f = bisect.bisect_right if right else bisect.bisect_left
            return each(lambda q: f(ref.d, q) if q == q else len(ref.d), x)
        if n == "interp":
            q, xp, fp = g(0, "x"), arr(g(1, "xp")), arr(g(2, "fp"))
            l, r = kw.get("left", a[3] if len(a) > 3 else None), kw.get("right", a[4] if len(a) > 4 else None)
            if kw.get("period") is not None or set(kw) - {"x", "xp", "fp", "left", "right", "period"}:
                raise Unknown("interp")

            def f(x):
                if x < xp.d[0]:
                    return fp.d[0] if l is None else l
                if x > xp.d[-1]:
                    return fp.d[-1] if r is None else r
                j = 0
                while j < len(xp.d) - 2 and x > xp.d[j + 1]:
                    j += 1
                if xp.d[j + 1] == xp.d[j]:
                    return fp.d[j]
                return fp.d[j] + (fp.d[j + 1] - fp.d[j]) * (x - xp.d[j]) / (xp.d[j + 1] - xp.d[j])
            return each(f, q)
        if n in ("quantile", "percentile", "nanquantile"):
            v, q = arr(a[0]), g(1, "q")
            if g(2, "axis") is not None or set(kw) - {"q", "axis"}:
                raise Unknown(n)
            return each(lambda p: quant(v.d, p / 100 if n == "percentile" else p), q)
        if n == "unique":
            v = sorted(set(arr(a[0]).d))
            if len(a) > 1 or kw:
                raise Unknown(n)
            return Arr((len(v),), v)
        if n == "meshgrid":
            xs = [arr(x) for x in a]
            sh = [x.shape[0] for x in xs]
            res = [spread(Arr([s if j == i else 1 for j, s in enumerate(sh)], x.d), sh) for i, x in enumerate(xs)]
            if kw.get("indexing", "xy") == "xy" and len(xs) > 1:
                res = [perm(r, [1, 0] + list(range(2, len(xs)))) for r in res]
            return res
        if n in ("dot", "matmul", "vdot", "inner"):
            return self.dot(a[0], a[1])
        if n == "outer":
            x, y = arr(a[0]), arr(a[1])
            return Arr((len(x.d), len(y.d)), [p * q for p in x.d for q in y.d])
        if n == "bincount":
            x, w, m = arr(a[0]), g(1, "weights"), kw.get("minlength", kw.get("length", 0)) or 0
            w = arr(w).d if w is not None else [1] * len(x.d)
            k = max([m] + [j + 1 for j in x.d]) if kw.get("length") is None else m
            d = [0.0] * k
            for j, y in zip(x.d, w):
                if 0 <= j < k:
                    d[j] += y
            return Arr((k,), d)
        if n in ("histogram", "histogramdd", "histogram2d"):
            return self.histogram(n, a, kw)
        if n in ("repeat", "tile"):
            v, k = arr(a[0]), g(1, "repeats", kw.get("reps"))
            if len(v.shape) > 1 or not isnum(k):
                raise Unknown(n)
            d = [x for x in v.d for _ in range(k)] if n == "repeat" else v.d * int(k)
            return Arr((len(d),), d)
        if n in ("isin", "in1d"):
            s = arr(a[1]).d
            return each(lambda x: x in s, a[0])
        if n in ("array_equal", "allclose"):
            x, y = arr(a[0]), arr(a[1])
            return x.shape == y.shape and all(TWO["isclose"](p, q) if n == "allclose" else p == q for p, q in zip(x.d, y.d))
        if n == "nonzero" or n == "flatnonzero":
            r = self.fn("where", [a[0]], {})
            return r if n == "nonzero" else r[0]
        if n == "broadcast_shapes":
            return broadcast([tuple(x) if not isnum(x) else (x,) for x in a])
        raise Unknown(n)

    def histogram(self, n, a, kw):
        w = kw.get("weights")
        if n == "histogram2d":
            xs, edges = [arr(a[0]).d, arr(a[1]).d], kw.get("bins", a[2] if len(a) > 2 else None)
        elif n == "histogram":
            xs, edges = [arr(a[0]).d], [kw.get("bins", a[1] if len(a) > 1 else None)]
        else:
            s = arr(a[0])
            if len(s.shape) != 2:
                raise Unknown(n)
            k = s.shape[1]
            xs, edges = [s.d[j::k] for j in range(k)], kw.get("bins", a[1] if len(a) > 1 else None)
        if set(kw) - {"bins", "weights", "density", "range"} or kw.get("density") or kw.get("range") is not None:
            raise Unknown(n)
        es = [arr(e).d for e in edges]
        if any(len(arr(e).shape) != 1 for e in edges):
            raise Unknown(n)
        w = arr(w).d if w is not None else [1.0] * len(xs[0])
        sh = [len(e) - 1 for e in es]
        st, d = strides(sh), [0.0] * size(sh)
        import bisect
        for j in range(len(xs[0])):
            o, good = 0, True
            for x, e, s in zip(xs, es, st):
                b = bisect.bisect_right(e, x[j]) - 1
                if x[j] == e[-1]:
                    b = len(e) - 2
                good &= 0 <= b < len(e) - 1
                o += b * s
            if good:
                d[o] += w[j]
        h = Arr(sh, d)
        return (h, Arr((len(es[0]),), es[0])) if n == "histogram" else (h,) + tuple(Arr((len(e),), e) for e in es) if n == "histogram2d" else (h, [Arr((len(e),), e) for e in es])


def _un(n):
    raise Unknown(n)


def _std(v):
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def quant(v, q):
    v = sorted(v)
    p = q * (len(v) - 1)
    i = min(int(p), len(v) - 2) if len(v) > 1 else 0
    return v[i] + (v[min(i + 1, len(v) - 1)] - v[i]) * (p - i)


def outcome(r, ev, pick=None):
    """What a function does for the values of ev: ("return", value, or its element) or ("raise", its event)."""
    for e in raises(r):
        g = canon(raise_guard(e))
        if not isc(g, False) and ev.truth(g):
            return "raise", e
    for g, t, l in rets(r):
        g = canon(g)
        if not isc(g, False) and ev.truth(g):
            return "return", ev.val(canon(t if pick is None else item(t, C(pick))))
    raise Unknown("no path")


def single(v):
    if isinstance(v, Arr) and len(v.d) == 1:
        v = v.d[0]
    if not isnum(v):
        raise Unknown("not a number")
    return float(v)
