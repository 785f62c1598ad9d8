"""C09: log-scaled axes are transformed consistently; other axes never."""

import itertools
import math

from ..algebra import TooBig
from ..axes import Axes, Undecided, V
from ..help import *

META = {
    "technique": "partial evaluation of the map builder for every shape of the declared coordinate type, component-wise data flow of the query "
                 "and of the node coordinates into the interpolator, sign-class evaluation of the rejection conditions",
    "level": "proof",
    "explain": "decided for every assignment of linear and logarithmic scale to up to three axes, given as one name or per axis, and every sign "
            "of every coordinate; forms outside the vocabulary are undecided",
    "rules": {
        "linear": "query and coordinates of an axis not declared logarithmic reach the interpolator unchanged",
        "log": "query and coordinates of a logarithmic axis go through the same logarithm, guarded only outside the float range",
        "values": "the map values reach the interpolator unchanged",
        "args": "query, coordinates and values are handed over in the interpolator's order",
        "reject": "building fails exactly when a logarithmic axis has a non-positive coordinate",
        "density": "building fails exactly when a pdf or cdf axis is logarithmic",
    },
    "assumptions": ["numpy's elementwise functions and jnp.where act component by component"],
}
OPQ = ("load_json", "_resolve_cached_config", "get_file_path", "_get_regbin_interpolator", "pdf_to_cdf", "calculate_sha256")
LOGS = ("log", "log10", "log2")


def check(proj, book):
    worlds = [("regbin", n) for n in (1, 2, 3)] + [("log_regbin", n) for n in (1, 2, 3)]
    for n in (1, 2, 3):
        for c in itertools.product(("regbin", "log_regbin"), repeat=n):
            worlds.append((list(c), n))
    for ct, n in worlds:
        book.step(f"regbin {ct} {n}", world, proj, book, ct, n)
    for ct in ("point", "log_point"):
        book.step(ct, world, proj, book, ct, 0)
    book.floor("args", 8)
    book.floor("reject", 8)
    book.floor("density", 6)


def lst(xs):
    return T("list", *xs)


def datum(ct, names, n, L, U):
    cn = lst([C(c) for c in names]) if isinstance(names, list) else C(names)
    ctt = lst([C(c) for c in ct]) if isinstance(ct, list) else C(ct)
    if n:
        return T("dict", (C("coordinate_type"), ctt), (C("coordinate_name"), cn), (C("coordinate_lowers"), lst(L)),
                 (C("coordinate_uppers"), lst(U)), (C("map"), par("$map")))
    return T("dict", (C("coordinate_type"), ctt), (C("coordinate_name"), cn), (C("coordinate_system"), lst(L)), (C("map"), par("$map")))


def build(proj, d):
    def hook(ev, fn, args, kw, fr, ex):
        h = head(fn).split(".")[-1] if fn.op in ("global", "attr") else ""
        if h == "load_json":
            return d
        return None
    o = opq(*OPQ)
    return run(proj, "Map", "build", opaque=lambda f: o(f), hook=hook)


def world(proj, book, ct, n):
    D = n or 1
    L = [par(f"$l{i}") for i in range(n)] if n else [par("$s0"), par("$s1")]
    U = [par(f"$u{i}") for i in range(n)]
    logs = [c.startswith("log_") for c in ct] if isinstance(ct, list) else [ct.startswith("log_")] * D
    tag = (",".join(ct) if isinstance(ct, list) else ct) + (f":{n}d" if n and not isinstance(ct, list) else "")
    names = ["x", "y", "z"][:n] if n else "x"
    r = build(proj, datum(ct, names, n, L, U))
    if n:
        book.step(tag, transform, proj, book, tag, r, logs, n, L, U)
    else:
        s = par("$s")
        d = datum(ct, "x", 0, L, U)
        d = T("dict", *[(k, s if k.a[0] == "coordinate_system" else v) for k, v in d.a])
        book.step(tag, transform, proj, book, tag, build(proj, d), logs, 0, [s], [])
    reject(book, tag, r, logs, n, L, U)
    for i in range(D):
        for kind in ("pdf", "cdf"):
            nm = [kind if j == i else x for j, x in enumerate(names)] if n else kind
            density(book, f"{tag}:{kind}{i if n else ''}", build(proj, datum(ct, nm, n, L, U)), logs[i], L, U)


# -- transformation -----------------------------------------------------------

def val(x):
    """Float value of a constant-like term, or None."""
    if x.op == "const" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool):
        return float(x.a[0])
    if x.op == "un" and x.a[0] == "-":
        v = val(x.a[1])
        return None if v is None else -v
    if x.op == "global":
        n = x.a[0].split(".")[-1]
        return {"inf": math.inf, "FLOAT_POS_MIN": 1.2e-38, "FLOAT_POS_MAX": 3.4e38}.get(n)
    if x.op == "attr":
        return {"tiny": 1.2e-38, "smallest_normal": 1.2e-38, "max": 3.4e38, "eps": 1.2e-7, "min": -3.4e38}.get(x.a[1])
    return None


class Ax(Axes):
    """Axes plus masks known component by component."""

    def ev(self, t):
        if t.op == "attr" and t.a[1] == "ndim":
            v = self(t.a[0])
            return C(1 if isinstance(v, V) else 0)
        if t.op == "attr" and t.a[1] in ("shape", "size") and t.a[0] is not self.val:
            v = self(t.a[0])
            if isinstance(v, V):
                return V([C(len(v.c))]) if t.a[1] == "shape" else C(len(v.c))
        return super().ev(t)

    def func(self, n, args, kw):
        if n == "where" and len(args) == 3:
            def f(c, a, b):
                if c.op != "const":
                    raise Undecided("mask")
                return a if c.a[0] else b
            return self.zip(f, *args)
        if n in ("max", "min", "mean", "sum", "amax", "amin") and len(args) == 1 and set(kw) == {"axis"} and isc(kw["axis"], 0):
            # over the batch of positions: every axis keeps its own
            v = self(args[0])
            if isinstance(v, V) and len(v.c) == self.D:
                return V([T("f", "over_" + n, (c,), ()) for c in v.c])
        if n in ("logical_not", "invert", "not_"):
            return self.zip(lambda c: C(not c.a[0]) if c.op == "const" else T("not", c), args[0])
        if n in ("concatenate", "hstack", "stack", "column_stack") and args and args[0].op in ("tuple", "list"):
            out = []
            for x in args[0].a:
                v = self(x)
                out += v.c if isinstance(v, V) else [v]
            return V(out)
        return super().func(n, args, kw)

    def call(self, t):
        fn, args, kw = t.a
        if fn.op == "global" and fn.a[0].startswith("appletree."):
            raise Undecided(fn.a[0])
        return super().call(t)


def transform(proj, book, tag, r, logs, n, L, U):
    f = r.heap.get((SELF, "apply"))
    if f is None or f.op == "phi":
        book.ob("args", tag, None, "the method that applies the map is not determined", r.loc)
        return
    p = par("$pos")
    v = method(proj, r, f, p)
    itp = r.heap.get((SELF, "interpolator"))
    cs = [x for x in walk(v) if x.op == "call" and (x.a[0] is itp or x.a[0] is attr(SELF, "interpolator"))] if v is not None else []
    if len(cs) != 1 or v is not cs[0]:
        book.ob("args", tag, None, f"the map is applied as {show(v)[:120] if v is not None else '?'}", r.loc)
        return
    a = list(cs[0].a[1])
    order_ = ["pos", "ref_pos_lowers", "ref_pos_uppers", "ref_val"] if n else ["pos", "ref_pos", "ref_val"]
    for k, x in cs[0].a[2]:
        if k in order_ and len(a) == order_.index(k):
            a.append(x)
    if len(a) != len(order_):
        book.ob("args", tag, None, f"{len(a)} arguments", r.loc)
        return
    D = max(n, 1)
    P = [par(f"$p{i}") for i in range(D)]
    syms = {p: P if n > 1 else P[0], par("$map"): par("$map")}
    for x in L + U:
        syms[x] = x
    ax = Num(D, syms, par("$none"))
    comp = []
    for x in a[:-1]:
        try:
            w = ax(canon(x))
        except Undecided as e:
            book.ob("args", tag, None, f"{show(x)[:120]}: {e}", r.loc)
            return
        w = w.c if isinstance(w, V) else [w]
        if len(w) != D:
            book.ob("args", tag, None, f"{len(w)} components for {D} axes", r.loc)
            return
        comp.append([canon(y) for y in w])
    m = canon(a[-1])
    while m.op == "f" and m.a[0] == "array" and not (set(dict(m.a[2])) - {"dtype"}):
        m = m.a[1][0]
    book.ob("values", tag, True if m is par("$map") else None if not m.op == "f" or not any(
        x.op == "f" and x.a[0] in LOGS for x in walk(m)) else False, f"the values handed over are {show(m)[:80]}", r.loc)
    leaves = [P, L, U] if n else [P, L]
    names = ["query", "lower coordinate", "upper coordinate"] if n else ["query", "coordinate"]
    good = True
    for c, ls, nm in zip(comp, leaves, names):
        got = {x for y in c for x in walk(y) if any(x is z for q in leaves for z in q)}
        if not got <= set(ls) and got:
            good = False
            book.ob("args", f"{tag}:{nm}", False, f"the {nm} handed to the interpolator is made of {sorted(show(x) for x in got)}", r.loc)
    if not good:
        return
    book.ob("args", tag, True, "query, coordinates, values", r.loc)
    x = par("$x")
    for i, lg in enumerate(logs):
        ts = [subst(c[i], {ls[i]: x}) for c, ls in zip(comp, leaves)]
        tg = f"{tag}:axis{i}"
        if not lg:
            bad = [(nm, t) for nm, t in zip(names, ts) if t is not x]
            ok = True if not bad else None
            for nm, t in bad:
                k = scale(t, x)
                if k is not None and k[0] == "log" or clipped(t, x) or not contains(t, lambda y: y is x) and not undecidable(t) and (t.op == "const" or plain(t)) or safe(lambda: equal(t, x)) is False and plain(t):
                    ok = False
                elif ok is None and safe(lambda: equal(t, x)) is True and len(bad) == 1:
                    ok = True
            book.ob("linear", tg, ok, "; ".join(f"the {nm} of a linear axis becomes {show(t)[:80]}" for nm, t in bad) or "unchanged", r.loc)
            continue
        ks = [scale(t, x) for t in ts]
        for nm, t, k in zip(names, ts, ks):
            if k is None:
                lost = not contains(t, lambda y: y is x) and plain(t)
                book.ob("log", f"{tg}:{nm}", False if lost else None, f"the {nm} becomes {show(t)[:100]}", r.loc)
            elif k[0] != "log":
                book.ob("log", f"{tg}:{nm}", False, f"the {nm} of a logarithmic axis becomes {show(t)[:80]}", r.loc)
            else:
                lo, hi = k[2], k[3]
                ok = False if lo is not None and lo > 1e-6 or hi is not None and hi < 1e6 else \
                    None if lo is not None and lo > 1e-20 or hi is not None and hi < 1e20 else True
                book.ob("log", f"{tg}:{nm}", ok, f"the {nm} is {show(t)[:80]}", r.loc)
        fs = {(k[1]) for k in ks if k is not None and k[0] == "log"}
        if len(ks) == len([k for k in ks if k is not None and k[0] == "log"]):
            book.ob("log", tg + ":same", len(fs) == 1, f"scales used: {sorted(map(str, fs))}", r.loc)


def safe(f):
    try:
        return f()
    except TooBig:
        return None


def clipped(t, x):
    """The coordinate itself cut off within the range of ordinary numbers."""
    k = scale(T("f", "log10", (t,), ()), x)
    return k is not None and (k[2] is not None and k[2] > -1e30 or k[3] is not None and k[3] < 1e30)


def plain(t):
    """Only arithmetic of the coordinate and constants."""
    return all(x.op in ("bin", "un", "const", "param") or x.op == "global" and val(x) is not None or x.op == "f" and x.a[0] in LOGS + ("exp", "abs", "sqrt", "clip", "maximum", "minimum") for x in walk(t))


def scale(t, x):
    """("log", factor-and-base key, lower guard, upper guard) or ("lin",) of a function of x."""
    if t is x:
        return ("lin",)
    if t.op == "f" and t.a[0] in LOGS and len(t.a[1]) == 1:
        a, lo, hi = t.a[1][0], None, None
        while a is not x:
            if a.op == "f" and a.a[0] == "clip" and len(a.a[1]) + len(a.a[2]) in (2, 3):
                kw = dict(a.a[2])
                l = a.a[1][1] if len(a.a[1]) > 1 else kw.get("min", kw.get("a_min"))
                h = a.a[1][2] if len(a.a[1]) > 2 else kw.get("max", kw.get("a_max"))
                for b, up in ((l, False), (h, True)):
                    if b is None or isc(b, None):
                        continue
                    v = val(b)
                    if v is None:
                        return None
                    if up:
                        hi = v if hi is None else min(hi, v)
                    else:
                        lo = v if lo is None else max(lo, v)
                a = a.a[1][0]
            elif a.op == "f" and a.a[0] in ("maximum", "minimum") and len(a.a[1]) == 2:
                q = [y for y in a.a[1] if not contains(y, lambda z: z is x)]
                v = val(q[0]) if len(q) == 1 else None
                if v is None:
                    return None
                if a.a[0] == "maximum":
                    lo = v if lo is None else max(lo, v)
                else:
                    hi = v if hi is None else min(hi, v)
                a = [y for y in a.a[1] if y is not q[0]][0]
            else:
                return None
        return ("log", (t.a[0], 1.0), lo, hi)
    if t.op == "bin" and t.a[0] in ("*", "/"):
        for p, q in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            k = scale(p, x)
            if k is not None and k[0] == "log" and not contains(q, lambda z: z is x) and (t.a[0] == "*" or p is t.a[1]):
                return ("log", (k[1][0], t.a[0], q), k[2], k[3])
    return None


def method(proj, r, f, p):
    if f.op == "attr" and f.a[0] is SELF:
        from ..vfg import Frame
        m = proj.method("Map", f.a[1])
        ev = r.ev
        ev.guard = ()
        ev.hook = None
        ev.stack.append(r.func)
        try:
            return ev.call_func(m, [SELF, p], [], Frame(r.func, {}), r.func.node, f)
        finally:
            ev.stack.pop()
    if f.op in ("closure", "partial"):
        return applied(r, f, p)
    return None


# -- rejection ------------------------------------------------------------------

class Num(Ax):
    """Conditions at build time for concrete representatives of the coordinates' signs."""

    def fold(self, t):
        t = canon(t)
        if t.op == "cmp" and t.a[1].op == "const" and t.a[2].op == "const":
            a, b = t.a[1].a[0], t.a[2].a[0]
            try:
                return C({"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b,
                          ">": lambda: a > b, ">=": lambda: a >= b}[t.a[0]]())
            except (KeyError, TypeError):
                return t
        if t.op == "not" and t.a[0].op == "const":
            return C(not t.a[0].a[0])
        return t

    def zip(self, f, *ts):
        v = super().zip(f, *ts)
        return V([self.fold(x) for x in v.c]) if isinstance(v, V) else self.fold(v)

    def ev(self, t):
        if t.op in ("and", "or"):
            un = None
            for x in t.a:
                try:
                    v = self(x)
                except Undecided as e:
                    un = e
                    continue
                if isinstance(v, V) or v.op != "const":
                    un = Undecided(show(x)[:60])
                elif bool(v.a[0]) == (t.op == "or"):
                    return C(t.op == "or")
            if un is not None:
                raise un
            return C(t.op == "and")
        if t.op == "bin" and t.a[0] in ("&", "|"):
            def f(a, b):
                if a.op == "const" and b.op == "const":
                    return C(bool(a.a[0] and b.a[0]) if t.a[0] == "&" else bool(a.a[0] or b.a[0]))
                raise Undecided("mask")
            return self.zip(f, *t.a[1:])
        if t.op == "item":
            try:
                m = self(t.a[1])
            except Undecided:
                m = None
            if isinstance(m, V) and m.c and all(x.op == "const" and isinstance(x.a[0], bool) for x in m.c):
                v = self(t.a[0])
                if isinstance(v, V) and len(v.c) == len(m.c):
                    return V([x for x, k in zip(v.c, m.c) if k.a[0]])
        if t.op == "comp":
            raise Undecided("comprehension")
        return super().ev(t)

    def reduce(self, n, v):
        xs = [x.a[0] for x in v.c if x.op == "const"] if isinstance(v, V) else [v.a[0]] if v.op == "const" else None
        if xs is None or isinstance(v, V) and len(xs) != len(v.c) or not xs and n in ("min", "max"):
            raise Undecided(n)
        return C({"any": any, "all": all, "min": min, "max": max, "sum": sum, "count_nonzero": lambda q: sum(map(bool, q))}[n](xs))

    def func(self, n, args, kw):
        if n in ("any", "all", "min", "max", "sum", "count_nonzero", "amin", "amax") and len(args) == 1 and not kw:
            return self.reduce(n[1:] if n in ("amin", "amax") else n, self(args[0]))
        if n in ("logical_and", "logical_or"):
            return self.ev(T("bin", "&" if n == "logical_and" else "|", *args))
        return super().func(n, args, kw)

    def call(self, t):
        fn, args, kw = t.a
        if fn.op == "global" and fn.a[0] in ("builtins.any", "builtins.all", "builtins.min", "builtins.max", "builtins.sum") and len(args) == 1:
            return self.reduce(fn.a[0].split(".")[1], self(args[0]))
        if fn.op == "global" and fn.a[0] in ("builtins.bool", "builtins.float", "builtins.int") and len(args) == 1:
            return self(args[0])
        return super().call(t)


def fires(r, env):
    """(True/False/None, location): does building raise in this world?"""
    ax = Num(1, env, par("$none"))
    un = None
    for e in raises(r):
        g = canon(conj(list(e.guard) + ([neg(e.value)] if e.kind == "assert" and e.value is not None else [])))
        g = inexc(g)
        try:
            v = ax(g)
        except Undecided as x:
            un = (str(x), e.loc)
            continue
        if isinstance(v, V) or v.op != "const":
            un = (show(g)[:80], e.loc)
        elif v.a[0]:
            return True, "", e.loc
    if un is not None:
        return None, un[0], un[1]
    return False, "", None


def inexc(g):
    """The file is assumed to have been read and the interpolation method to be known."""
    def f(x):
        if x.op in ("exc", "raised", "except"):
            return C(False)
        if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[1] is attr(SELF, "method"):
            return C(x.a[0] == "in")
        return x
    return canon(rewrite(g, f))


def reject(book, tag, r, logs, n, L, U):
    D = max(n, 1)
    verdict, why, at, cnt = True, "", r.loc, 0
    xs = L + U
    vals = (-1.0, 0.0, 2.0)
    if n <= 2:
        combos = list(itertools.product(vals, repeat=len(xs)))
    else:
        combos = [tuple(v if j == i else 2.0 for j in range(len(xs))) for i in range(len(xs)) for v in vals]
    for cs in combos:
        env = {x: C(c) for x, c in zip(xs, cs)}
        if n:
            want = any(logs[i] and (cs[i] <= 0 or cs[n + i] <= 0) for i in range(n))
        else:
            want = logs[0] and min(cs) <= 0
        got, w, loc = fires(r, env)
        cnt += 1
        if got is None:
            verdict, why, at = (None if verdict is True else verdict), why or w, loc or at
        elif got != want:
            c = {show(x)[1:]: v for x, v in zip(xs, cs)}
            verdict, why, at = False, f"with coordinates {c} building {'fails' if got else 'does not fail'}", loc or r.loc
            break
    book.ob("reject", tag, verdict, why or f"{cnt} sign patterns of the coordinates", at)


def density(book, tag, r, lg, L, U):
    got, w, loc = fires(r, {x: C(2.0) for x in L + U})
    book.ob("density", tag, None if got is None else got == lg, w or f"a {'logarithmic' if lg else 'linear'} density axis is {'rejected' if got else 'accepted'}", loc or r.loc)
