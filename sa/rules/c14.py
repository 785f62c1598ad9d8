"""C14: the log-likelihood is Poisson, -inf for unusable expectations, never NaN."""

import math

from ..help import *
from ..numer import Unknown
from ..tensor import Arr, Tensor, arr, outcome, single
from ..signs import Signs
from .c16 import is_minf

META = {
    "level": "other",
    "technique": "abstract interpretation of the likelihood over the sign classes (negative, zero, positive, infinite, NaN) of a bin",
    "explain": "Every path of the likelihood is evaluated in each world of bin classes: positive finite everywhere, and each kind of unusable "
               "bin alone or among good ones; guards and values are interpreted in the sign domain.  In the good world the value is "
               "compared as a normal form (sums distributed over addition) with sum(n log m - m).",
    "rules": {
        "points": "the log-likelihoods of sample histograms and densities (all classes of bins and of NaN), evaluated by array algebra, have the stated values",
        "minus_inf": "with a negative, zero, infinite or NaN expectation in any bin every reachable path returns -inf",
        "poisson": "with positive finite expectations every reachable path returns sum(n*log(m) - m)",
        "model": "m is the model histogram simulated with the caller's batch size and parameters",
        "lit": "the literature likelihood is the efficiency-weighted sum of the log density at the simulated yields; NaN becomes -inf",
        "density": "each literature density is evaluated at the simulated yields (and energies, for the band)",
    },
    "assumptions": ["numpy's elementwise functions follow IEEE rules", "data counts are non-negative"],
}
BAD = ("neg", "zero", "inf", "nan")
MH = "_simulate_model_hist"


def check(proj, book):
    book.step("likelihood", binned, proj, book)
    book.step("lit", lit, proj, book)
    book.step("density", densities, proj, book)
    book.step("points", binned_points, proj, book)
    book.step("points", lit_points, proj, book)
    book.floor("minus_inf", 4)


def value(t):
    return canon(item(t, C(1)))


def binned(proj, book):
    r = run(proj, "Likelihood", "get_log_likelihood", opaque=opq(MH))
    loc = r.loc
    ms = calls(r, MH)
    N = attr(SELF, "data_hist")
    ct = callterms(r, MH)
    if len(ms) != 1 or len(ct) != 1:
        book.ob("model", "get_log_likelihood", None, f"{len(ms)} simulations of the model histogram", loc)
        return
    M = canon(item(ct[0], C(1)))
    e = ms[0]
    book.ob("model", "batch_size", same(arg(e, 1, "batch_size"), par("batch_size")) if arg(e, 1, "batch_size") is not None else False,
            f"batch size handed over is {show(arg(e, 1, 'batch_size'))[:60] if arg(e, 1, 'batch_size') else 'missing'}", e.loc)
    p = arg(e, 2, "parameters")
    ok = False if p is None else True if p is par("parameters") else None if contains(p, lambda x: x is par("parameters")) else False
    book.ob("model", "parameters", ok, f"parameters handed over are {show(p)[:80] if p else 'missing'}", e.loc)
    ex = rets(r)
    want = linsum(spec(proj, "likelihood", "poisson", n=N, m=M))
    worlds = [(("pos",), ["zero"]), (("pos",), ["pos"])] + [(x, ["zero", "pos"]) for c in BAD for x in ((c,), ("pos", c))]
    for w, ns in worlds:
        S = Signs({N: set(ns), M: set(w)}, (M, w))
        rule = "poisson" if w == ("pos",) else "minus_inf"
        name = "+".join(w) + (":data " + ns[0] if rule == "poisson" else "")
        zero = {N: C(0)} if ns == ["zero"] else {}
        ok, why, at = True, f"world {name}: every reachable path conforms", loc
        for g, t, l in ex:
            tv, exact = S.truth(canon(g))
            if tv == {False} and exact:
                continue
            v = value(t)
            if w == ("pos",):
                v = in_world(v, S)
                s = same(linsum(subst(v, zero)), linsum(subst(want, zero))) if not is_minf(v) else False
                if s is not False and S.scalar(v)[0] == {"nan"}:
                    s = False
            else:
                v = in_world(v, S)
                A, ex2 = S.scalar(v)
                s = True if is_minf(v) or A == {"ninf"} else False if ex2 else None
            if s is not True and not exact:
                s = None
            if s is not True and ok is not False:
                ok, why, at = s, f"bins {name}: a reachable path returns {show(v)[:200]}", l
        for e2 in raises(r):
            c = conj(e2.guard)
            if e2.kind == "assert":
                c = conj(list(e2.guard) + [neg(e2.args[0])]) if e2.args else c
            tv, exact = S.truth(canon(c))
            if True in tv and exact:
                ok, why, at = False, f"bins {name}: a reachable path raises", e2.loc
        book.ob(rule, name, ok, why, at)


def in_world(v, S):
    """Resolve conditional values whose condition is decided for every bin."""
    def f(x):
        if x.op == "f" and x.a[0] == "where" and len(x.a[1]) == 3:
            s, e = S.quant("all", x.a[1][0])
            if s == {True}:
                return x.a[1][1]
            s, e = S.quant("any", x.a[1][0])
            if s == {False}:
                return x.a[1][2]
        if x.op == "phi":
            s, e = S.truth(x.a[0])
            if s == {True}:
                return x.a[1]
            if s == {False}:
                return x.a[2]
        return x
    return rewrite(canon(v), f)


# -- literature ---------------------------------------------------------------

def lit(proj, book):
    r = run(proj, "LikelihoodLit", "get_log_likelihood", opaque=opq("_simulate_yields"))
    cs = calls(r, "_simulate_yields")
    ct = callterms(r, "_simulate_yields")
    if len(cs) != 1 or len(ct) != 1:
        book.ob("lit", "simulation", None, "no single simulation of the yields", r.loc)
        return
    e = cs[0]
    p = arg(e, 2, "parameters")
    ok = False if p is None else True if p is par("parameters") else None if contains(p, lambda x: x is par("parameters")) else False
    book.ob("lit", "parameters", ok, f"parameters handed over are {show(p)[:80] if p else 'missing'}", e.loc)
    b = arg(e, 1, "batch_size")
    book.ob("lit", "batch_size", True if b is not None and isc(b, 1) else None,
            f"batch size handed over is {show(b)[:60] if b is not None else 'missing'}", e.loc)
    res = item(ct[0], C(1))
    want = linsum(spec(proj, "likelihood", "lit", logpdf=attr(SELF, "logpdf"), e=idx(res, 0), y=idx(res, 1), eff=idx(res, 2)))
    three = {idx(res, -1): idx(res, 2), idx(res, -2): idx(res, 1), idx(res, -3): idx(res, 0)}
    for nan in (False, True):
        def f(x):
            if x.op == "f" and x.a[0] in ("isnan", "isfinite", "isinf") and len(x.a[1]) == 1 and (
                    not nan or same(linsum(x.a[1][0]), want)):
                return C({"isnan": nan, "isfinite": not nan, "isinf": False}[x.a[0]])
            if x.op == "cmp" and x.a[1] is x.a[2] and x.a[0] in ("==", "!=") and (
                    not nan or same(linsum(x.a[1]), want)):
                return C((x.a[0] == "!=") == nan)
            if x.op == "f" and x.a[0] == "where" and len(x.a[1]) == 3 and isc(x.a[1][0], True, False):
                return x.a[1][1] if x.a[1][0].a[0] else x.a[1][2]
            if x.op == "f" and x.a[0] == "nan_to_num" and (not nan or same(linsum(x.a[1][0]), want)):
                v = dict(x.a[2]).get("nan", x.a[1][2] if len(x.a[1]) > 2 else C(0.0))
                return v if nan else x.a[1][0]
            return x
        ok, why, at = True, "every reachable path conforms", r.loc
        for g, t, l in rets(r):
            g2 = rewrite(canon(subst(g, three)), f)
            if isc(g2, False):
                continue
            v = rewrite(canon(subst(value(t), three)), f)
            if v.op == "phi":
                s = None
            elif nan:
                s = is_minf(v) or (None if undecidable(v) else False)
            else:
                s = same(linsum(v), want)
            if s is not True and not isc(g2, True):
                s = None if s is None or g2.op in ("loopout", "unknown") else s
            if s is not True and ok is not False:
                ok, why, at = s, f"with {'NaN' if nan else 'finite'} density the result is {show(v)[:200]}", l
        book.ob("lit", "nan" if nan else "sum", ok, why, at)


def densities(proj, book):
    r = run(proj, "LikelihoodLit", "__init__", opaque=opq("logpdf"))
    v = r.heap.get((SELF, "logpdf"))
    if v is None:
        book.ob("density", "logpdf", None, "no density is set in the constructor", r.loc)
        return
    kinds = {"twohalfnorm": ("TwoHalfNorm.logpdf", None), "norm": ("norm.logpdf", None), "band": ("logpdf", "x")}
    vt = [x for x in walk(v) if x.op == "cmp" and isc(x.a[2], *kinds) or x.op == "cmp" and isc(x.a[1], *kinds)]
    X, Y = T("param", "energies"), T("param", "yields")
    for k in kinds:
        m = {}
        for x in vt:
            c = x.a[2] if x.a[2].op == "const" else x.a[1]
            m[x] = C((c.a[0] == k) == (x.a[0] == "=="))
        c = subst(v, m)
        if c.op != "closure":
            book.ob("density", k, None, f"density is {show(c)[:120]}", r.loc)
            continue
        body = applied(r, c, X, Y)
        if k == "band" and body.op != "call":
            # the band's own method, inlined or not: it has to depend on both
            ok = contains(body, lambda z: z is X) and contains(body, lambda z: z is Y)
            book.ob("density", k, ok or None, f"density is {show(body)[:160]}", r.loc)
            continue
        if body.op != "call":
            dep = contains(body, lambda z: z is Y)
            book.ob("density", k, True if dep else False, f"density {k} is {show(body)[:160]}", r.loc)
            if contains(body, lambda z: z is X):
                book.ob("density", k + ":energies", False, f"density {k} depends on the energies: {show(body)[:160]}", r.loc)
            continue
        args, kw = body.a[1], dict(body.a[2])
        x = kw.get("x", args[0] if args else None)
        if k == "band":
            y = kw.get("y", args[1] if len(args) > 1 else None)
            ok = x is X and y is Y
        else:
            ok = x is Y
        book.ob("density", k, ok, f"density {k} is evaluated as {show(body)[:160]}", r.loc)
        want = {"twohalfnorm": "TwoHalfNorm.logpdf", "norm": "norm.logpdf", "band": "logpdf"}[k]
        h = head(body.a[0])
        book.ob("density", k + ":function", True if show(body.a[0]).endswith(want) else
                False if h.endswith("logpdf") else None,
                f"density {k} calls {show(body.a[0])[:80]}", r.loc)
        la = [x for x in kw.items() if x[0] is None] if k != "band" else [1]
        book.ob("density", k + ":args", True if la else None, "the configured density arguments are handed over", r.loc)
    book.step("band", band, proj, book)


def band(proj, book):
    """The band density: the two-sided Gaussian at the interpolated centre and errors, -inf outside the band."""
    r0 = run(proj, "BandTwoHalfNorm", "__init__")
    cols = {}
    for (b, a), v in r0.heap.items():
        if v.op == "call" and head(v.a[0]).endswith("interp1d"):
            kw = dict(v.a[2])
            x = kw.get("x", v.a[1][0] if v.a[1] else None)
            y = kw.get("y", v.a[1][1] if len(v.a[1]) > 1 else None)
            if isinstance(y, Term) and y.op == "param":
                cols[a] = y.a[0]
                book.ob("density", f"band:{y.a[0]}:axis", x is par("x"), f"{a} interpolates {show(y)} over {show(x)}", r0.loc)
    r = run(proj, "BandTwoHalfNorm", "logpdf", opaque=opq("TwoHalfNorm.logpdf"))
    ip = {T("call", attr(SELF, a), (par("x"),), ()): n for a, n in cols.items()}
    for nan in (False, True):
        def f(x):
            if x.op == "f" and x.a[0] in ("isnan", "isfinite") and canon(x.a[1][0]) in ip:
                return C((x.a[0] == "isnan") == nan)
            if x.op == "f" and x.a[0] == "where" and len(x.a[1]) == 3 and isc(x.a[1][0], True, False):
                return x.a[1][1] if x.a[1][0].a[0] else x.a[1][2]
            return x
        v = rewrite(canon(r.ret), f)
        if nan:
            book.ob("density", "band:outside", is_minf(v) or (None if undecidable(v) or v.op in ("f", "call", "phi") else False),
                    f"outside the band the log density is {show(v)[:160]}", r.loc)
            continue
        if v.op != "call" or head(v.a[0]).split(".")[-1] != "logpdf":
            book.ob("density", "band:inside", None, f"inside the band the log density is {show(v)[:160]}", r.loc)
            continue
        names = ("x", "mu", "sigma_pos", "sigma_neg")
        kw = {**dict(zip(names, v.a[1])), **dict(v.a[2])}
        want = {"mu": "y", "sigma_pos": "yerr_upper", "sigma_neg": "yerr_lower"}
        book.ob("density", "band:x", kw.get("x") is par("y"), f"the density is evaluated at {show(kw.get('x'))[:60]}", r.loc)
        for n, c in want.items():
            g = ip.get(kw.get(n))
            book.ob("density", "band:" + n, g == c if g else None,
                    f"{n} of the band density is the interpolated {g or show(kw.get(n) or NONE)[:60]}", r.loc)


INF, NAN = math.inf, math.nan


def judge(book, tag, r, cases, make, want):
    """Outcomes of sample cases: the wanted number, minus infinity where it is not one."""
    for name, case in cases:
        try:
            kind, v = outcome(r, make(case), 1)
            w = want(case)
            if kind == "raise":
                book.ob("points", f"{tag}:{name}", False, f"{name}: raises, expected {w}", v.loc)
                continue
            got = single(v)
        except (Unknown, TypeError, IndexError, KeyError) as e:
            book.ob("points", f"{tag}:{name}", None, f"{name}: not evaluated: {e}", r.loc)
            continue
        ok = got == w or math.isfinite(w) and abs(got - w) < 1e-5 * (1 + abs(w))
        book.ob("points", f"{tag}:{name}", ok, f"{name}: returns {round(got, 5)}" + ("" if ok else f", expected {round(w, 5)}"), r.loc)


def binned_points(proj, book):
    r = run(proj, "Likelihood", "get_log_likelihood", opaque=opq(MH))
    ct = callterms(r, MH)
    if len(ct) != 1:
        return
    M, N = canon(item(ct[0], C(1))), attr(SELF, "data_hist")
    cases = [("positive bins", ([3.0, 0.0, 7.0, 1.0], [2.5, 0.3, 9.0, 1e-4])), ("one bin", ([4.0], [3.0])), ("no data", ([0.0, 0.0], [1.5, 2.5])),
             ("two dimensions", ([[1.0, 2.0, 0.0], [5.0, 1.0, 3.0]], [[0.5, 2.5, 0.1], [4.0, 2.0, 2.0]])), ("large counts", ([1e4, 2e5], [1.1e4, 1.9e5]))]
    for what, x in (("an empty", 0.0), ("a negative", -0.5), ("a NaN", NAN), ("an infinite", INF), ("a negative infinite", -INF)):
        for n in (0.0, 2.0):
            cases += [(f"{what} bin with {'data' if n else 'no data'}", ([n, 3.0, 1.0], [x, 2.0, 1.0])),
                      (f"{what} last bin with {'data' if n else 'no data'}", ([[3.0, 1.0], [1.0, n]], [[2.0, 1.0], [0.5, x]]))]
    cases += [("all bins empty", ([0.0, 0.0], [0.0, 0.0])), ("NaN and empty", ([1.0, 0.0], [NAN, 0.0])), ("infinite and negative", ([1.0, 0.0], [INF, -1.0]))]

    def want(c):
        n, m = arr(c[0]).d, arr(c[1]).d
        if any(not 0 < x < INF for x in m):
            return -INF
        return sum(a * math.log(b) - b for a, b in zip(n, m))
    judge(book, "binned", r, cases, lambda c: Tensor({N: arr(c[0]), M: arr(c[1])}, proj=proj), want)


class Density(Tensor):
    """The log density of (energies, yields) is given."""

    def foreign(self, t):
        if t.a[0] is attr(SELF, "logpdf"):
            a, kw = self.args(t)
            a += [kw[k] for k in ("x", "y") if k in kw]
            if len(a) == 2 and all(isinstance(x, Arr) for x in a):
                if (a[0].d, a[1].d) == (self.env["energies"].d, self.env["yields"].d):
                    return self.env["density"]
                # another point has another density
                return Arr(a[0].shape, [37.0 + i for i in range(len(a[0].d))])
        return super().foreign(t)


def lit_points(proj, book):
    r = run(proj, "LikelihoodLit", "get_log_likelihood", opaque=opq("_simulate_yields"))
    ct = callterms(r, "_simulate_yields")
    if len(ct) != 1:
        return
    res = canon(item(ct[0], C(1)))
    x, y = [1.0, 4.0, 2.0], [9.0, 7.0, 8.0]
    cases = [("finite", ([-1.0, -2.5, -0.3], [1.0, 0.5, 0.2])), ("no efficiency", ([-1.0, -2.5, -0.3], [0.0, 0.0, 0.0])), ("impossible yield", ([-1.0, -INF, -0.3], [1.0, 0.5, 0.2])),
             ("NaN", ([-1.0, NAN, -0.3], [1.0, 0.5, 0.2])), ("NaN efficiency", ([-1.0, -2.0, -0.3], [1.0, NAN, 0.2])), ("all NaN", ([NAN] * 3, [1.0] * 3)),
             ("NaN without efficiency", ([-1.0, NAN, -0.3], [1.0, 0.0, 0.2])), ("infinite without efficiency", ([-1.0, -INF, -0.3], [1.0, 0.0, 0.2]))]

    def make(c):
        d, eff = arr(c[0]), arr(c[1])
        v = [arr(x), arr(y), eff]
        return Density({res: v, "energies": v[0], "yields": v[1], "density": d}, proj=proj)

    def want(c):
        s = sum(a * b for a, b in zip(*c))
        return -INF if s != s else s
    judge(book, "lit", r, cases, make, want)
