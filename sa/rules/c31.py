"""C31: samplers and densities are built by the defining construction of their distribution."""

import ast
import copy
import math
import random

from ..help import *
from ..numer import Point, Unknown, agree, draw_of, draws, plain
from ..terms import show
from ..world import World

META = {
    "level": "other",
    "technique": "symbolic evaluation of samplers to closed formulas over library draws; identity testing of the formulas against the defining constructions",
    "explain": "Each sampler is evaluated to a formula over its parameters and the draws of jax.random (uninterpreted functions of their parameters), "
               "which is compared, as a function, with the construction that defines the distribution: location-scale, gamma-Poisson mixture, branching "
               "process, two half normals, quantile expansion.  The shape handed to each draw, the loop of the branching process, the case split of the "
               "hybrid binomial sampler, the density of the two half normals and the equations its scales are solved from are decided likewise.",
    "rules": {
        "construct": "the value returned is the defining construction of the distribution from library draws",
        "shape": "every element of the output has its own draw; without a given shape it is that of all parameters broadcast",
        "loop": "the branching process starts with Poisson(lam (1 - eta)), each generation is Poisson(eta * last), all are counted, until none is left",
        "cases": "the hybrid binomial sampler counts successes up to the threshold and covers n = 0, p = 0 and p = 1 exactly",
        "mixture": "each half of the two half normals is taken with the probability that makes the density continuous",
        "density": "the density of the two half normals is normalised, and minus infinity outside a band",
        "errors": "the scales solved for leave half of the probability outside the errors on each side",
    },
    "assumptions": ["jax.random draws follow the distributions they are documented for, independently for different keys"],
}
MOD = "appletree.randgen."
R = {
    "uniform": {"vmin": (-3, 0), "vmax": (0.5, 4)}, "poisson": {"lam": (0.2, 30)}, "gamma": {"alpha": (0.5, 9), "beta": (0.3, 5)}, "normal": {"mean": (-4, 4), "std": (0.1, 3)},
    "truncate_normal": {"mean": (-1, 1), "std": (0.3, 2), "vmin": (-1.5, -0.2), "vmax": (0.1, 1.5)}, "skewnormal": {"a": (-4, 4), "loc": (-2, 2), "scale": (0.2, 3)}, "bernoulli": {"p": (0.05, 0.95)},
    "binomial": {"p": (0.05, 0.95), "n": (1, 60, 1)}, "negative_binomial": {"p": (0.05, 0.95), "n": (1, 30)},
}
DIST = {**{k: tuple(v) for k, v in R.items()}, "binomial_hybrid": ("p", "n"), "truncate_normal": ("mean", "std"), "generalized_poisson": ("lam", "eta"), "twohalfnorm": ("mu", "sigma_pos", "sigma_neg")}


def check(proj, book):
    for n in R:
        fs = proj.lookup_funcs(MOD + n)
        if not fs:
            book.ob("construct", n, None, "not found")
        for i, f in enumerate(fs):
            book.step(n, simple, proj, book, n, f, i)
    for f in (gpd, hybrid, halves, density, errors, keyed):
        book.step(f.__name__, f, proj, book)
    book.floor("construct", 8)
    book.floor("shape", 8)
    book.floor("density", 1)


def value(r):
    t = r.ret
    return None if t is None else item(t, C(1))


def evaluate(proj, f, opaque=None, **args):
    e = World(proj, opaque=opaque)
    r = e.run(f, args=args)
    r.func, r.loc, r.ev = f, f.loc, e
    return r


def simple(proj, book, n, f, i):
    r = evaluate(proj, f, opaque=opq("binomial_hybrid"))
    v = value(r)
    tag = n if not i else f"{n}:{i + 1}"
    if v is None:
        book.ob("construct", tag, None, "not evaluated", f.loc)
        return
    if n == "binomial":
        c = [x for x in walk(v) if x.op == "call" and head(x.a[0]).endswith("binomial_hybrid")]
        if c:
            g = {}
            hf = proj.func("binomial_hybrid")
            names = [a.arg for a in hf.node.args.args]
            g.update(zip(names, c[0].a[1]))
            g.update(dict(c[0].a[2]))
            ok = both([g.get(k) is not None and (g[k] is par(k) or (None if undecidable(g[k]) else plain(g[k]) is par(k))) for k in ("p", "n")])
            if plain(v) is not item(c[0], C(1)) and plain(v) is not c[0]:
                ok = ok and None
            book.ob("construct", tag, ok, f"forwards p and n to the hybrid sampler: {', '.join(f'{k}={show(g[k])[:20]}' for k in ('p', 'n') if k in g)}", f.loc)
            return
    w = spec(proj, "samplers", n, **{a: par(a) for a in R[n]})
    if n == "bernoulli" and (q := share(v)) is not None:
        book.ob("construct", tag, *q, f.loc)
        shapes(book, tag, n, r, v)
        return
    ok, why = agree(v, w, {par(k): x for k, x in R[n].items()})
    book.ob("construct", tag, ok, why, f.loc)
    shapes(book, tag, n, r, v)


def share(v):
    """A success decided by one uniform draw: the share of the unit interval that succeeds must be p."""
    v = plain(v)
    ds = draws(v)
    if [k for k, _ in ds] != ["uniform"]:
        return None
    N = 1000
    try:
        for p in (0.0, 0.07, 0.3, 0.5, 0.81, 1.0):
            xs = [Point({par("p"): p}, {ds[0]: (i + 0.5) / N}).val(v) for i in range(N)]
            if any(x not in (0, 1) for x in xs):
                return None, "not a success or failure"
            if abs(sum(xs) / N - p) > 2 / N:
                return False, f"succeeds with probability {sum(xs) / N:.3g} at p={p:g}"
    except Unknown as e:
        return None, f"not evaluated: {e}"
    return True, "succeeds with probability p"


def both(xs):
    xs = list(xs)
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


# ---- shapes

SH = T("param", "$shape")


def shapes(book, tag, n, r, v):
    """Shape of every draw, with a shape given and without."""
    ps = DIST[n]
    for x in walk(v):
        d = draw_of(x)
        if d is None:
            continue
        kind, which, kw = d
        s = kw.get("shape")
        ps_ = [k for k in kw if k not in ("shape", "dtype")]
        if s is None:
            ok = False if kind in ("normal", "uniform", "exponential") and not ps_ and not contains(v, lambda y: y.op == "call" and head(y.a[0]).split(".")[-1] in ("vmap", "map")) else None
            if ok is None:
                # the shape of the parameters
                shp = [y.a[1][1] for k in ps_ for y in walk(kw[k]) if y.op == "call" and head(y.a[0]).endswith("broadcast_to") and len(y.a[1]) > 1]
                ok = given(shp[0], ps) if shp else None
            book.ob("shape", f"{tag}:{kind}", ok, "one draw is shared by all elements" if ok is False else "shape of the parameters", r.loc)
            continue
        if n == "binomial_hybrid" and kind == "uniform":
            continue
        ok = given(s, ps)
        book.ob("shape", f"{tag}:{kind}", ok, f"drawn with shape {show(s)[:100]}", r.loc)


def given(s, ps):
    """Is s the shape given, or else that of all parameters?"""
    while s.op == "or" and len(s.a) == 2 and (s.a[0].op == "tuple" and not s.a[0].a or isc(s.a[0], ())):
        s = s.a[1]
    if s.op == "call" and head(s.a[0]).endswith("numpy.shape") and s.a[1] and (s.a[1][0].op == "attr" or s.a[1][0].op != "param"):
        # the shape of something drawn before
        inner = [d[2]["shape"] for x in walk(s.a[1][0]) if (d := draw_of(x)) is not None and d[2].get("shape") is not None]
        got = [given(q, ps) for q in inner]
        if True in got:
            return True
        if inner:
            return got[0]
    a = rewrite(s, lambda x: SH if x is par("shape") else x)

    def under(t, truth):
        def f(x):
            if x.op == "or" and x.a and x.a[0] is SH:
                return SH if truth else x.a[1] if len(x.a) == 2 else T("or", *x.a[1:])
            if x.op == "phi":
                c = x.a[0]
                t_ = c is SH or c.op == "cmp" and c.a[0] in ("!=",) and SH in c.a[1:] or c.op == "call" and head(c.a[0]) == "builtins.len" and c.a[1][0] is SH
                f_ = c.op == "not" and (c.a[0] is SH or c.a[0].op == "call" and head(c.a[0].a[0]) == "builtins.len") or c.op == "cmp" and c.a[0] == "==" and SH in c.a[1:]
                if t_ or f_:
                    return x.a[1] if bool(truth) == bool(t_) else x.a[2]
            return x
        return rewrite(t, f)
    t, e = under(a, True), under(a, False)
    if t is not SH:
        if t.op == "tuple" and not t.a or isc(t, ()):
            return False
        return None if contains(t, lambda x: x is SH) or undecidable(t) else False if not contains(t, lambda x: x.op in ("param", "unknown", "opaque", "closure")) or t.op == "call" and head(t.a[0]).endswith(("broadcast_shapes", ".shape")) else None
    if e.op == "or" and all(y.op == "call" and head(y.a[0]).split(".")[-1] in ("broadcast_shapes", "shape") for y in e.a):
        e = e.a[0]
    got = {x.a[0] for x in walk(e) if x.op == "param"}
    if contains(e, lambda x: x.op in ("unknown", "closure", "opaque")):
        return None
    if e.op == "call" and head(e.a[0]).split(".")[-1] in ("broadcast_shapes", "shape") or e.op == "attr":
        return True if set(ps) <= got else False
    return None


# ---- branching process

def gpd(proj, book):
    f = proj.func("generalized_poisson")
    r = evaluate(proj, f)
    v = value(r)
    loc = f.loc
    lam, eta = par("lam"), par("eta")
    loops = [x for x in walk(v) if x.op == "call" and head(x.a[0]).endswith("lax.while_loop")] if v is not None else []
    if len(set(loops)) != 1:
        book.ob("loop", "generalized_poisson", None, "loop not recognised", loc)
        return
    w = loops[0]
    kw = dict(w.a[2])
    a = list(w.a[1])
    cond, body, init = (a + [None] * 3)[:3] if len(a) == 3 else (kw.get("cond_fun", a[0] if a else None), kw.get("body_fun", a[1] if len(a) > 1 else None), kw.get("init_val"))
    if not isinstance(init, Term) or init.op != "tuple":
        book.ob("loop", "generalized_poisson", None, "state not recognised", loc)
        return
    syms = [par(f"$s{i}") for i in range(len(init.a))]
    st = T("tuple", *syms)
    try:
        nb = applied(r, body, st)
        nc = applied(r, cond, st)
    except Exception as e:
        book.ob("loop", "generalized_poisson", None, f"loop not evaluated: {type(e).__name__}", loc)
        return
    if not isinstance(nb, Term) or nb.op != "tuple" or len(nb.a) != len(syms):
        book.ob("loop", "generalized_poisson", None, "state not recognised", loc)
        return
    new = [plain(x) for x in nb.a]
    ini = [plain(x) for x in init.a]
    gen = [i for i, x in enumerate(new) if (d := draw_of(strip(x))) and d[0] == "poisson"]
    if len(gen) > 1 and len({strip(new[i]) for i in gen}) == 1:
        m = draw_of(strip(new[gen[0]]))[2].get("lam")
        gen = [i for i in gen if contains(m, lambda y: y is syms[i])][:1] or gen
    if len(gen) != 1:
        ok = False if not any(contains(x, lambda y: draw_of(y) is not None) for x in new) else None
        book.ob("loop", "generation", ok, "no generation is drawn" if ok is False else "several generations", loc)
        return
    g = gen[0]
    rng = {lam: (0.5, 20), eta: (0.05, 0.9), **{s: (1, 40, 1) for s in syms}}
    mean = draw_of(strip(new[g]))[2].get("lam")
    ok, why = agree(mean, T("bin", "*", eta, syms[g]), rng)
    book.ob("loop", "generation", ok, f"mean of the next generation: {why}", loc)
    # everything is counted
    i = item_index(plain(v), w)
    if i is None:
        book.ob("loop", "total", None, "what is returned is not recognised", loc)
    elif i == g:
        book.ob("loop", "total", False, "the last generation is returned", loc)
    else:
        fresh = T("param", "$g")
        t = subst(new[i], {new[g]: fresh, strip(new[g]): fresh})
        rr = {**rng, fresh: (0, 30, 1)}
        a1, w1 = agree(t, T("bin", "+", syms[i], fresh), rr)
        a2, w2 = agree(t, T("bin", "+", syms[i], syms[g]), rr)
        same_start = ini[i] is ini[g] or strip(ini[i]) is strip(ini[g])
        zero = isc(ini[i], 0, 0.0)
        ok = True if a1 and same_start or a2 and zero else None if None in (a1, a2) else False
        book.ob("loop", "total", ok, "all generations, the first included, are counted" if ok else f"counts {show(t)[:60]} starting from {show(ini[i])[:60]}", loc)
    d = draw_of(strip(ini[g]))
    if d is None or d[0] != "poisson":
        book.ob("loop", "start", None, "the first generation is not recognised", loc)
    else:
        ok, why = agree(d[2]["lam"], T("bin", "*", lam, T("bin", "-", C(1), eta)), rng)
        book.ob("loop", "start", ok, f"mean of the first generation: {why}", loc)
    # until none is left
    ok = None
    c = plain(nc) if isinstance(nc, Term) else None
    if c is not None:
        ok = ends(c, syms[g])
    book.ob("loop", "end", ok, f"goes on while {show(c)[:80] if c is not None else '?'}", loc)
    shapes(book, "generalized_poisson", "generalized_poisson", r, init.a[g])


def strip(t):
    while t.op == "f" and t.a[0] in ("toint", "round", "array"):
        t = t.a[1][0]
    return t


def item_index(t, w):
    t = strip(t)
    for x in walk(t):
        if t is x and x.op == "item" and x.a[1].op == "const" and (x.a[0].op == "f" and x.a[0].a[0] == "while_loop" or x.a[0].op == "call" and head(x.a[0].a[0]).endswith("while_loop")):
            return x.a[1].a[0]
    return None


def ends(c, s):
    """any(s > 0)"""
    n = c.a[0] if c.op == "f" else None
    if n in ("any", "max", "sum", "amax") and c.a[1]:
        b = c.a[1][0]
        if n == "any":
            return positive(b, s)
        return None
    if n == "all" and c.a[1]:
        b = positive(c.a[1][0], s)
        return False if b else None
    if c.op == "cmp" and c.a[0] in (">", "<", "!=", ">=", "<="):
        x = c.a[2] if c.a[0] in ("<", "<=") else c.a[1]
        z = c.a[1] if c.a[0] in ("<", "<=") else c.a[2]
        if x.op == "f" and x.a[0] in ("sum", "max", "amax") and x.a[1][0] is s and z.op == "const":
            return True if c.a[0] in (">", "<", "!=") and z.a[0] == 0 or c.a[0] in (">=", "<=") and z.a[0] == 1 else False
        if x.op == "f" and x.a[0] in ("min", "mean"):
            return False
    if c.op == "not" and c.a[0].op == "f" and c.a[0].a[0] == "all":
        b = c.a[0].a[1][0]
        return True if b.op == "cmp" and s in b.a[1:] and b.a[0] in ("==", "<=") and isc(b.a[2], 0) else None
    return None


def positive(b, s):
    if b is s:
        return True
    try:
        vs = [bool(Point({s: float(k)}).val(b)) for k in (0, 1, 2, 7)]
    except Unknown:
        return None
    return vs == [False, True, True, True]


# ---- hybrid binomial

def PROB(e, r):
    """Any probability, also close to none and to certainty."""
    q = r.choice((r.uniform(0.02, 0.98), r.uniform(0.02, 0.98), 10 ** r.uniform(-5, -1.7)))
    return 1 - q if r.random() < 0.5 else q


def hybrid(proj, book):
    f = proj.func("binomial_hybrid")
    if f is None:
        return
    r = evaluate(proj, f)
    v = value(r)
    p, n, th = par("p"), par("n"), par("threshold")
    loc = f.loc
    if v is None:
        book.ob("cases", "binomial_hybrid", None, "not evaluated", loc)
        return
    v = plain(v)
    B = par("$count")
    sums = [x for x in walk(v) if x.op == "f" and x.a[0] in ("sum", "count_nonzero") and contains(x, lambda y: (d := draw_of(y)) is not None and d[0] == "uniform")]
    if len(set(sums)) != 1:
        book.ob("cases", "count", None, "counting of successes not recognised", loc)
    else:
        body = sums[0].a[1][0]
        ar = [x for x in walk(body) if x.op == "f" and x.a[0] == "arange"]
        us = [x for x in walk(body) if (d := draw_of(x)) is not None]
        ok, why = None, "counting of successes not recognised"
        if len(set(ar)) == 1 and len(set(us)) == 1:
            I, U = par("$i"), par("$u")
            b = subst(body, {ar[0]: I, us[0]: U})
            bad = None
            try:
                for nn in (0, 1, 2, 5):
                    for i in range(7):
                        for uu, pp in ((0.1, 0.3), (0.5, 0.3), (0.29, 0.3), (0.31, 0.3), (0.9, 0.95), (0.97, 0.95)):
                            got = Point({I: float(i), U: uu, n: float(nn), p: pp, th: 128.0}).val(b)
                            want = float(uu < pp and i < nn)
                            if got != want and bad is None:
                                bad = f"trial {i} of {nn} counts {got:g} at u={uu}, p={pp}"
                ok, why = bad is None, bad or "a trial counts if it is one of the n and succeeds"
            except Unknown as e:
                why = f"not evaluated: {e}"
            m = ar[0].a[1]
            k = [x for x in m if x.op != "const" or not isc(x, 0)]
            full = len(m) == 1 and plain(m[0]) is th
            book.ob("cases", "trials", True if full else None if undecidable(ar[0]) else False, f"trials are numbered {show(ar[0])[:60]}", loc)
        book.ob("cases", "count", ok, why, loc)
        v = subst(v, {sums[0]: B})
    r0 = {th: lambda e, r: 128.0}
    for tag, rg, want in (
            ("small", {p: PROB, n: (1, 128, 1), B: (0, 100, 1)}, B),
            ("edge", {p: PROB, n: lambda e, r: 128.0, B: (0, 100, 1)}, B),
            ("none", {p: (0.0, 1.0), n: lambda e, r: 0.0, B: lambda e, r: 0.0}, C(0)),
            ("never", {p: lambda e, r: 0.0, n: (0, 900, 1), B: lambda e, r: 0.0}, C(0)),
            ("always", {p: lambda e, r: 1.0, n: (0, 900, 1), B: lambda e, r: e[n]}, n)):
        ok, why = near(v, want, {**r0, **rg})
        book.ob("cases", tag, ok, why, loc)
    w = spec(proj, "samplers", "cornish_fisher", p=p, n=n)
    ok, why = agree(v, w, {**r0, n: (130, 4000, 1), p: PROB, B: (0, 100, 1)}, n=120)
    book.ob("construct", "binomial_hybrid", ok, why, loc)
    shapes(book, "binomial_hybrid", "binomial_hybrid", r, value(r))


def near(v, want, rg, n=40):
    """Value in a region where it must not depend on the draws."""
    r = random.Random(3)
    ds = draws(v)
    for i in range(n):
        env = {}
        for s, g in rg.items():
            env[s] = g(env, r) if callable(g) else float(r.randint(int(g[0]), int(g[1]))) if len(g) == 3 else r.uniform(*g)
        if par("$count") in env and env[par("$count")] > env[par("n")]:
            env[par("$count")] = env[par("n")]
        try:
            pt = Point(env, {d: r.random() for d in ds})
            a, b = pt.val(v), Point(env).val(want)
        except Unknown as e:
            return None, f"not evaluated: {e}"
        if not abs(a - b) < 1e-6:
            return False, f"{a:g} instead of {b:g} at n={env[par('n')]:g}, p={env[par('p')]:.3g}"
    return True, "as counted" if want is par("$count") else f"always {show(want)}"


# ---- two half normals

def numbered(f):
    """The function with every numpy draw told apart."""
    g = copy.copy(f)
    g.node = copy.deepcopy(f.node)
    k = 0
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call) and ast.unparse(x.func).startswith(("np.random.", "numpy.random.", "rng.")):
            k += 1
            x.keywords.append(ast.keyword("_n", ast.Constant(k)))
    return g


def halves(proj, book):
    for tag, f in (("twohalfnorm", proj.func("twohalfnorm")), ("TwoHalfNorm.rvs", proj.method("TwoHalfNorm", "rvs"))):
        if f is None:
            book.ob("mixture", tag, None, "not found")
            continue
        f = numbered(f)
        r = evaluate(proj, f)
        v = value(r) if tag == "twohalfnorm" else r.ret
        if v is None:
            book.ob("mixture", tag, None, "not evaluated", f.loc)
            continue
        ok, why = mixture(plain(v))
        book.ob("mixture", tag, ok, why, f.loc)
        if tag == "twohalfnorm":
            shapes(book, tag, tag, r, v)
        else:
            sizes(book, tag, v, f.loc)


def sizes(book, tag, v, loc):
    for x in walk(v):
        d = draw_of(x)
        if d is None:
            continue
        s = d[2].get("shape")
        book.ob("shape", f"{tag}:{d[0]}", False if s is None else True if s is par("size") else None, "drawn with the size given" if s is par("size") else "one draw is shared by all elements" if s is None else show(s)[:60], loc)


def mixture(v):
    mu, sp, sn = par("mu"), par("sigma_pos"), par("sigma_neg")
    ds = draws(v)
    us, zs = [d for d in ds if d[0] in ("uniform", "bernoulli")], [d for d in ds if d[0] == "normal"]
    if len(us) + len(zs) != len(ds):
        return None, f"draws of {', '.join(k for k, _ in ds)}"
    if not zs or not us:
        return False if ds else None, f"only draws of {', '.join(k for k, _ in ds)}"
    if len(us) > 2 or len(zs) > 2:
        return None, "many draws"
    r = random.Random(5)
    K = 400 if len(us) == 1 else 40
    grid = [(i + 0.5) / K for i in range(K)]
    for _ in range(12):
        a, b, m = r.uniform(0.3, 3), r.uniform(0.3, 3), r.uniform(-2, 2)
        zz = {z: r.random() for z in zs}
        absz = {z: abs(math.tan((u - 0.5) * 2.2)) for z, u in zz.items()}
        up = 0
        for ps in ([(g,) for g in grid] if len(us) == 1 else [(g, h) for g in grid for h in grid]):
            pt = Point({mu: m, sp: a, sn: b}, {**zz, **dict(zip(us, ps))})
            try:
                x = pt.val(v)
            except Unknown as e:
                return None, f"not evaluated: {e}"
            pos = any(abs(x - m - a * q) < 1e-9 * (1 + abs(x)) for q in absz.values())
            neg_ = any(abs(x - m + b * q) < 1e-9 * (1 + abs(x)) for q in absz.values())
            if not pos and not neg_:
                return False, f"the value {x:.4g} is neither mu + sigma_pos |z| nor mu - sigma_neg |z| at mu={m:.3g}, sigma_pos={a:.3g}, sigma_neg={b:.3g}"
            up += pos
        frac = up / K ** len(us)
        if abs(frac - a / (a + b)) > 2.0 / K:
            return False, f"the upper half is taken with probability {frac:.3f} instead of {a / (a + b):.3f} at sigma_pos={a:.3g}, sigma_neg={b:.3g}"
    return True, "upper half with probability sigma_pos / (sigma_pos + sigma_neg)"


def density(proj, book):
    f = proj.method("TwoHalfNorm", "logpdf")
    ps = ("x", "mu", "sigma_pos", "sigma_neg")
    if f is None:
        book.ob("density", "TwoHalfNorm", None, "not found")
    else:
        r = evaluate(proj, f)
        w = spec(proj, "samplers", "two_half_norm_logpdf", **{k: par(k) for k in ps})
        rg = {par("x"): (-5, 5), par("mu"): (-1, 1), par("sigma_pos"): (0.2, 3), par("sigma_neg"): (0.2, 3)}
        ok, why = agree(r.ret, w, rg) if r.ret is not None else (None, "not evaluated")
        book.ob("density", "TwoHalfNorm", ok, why, f.loc)
    g = proj.method("BandTwoHalfNorm", "logpdf")
    if g is None:
        return
    h = proj.method("BandTwoHalfNorm", "__init__")
    e = World(proj)
    q = e.run(h, cls=proj.cls("BandTwoHalfNorm"))
    fields = {k: v for (o, k), v in q.heap.items() if o is SELF and isinstance(v, Term)}
    src = {}
    for k, v in fields.items():
        if v.op == "call" and head(v.a[0]).endswith("interp1d") and len(v.a[1]) > 1:
            src[k] = v.a[1][1].a[0] if v.a[1][1].op == "param" else None
            grid = v.a[1][0]
            book.ob("density", f"band:{k}", True if grid is par("x") else None if undecidable(grid) else False, f"{k} is interpolated over {show(grid)[:30]}", h.loc)
            kw = dict(v.a[2])
            fill = kw.get("fill_value")
            be = kw.get("bounds_error")
            book.ob("density", f"band:{k}:outside", True if isc(be, False) and fill is not None and "nan" in show(fill) else None, "not a number outside the band", h.loc)
    r = evaluate_method(proj, g)
    t = r.ret
    if t is None:
        book.ob("density", "BandTwoHalfNorm", None, "not evaluated", g.loc)
        return
    X = par("x")
    rep = {}
    for k, s in src.items():
        for y in walk(t):
            if y.op == "call" and y.a[0] is attr(SELF, k):
                rep[y] = par("$" + str(s)) if y.a[1] == (X,) else par("$other")
    t2 = plain(subst(t, rep))
    y = par("y")
    w = spec(proj, "samplers", "two_half_norm_logpdf", x=y, mu=par("$y"), sigma_pos=par("$yerr_upper"), sigma_neg=par("$yerr_lower"))
    rg = {y: (-4, 4), par("$y"): (-1, 1), par("$yerr_upper"): (0.2, 3), par("$yerr_lower"): (0.2, 3)}
    ok, why = agree(t2, w, rg)
    book.ob("density", "BandTwoHalfNorm", ok, why, g.loc)
    nan = float("nan")
    try:
        pt = Point({y: 0.3, par("$y"): nan, par("$yerr_upper"): nan, par("$yerr_lower"): nan})
        x = pt.val(t2)
        book.ob("density", "BandTwoHalfNorm:outside", x == -math.inf, f"{x:g} outside the band", g.loc)
    except Unknown as ex:
        book.ob("density", "BandTwoHalfNorm:outside", None, f"not evaluated: {ex}", g.loc)


def evaluate_method(proj, f):
    e = World(proj)
    r = e.run(f, cls=proj.cls("BandTwoHalfNorm"))
    r.func, r.loc, r.ev = f, f.loc, e
    return r


# ---- scales from errors

def errors(proj, book):
    f = proj.func("errors_to_two_half_norm_sigmas")
    E0, E1 = par("$e0"), par("$e1")
    es = T("list", E0, E1)
    e = World(proj)
    r = e.run(f, args={f.node.args.args[0].arg: es})
    r.func, r.loc, r.ev = f, f.loc, e
    loc = f.loc
    cs = [x for x in walk(r.ret)] if r.ret is not None else []
    cs = [x for x in cs if x.op == "call" and head(x.a[0]).endswith(("optimize.root", "fsolve"))]
    if len(set(cs)) != 1:
        book.ob("errors", "solve", None, "equations not recognised", loc)
        return
    c = cs[0]
    kw = dict(c.a[2])
    fn = c.a[1][0] if c.a[1] else kw.get("fun")
    more = kw.get("args", c.a[1][2] if len(c.a[1]) > 2 else T("tuple"))
    more = more.a if more.op == "tuple" else (more,)
    X = T("tuple", par("$x0"), par("$x1"))
    try:
        eq = applied(r, fn, X, *more)
    except Exception as e:
        book.ob("errors", "solve", None, f"not evaluated: {type(e).__name__}", loc)
        return
    if not isinstance(eq, Term) or eq.op not in ("list", "tuple") or len(eq.a) != 2:
        book.ob("errors", "solve", None, "equations not recognised", loc)
        return

    def f_(x):
        if x.op == "item" and x.a[0] is es and x.a[1].op == "const":
            return (E0, E1)[x.a[1].a[0]] if x.a[1].a[0] in (0, 1, -1, -2) else x
        if x.op == "call" and head(x.a[0]).endswith("chi2.cdf") and len(x.a[1]) == 2 and isc(x.a[1][1], 1) and x.a[1][0].op == "const":
            return C(math.erf(math.sqrt(x.a[1][0].a[0] / 2)))
        if x.op == "call" and head(x.a[0]).endswith("chi2.sf") and len(x.a[1]) == 2 and isc(x.a[1][1], 1) and x.a[1][0].op == "const":
            return C(1 - math.erf(math.sqrt(x.a[1][0].a[0] / 2)))
        if x.op == "call" and head(x.a[0]).endswith("norm.cdf") and len(x.a[1]) == 1 and x.a[1][0].op == "const":
            return C(0.5 * (1 + math.erf(x.a[1][0].a[0] / math.sqrt(2))))
        return x
    got = [plain(rewrite(x, f_)) for x in eq.a]
    w = spec(proj, "samplers", "tails", x0=par("$x0"), x1=par("$x1"), e0=E0, e1=E1, p=C(1 - math.erf(math.sqrt(0.5))))
    rg = {par("$x0"): (0.3, 3), par("$x1"): (0.3, 3), E0: (0.3, 3), E1: (0.3, 3)}
    for i in (0, 1):
        ok, why = scaled(got[i], w.a[i], rg)
        if ok is False and scaled(got[i], w.a[1 - i], rg)[0] and scaled(got[1 - i], w.a[i], rg)[0]:
            ok, why = True, "equations in the other order"
        book.ob("errors", f"side{i}", ok, why, loc)


def scaled(a, b, rg):
    """Equal up to sign and a positive factor that does not vanish: same zeros."""
    ok, why = agree(a, b, rg)
    if ok is not False:
        return ok, why
    r = random.Random(2)
    a, b = plain(a), plain(b)
    fs, sg = set(), set()
    for i in range(60):
        env = {s: r.uniform(*g) for s, g in rg.items()}
        try:
            x, y = Point(env).val(a), Point(env).val(b)
        except Unknown as e:
            return None, f"not evaluated: {e}"
        if math.isnan(x) or abs(y) < 1e-6:
            continue
        fs.add(round(x / y, 6))
        sg.add(x * y > 0)
    if len(fs) == 1:
        return True, "same equation up to a factor"
    return (None, "another form of the equation") if len(sg) == 1 else (False, why)


def keyed(proj, book):
    f = proj.func("uniform_key_vectorized")
    r = evaluate(proj, f)
    t = r.ret
    ok = None
    if t is not None and t.op == "call" and t.a[0].op == "call" and head(t.a[0].a[0]).endswith("vmap"):
        a = t.a[0].a[1]
        fn = a[0] if a else None
        if fn is not None and head(fn) == "jax.random.uniform" and t.a[1] == (par("key"),):
            ok = True
        elif fn is not None and fn.op == "global" and fn.a[0].startswith("jax.random.") and fn.a[0] != "jax.random.uniform":
            ok = False
    book.ob("construct", "uniform_key_vectorized", ok, f"{show(t)[:80] if t is not None else '?'}", f.loc)
