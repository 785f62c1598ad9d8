"""C17: start values in the allowed range and from the configured distribution; fixed stay fixed; set_parameter."""

from ..help import *

META = {
    "level": "other",
    "technique": "value-flow extraction of the stored value per parameter, specialised to every prior type, with a containment "
                 "test on the outermost bounding operation",
    "explain": "The value stored for a parameter by prior and start draws is extracted as a term, specialised to each prior type "
               "and decomposed into a bounding operation and a draw; bounds are matched with the allowed range, the draw with "
               "its specification in normal form.  set_parameter is evaluated for a name, a list and a dict.",
    "rules": {
        "range": "a drawn value is bounded by the lower and upper end of its own allowed range",
        "dist": "the value drawn before bounding is the configured distribution with its own arguments",
        "fixed": "a fixed parameter gets its configured value, unbounded and undrawn",
        "all": "the draw covers every configured parameter",
        "rvs": "two-sided draws: mode plus sigma_pos*|z| with probability sigma_pos/(sigma_pos+sigma_neg), else minus sigma_neg*|z|",
        "partition": "the fitted set is exactly the parameters whose prior type is not fixed",
        "store": "set_parameter stores each given value under its own name and touches nothing else",
        "unknown": "an unknown name is an error on every path that stores",
        "length": "names and values of different length are an error",
    },
    "assumptions": ["allowed ranges are ordered pairs", "numpy.clip(x, a, b) lies in [a, b] for a <= b"],
}
TYPES = ("norm", "twohalfnorm", "uniform", "free")


def rv(t):
    """numpy draws in location-scale form."""
    def f(x):
        if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0].startswith("numpy.random."):
            n = x.a[0].a[0].split(".")[-1]
            kw = dict(x.a[2])
            if n in ("normal", "uniform"):
                names = ("loc", "scale", "size") if n == "normal" else ("low", "high", "size")
                dflt = {"loc": C(0), "scale": C(1), "low": C(0), "high": C(1)}
                v = [x.a[1][i] if i < len(x.a[1]) else kw.get(k, dflt.get(k)) for i, k in enumerate(names)]
                if v[0] is not None and v[1] is not None:
                    z = T("param", "rv:" + n)
                    if isc(v[0], 0) and isc(v[1], 1):
                        return z
                    sc = v[1] if n == "normal" else binop("-", v[1], v[0])
                    return canon(binop("+", v[0], binop("*", sc, z)))
            if n in ("standard_normal", "randn"):
                return T("param", "rv:normal")
            if n in ("random", "rand", "random_sample"):
                return T("param", "rv:uniform")
        return x
    return rewrite(t, f)


def bounds(t, lo, hi):
    """(inner value, True/False/None): is t bounded by [lo, hi]?"""
    t = canon(expand_star(t))
    if t.op == "f" and t.a[0] == "array" and len(t.a[1]) == 1:
        return bounds(t.a[1][0], lo, hi)
    if t.op == "f" and t.a[0] == "clip" and len(t.a[1]) == 3:
        x, a, b = t.a[1]
        return x, a is canon(lo) and b is canon(hi)
    if t.op == "f" and t.a[0] in ("minimum", "maximum", "min", "max"):
        kind = t.a[0][:3]
        mine, other = (hi, lo) if kind == "min" else (lo, hi)
        rest = [x for x in t.a[1] if x is not canon(mine)]
        if len(rest) == len(t.a[1]) - 1 and len(rest) == 1:
            y = rest[0]
            if y.op == "f" and y.a[0][:3] == ("max" if kind == "min" else "min") and y.a[0] != kind:
                r2 = [x for x in y.a[1] if x is not canon(other)]
                if len(r2) == 1 and len(y.a[1]) == 2:
                    return r2[0], True
        return t, None
    return t, (None if undecidable(t) or t.op in ("phi", "loopout", "unknown") else False)


def stored(r):
    """The dict comprehension that replaces / updates the parameter store."""
    v = r.heap.get((SELF, "_parameter_dict"))
    if v is None:
        return None
    v = fuse(v)
    if v.op == "dictmerge":
        v = v.a[1]
    return v if v.op == "comp" and v.a[0] == "dict" and v.a[1].op == "tuple" else None


def check(proj, book):
    book.step("sample_prior", draws, proj, book, "sample_prior")
    book.step("sample_init", draws, proj, book, "sample_init")
    book.step("rvs", rvs, proj, book)
    book.step("partition", partition, proj, book)
    for k in ("str", "list", "dict"):
        book.step("set_parameter:" + k, setpar, proj, book, k)
    book.floor("range", 5)
    book.floor("store", 3)


def draws(proj, book, m):
    r = run(proj, "Parameter", m, opaque=opq("errors_to_two_half_norm_sigmas", "TwoHalfNorm.rvs"))
    c = stored(r)
    if c is None:
        book.ob("range", m, None, "stored values have no closed form: " + show(r.heap.get((SELF, "_parameter_dict"), NONE))[:200], r.loc)
        return
    _, body, lid, src, conds = c.a
    base = srcof(src)
    el = T("elem", lid, src)
    pd, pc = attr(SELF, "_parameter_dict"), attr(SELF, "par_config")
    fit = attr(SELF, "_parameter_fit")
    ok = base in (pd, pc) and not conds and body.a[0] is el
    book.ob("all", m, ok or (False if base is fit and not conds else None), f"draws over {show(base)[:80]}, filtered by {[show(x)[:60] for x in conds]}", r.loc)
    setting = idx(pc, el)
    R = idx(setting, "allowed_range")
    pt = idx(setting, "prior_type")
    isfit = [T("cmp", "in", el, fit)]
    for t in TYPES + ("fixed",):
        w = {pt: C(t), isfit[0]: C(t != "fixed"), T("cmp", "not in", el, fit): C(t == "fixed"),
             T("cmp", "in", el, attr(SELF, "_parameter_fixed")): C(t == "fixed")}
        v = canon(expand_star(fuse(subst(body.a[1], w))))
        rs = [subst(conj(e.guard), w) for e in raises(r)]
        if any(isc(x, True) for x in rs):
            book.ob("dist", f"{m}:{t}", False, f"a parameter of prior type {t} raises", r.loc)
            continue
        if v.op == "phi" and contains(v, lambda x: x.op == "except"):
            v = canon(rewrite(v, lambda x: x.a[2] if x.op == "phi" and contains(x.a[0], lambda y: y.op == "except") else x))
        if t == "fixed":
            want = idx(setting, "prior_args", "val")
            alts = splits(v) or [(TRUE, v)]
            ok = [same(a, want) for _, a in alts]
            if False not in ok and any(contains(a, lambda x: x.op == "param" and str(x.a[0]).startswith("rv:")) for _, a in
                                       [(0, rv(a)) for _, a in alts]):
                ok = [False]
            book.ob("fixed", m, False if False in ok else None if None in ok else True, f"a fixed parameter becomes {show(v)[:120]}", r.loc)
            continue
        alts = splits(v)
        alts = [(TRUE, v)] if alts is None or not alts else alts
        inner = None
        for _, a in alts:
            x, ok = bounds(a, idx(R, 0), idx(R, 1))
            inner = x
            book.ob("range", f"{m}:{t}", ok, f"the value drawn for a {t} parameter is {show(a)[:200]}", r.loc)
        if len(alts) == 1:
            want = spec(proj, "prior", "draw_" + (t if m == "sample_prior" else "free"), args=idx(setting, "prior_args"),
                        setting=setting)
            book.ob("dist", f"{m}:{t}", same(rv(inner), rv(canon(want))), f"drawn as {show(inner)[:200]}", r.loc)


def rvs(proj, book):
    r = run(proj, "TwoHalfNorm", "rvs")
    mu, sp, sn = par("mu"), par("sigma_pos"), par("sigma_neg")
    t = canon(rv(r.ret))
    u, z = T("param", "rv:uniform"), T("param", "rv:normal")
    atoms = {x for x in walk(t) if x.op == "cmp" and occurs(x, u)}
    if len(atoms) != 1:
        book.ob("rvs", "side", None, "the side is not chosen by one comparison: " + show(t)[:200], r.loc)
        return
    a = atoms.pop()
    res = {}
    for w in (True, False):
        def f(x, w=w):
            if x is a:
                return C(w)
            if x.op == "un" and x.a[0] in ("~", "not") and x.a[1].op == "const":
                return C(not x.a[1].a[0])
            if x.op == "f" and x.a[0] in ("where", "logical_not", "invert"):
                q = x.a[1]
                if x.a[0] == "where" and q[0].op == "const":
                    return q[1] if q[0].a[0] else q[2]
                if len(q) == 1 and q[0].op == "const":
                    return C(not q[0].a[0])
            return x
        y = rewrite(t, f)
        res[w] = canon(rewrite(y, lambda x: C(int(x.a[0])) if x.op == "const" and isinstance(x.a[0], bool) else x))
    absz = T("call", G("numpy.abs"), (z,), ())
    up = binop("+", mu, binop("*", absz, sp))
    dn = binop("-", mu, binop("*", absz, sn))
    frac = binop("/", sp, binop("+", sp, sn))
    # normalise the comparison: up with probability P(u < c)
    op, l, rr = a.a
    if occurs(rr, u):
        op, l, rr = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), rr, l
    below = op in ("<", "<=")
    pure = l is u
    low, high = (res[True], res[False]) if below else (res[False], res[True])
    s1, s2 = same(low, up), same(high, dn)
    s3 = same(rr, frac) if pure else None
    if s1 is True and s2 is True:
        book.ob("rvs", "probability", s3, f"upper side with probability {show(rr)[:80]}", r.loc)
    else:
        t1, t2 = same(low, dn), same(high, up)
        if t1 is True and t2 is True:
            book.ob("rvs", "probability", same(rr, binop("-", C(1), frac)) if pure else None, f"lower side with probability {show(rr)[:80]}", r.loc)
            s1 = s2 = True
    book.ob("rvs", "side", s1 if s1 is not True else s2, f"values {show(low)[:100]} / {show(high)[:100]}", r.loc)


def partition(proj, book):
    r = run(proj, "Parameter", "init_parameter", opaque=opq("sample_prior"))
    pc = attr(SELF, "par_config")
    for name, keep in (("_parameter_fit", False), ("_parameter_fixed", True)):
        v = r.heap.get((SELF, name))
        if v is None:
            book.ob("partition", name, None, "not assigned here", r.loc)
            continue
        v = fuse(v)
        cs = [x for x in walk(v) if x.op == "comp" and srcof(x.a[3]) is pc]
        if len(cs) != 1 or cs[0].a[1] is not T("elem", cs[0].a[2], cs[0].a[3]):
            book.ob("partition", name, None, f"{name} is {show(v)[:160]}", r.loc)
            continue
        c = cs[0]
        el = c.a[1]
        cond = conj(c.a[4])
        vals = [subst(cond, {idx(pc, el, "prior_type"): C(t)}) for t in TYPES + ("fixed",)]
        if not all(isc(x, True, False) for x in vals):
            # the type alone has to settle it: no comparison of another entry of the configuration may
            rest = [y for x in vals if not isc(x, True, False) for y in walk(x) if y.op == "cmp"]

            def entry(y):
                return y.op == "item" and y.a[0] is idx(pc, el) and y.a[1].op == "const" and y.a[1].a[0] in ("init_std", "init_mean", "allowed_range", "prior_args", "unit", "doc") \
                    or y.op == "call" and y.a[0] is attr(idx(pc, el), "get") and y.a[1] and y.a[1][0].op == "const" and y.a[1][0].a[0] in ("init_std", "init_mean", "unit", "doc") \
                    or y.op == "default" and entry(y.a[0])
            other = bool(rest) and all(y.a[0] in ("<", "<=", "==", "!=") and (entry(y.a[1]) and y.a[2].op == "const" and y.a[2] is not NONE
                                       or entry(y.a[2]) and y.a[1].op == "const" and y.a[1] is not NONE) for y in rest)
            book.ob("partition", name, False if other else None, f"membership depends on {show(cond)[:120]}", r.loc)
            continue
        got = [x.a[0] for x in vals]
        want = [(t == "fixed") == keep for t in TYPES + ("fixed",)]
        book.ob("partition", name, got == want, f"{name} holds prior types "
                f"{[t for t, g in zip(TYPES + ('fixed',), got) if g]}", r.loc)


def exist_test(g, ks, pd):
    """Does guard atom g say that every key is in pd?"""
    def notin(c, el):
        return c in (T("cmp", "not in", el, pd), neg(T("cmp", "in", el, pd)))

    def missing(c):
        return c.op == "comp" and (srcof(c.a[3]) is ks or c.a[3].op in ("list", "tuple") and c.a[3].a == (ks,)) and len(c.a[4]) == 1 and notin(c.a[4][0], T("elem", c.a[2], c.a[3]))
    if g.op == "cmp":
        op, l, r = g.a
        if op == "==" and (missing(l) and r.op in ("list", "set", "tuple") and not r.a or missing(r) and l.op == "list" and not l.a):
            return True
        if op in ("==", "<=", "<") and l.op == "call" and head(l.a[0]) == "builtins.len" and l.a[1] and missing(l.a[1][0]):
            return (op == "<" and isc(r, 1)) or (op != "<" and isc(r, 0))
        if op == "in" and r is pd and l is ks:
            return True
        if op == "<=" and srcof(l) is ks and srcof(r) is pd:
            return True
    if g.op == "not":
        x = g.a[0]
        if missing(x):
            return True
        if x.op == "call" and head(x.a[0]) == "builtins.bool" and x.a[1] and missing(x.a[1][0]):
            return True
        if x.op == "call" and head(x.a[0]) == "builtins.any" and x.a[1] and x.a[1][0].op == "comp":
            c = x.a[1][0]
            return srcof(c.a[3]) is ks and not c.a[4] and notin(c.a[1], T("elem", c.a[2], c.a[3]))
    if g.op == "call" and head(g.a[0]) == "builtins.all" and g.a[1] and g.a[1][0].op == "comp":
        c = g.a[1][0]
        return srcof(c.a[3]) is ks and not c.a[4] and c.a[1] is T("cmp", "in", T("elem", c.a[2], c.a[3]), pd)
    if g.op == "call" and g.a[0].op == "attr" and g.a[0].a[1] == "issubset" and srcof(g.a[0].a[0]) is ks:
        return True
    return False


def conjuncts(g):
    out = []
    for x in (g if isinstance(g, tuple) else (g,)):
        out += list(x.a) if x.op == "and" else [x]
    return out


def setpar(proj, book, kind):
    ks, vs = par("keys"), par("vals")
    r = run(proj, "Parameter", "set_parameter", kinds={ks: kind}, rec=2)
    pd = attr(SELF, "_parameter_dict")
    if not r.exits:
        book.ob("store", kind, None if any(e.kind == "unknown" for e in r.events) else False, f"a {kind} of names is not accepted", r.loc)
        return
    v = r.heap.get((SELF, "_parameter_dict"))
    v = fuse(v) if v is not None else None
    want_val = None
    ok = None
    if v is None:
        ok = False if not any(e.kind == "call" and head(e.fn).split(".")[-1] in ("update", "set_parameter", "__setitem__") for e in r.events) else None
    elif kind == "str":
        ok = True if v in (T("setitem", pd, ks, vs), ) else None
        if v.op == "setitem" and v.a[0] is pd and v.a[1] is ks and ok is None:
            ok = same(v.a[2], vs)
        elif v is pd:
            ok = False
        elif v.op == "dictmerge" and v.a[0] is pd and v.a[1] is T("dict", (ks, vs)):
            ok = True
        elif v.op in ("dict", "comp"):
            ok = False
    else:
        x = v
        if x.op == "dictmerge" and x.a[0] is pd:
            x = x.a[1]
            if kind == "dict" and x is ks:
                ok = True
            elif x.op == "comp" and x.a[0] == "dict" and x.a[1].op == "tuple":
                _, body, lid, src, conds = x.a
                k, val = body.a
                kel = T("elem", lid, ks)
                if conds:
                    ok = False
                elif k.op == "elem" and k is not kel and isinstance(k.a[1], Term) and srcof(k.a[1]) is ks:
                    ok = True if kind == "dict" and val is idx(ks, k) else False if val in (
                        T("elem", lid, vs), idx(ks, kel)) else None
                elif k is kel:
                    exp = (T("elem", lid, vs), idx(vs, T("idx", lid, ks))) if kind == "list" else (idx(ks, kel),)
                    if val in exp:
                        ok = True
                    else:
                        ok = None if undecidable(val) else False
        elif x is pd:
            ok = False
        elif x.op in ("dict", "comp"):
            ok = False if x.op == "comp" and x.a[0] == "dict" else None
    book.ob("store", kind, ok, f"with a {kind} the parameters become {show(v)[:200] if v is not None else 'unchanged'}", r.loc)
    # other attributes untouched
    for k in r.heap:
        if k[0] is SELF and k[1] != "_parameter_dict":
            book.ob("store", f"{kind}:{k[1]}", None, f"set_parameter also assigns self.{k[1]}", r.loc)
    gs = [conjuncts(g) for g, t, h, l in r.exits]
    ex = all(any(exist_test(c, ks, pd) for c in g) for g in gs)
    if not ex:
        mention = any(contains(c, lambda x: x is pd) or contains(c, lambda x: x.op == "attr" and x.a[1] in ("par_config", "check_parameter_exist"))
                      for g in gs for c in g)
        hidden = any(e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[0] is SELF for e in r.events)
        guards = any(contains(conj(e.guard), lambda x: x is pd) for e in raises(r))
        ex = False if trivially_weak(gs, ks, pd) else None if mention or hidden or guards else False
    if any(exist_test(neg(c), ks, pd) for g in gs for c in g):
        ex = False   # returns as if all was well although a name is unknown
    book.ob("unknown", kind, ex, "unknown names are refused" if ex else f"no check of the names found in {[show(c)[:100] for g in gs for c in g][:4]}", r.loc)
    if kind == "list":
        def lens(c):
            return c.op == "cmp" and c.a[0] == "==" and {x.a[1][0] for x in c.a[1:] if x.op == "call" and head(x.a[0]) == "builtins.len"} == {ks, vs}
        ok = all(any(lens(c) for c in g) for g in gs)
        if not ok:
            strict = any(e.kind == "call" and head(e.fn) == "builtins.zip" and e.kwargs and any(
                k == "strict" and isc(q, True) for k, q in (e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs)) for e in r.events)
            ok = True if strict else None if any(occurs(c, vs) and contains(
                c, lambda x: x.op == "call" and head(x.a[0]) == "builtins.len" or x.op == "call" and fname(x.a[0]) in ("size", "shape"))
                and not weak_len(c, ks, vs) for g in gs for c in g) else False
        book.ob("length", kind, ok, "names and values must have equal length", r.loc)


def weak_len(c, ks, vs):
    """len(keys) <= len(vals) and the like: strictly weaker than equality."""
    return c.op == "cmp" and c.a[0] in ("<=", "<", ">=", ">") and {
        x.a[1][0] for x in c.a[1:] if x.op == "call" and head(x.a[0]) == "builtins.len"} == {ks, vs}


def trivially_weak(gs, ks, pd):
    """any(k in d) instead of all(...)"""
    for g in gs:
        for c in g:
            if c.op == "call" and head(c.a[0]) == "builtins.any" and c.a[1] and c.a[1][0].op == "comp":
                d = c.a[1][0]
                if d.a[1] is T("cmp", "in", T("elem", d.a[2], d.a[3]), pd):
                    return True
            for d in walk(c):
                # names excused from the check by a further condition
                if d.op == "comp" and srcof(d.a[3]) is ks and len(conjuncts(tuple(d.a[4]))) > 1 and any(
                        x is T("cmp", "not in", T("elem", d.a[2], d.a[3]), pd) for x in conjuncts(tuple(d.a[4]))):
                    return True
    return False
