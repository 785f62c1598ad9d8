"""C15: the model is the sum over all components, each once, each scaled by its own rate."""

from ..help import *

META = {
    "level": "other",
    "technique": "closed-form extraction of sums over the registered components and normal-form comparison of normalisations",
    "explain": "The loops over the components are reduced to closed sums and the summand is specialised to each component type; the "
               "normalisation factor is compared, as a rational normal form, for each normalisation type; products of histogram and "
               "factor, and of event weight and factor, are compared likewise.",
    "rules": {
        "sum": "the model histogram is exactly the sum of simulate_hist over all registered components, each once with coefficient one",
        "weighted": "the weighted output concatenates the weighted events of every registered component, each once",
        "args": "each simulated component gets the requested batch size and every component the parameters",
        "factor": "the factor is rate/sum(hist) on the pdf, rate/(number of simulated events) on the simulation, with the component's own rate",
        "scaled": "a component's histogram is its binned events times the factor of that same histogram",
        "weights": "the weights of weighted events are the efficiencies times the same factor",
        "rate": "a registered component's rate parameter is its own name plus _rate",
        "keys": "the key is advanced through every simulated component",
    },
    "assumptions": ["component names are unique (C18)"],
}
TYPES = {"appletree.component.ComponentSim": "sim", "appletree.component.ComponentFixed": "fixed",
         "appletree.component.Component": "any"}


def typed(t, kind, objs):
    """Decide isinstance tests of the component in the world of this component type."""
    def f(x):
        if x.op == "call" and x.a[0] is G("builtins.isinstance") and len(x.a[1]) == 2:
            c = x.a[1][1]
            cs = c.a if c.op in ("tuple", "list") else (c,)
            ks = [TYPES.get(y.a[0]) if isinstance(y, Term) and y.op == "global" else None for y in cs]
            if all(ks) and x.a[1][0] in objs:
                return C(any(k in (kind, "any") for k in ks))
        return x
    return rewrite(t, f)


def check(proj, book):
    book.step("hist", model, proj, book, "_simulate_model_hist", "simulate_hist", "sum")
    book.step("weighted", model, proj, book, "simulate_weighted_data", "simulate_weighted_data", "weighted")
    book.step("factor", factor, proj, book)
    book.step("sim", sim, proj, book)
    book.step("fixed", fixed, proj, book)
    book.step("rate", rate, proj, book)
    book.step("accepted", accepted, proj, book)
    book.step("accepted", context_accepted, proj, book)
    book.floor("sum", 2)
    book.floor("factor", 2)


def components_of(S):
    cs = attr(SELF, "components")
    return {item(cs, S.el), S.el, item(S.el, C(1)), item(cs, item(S.el, C(0)))}


def model(proj, book, fn, leaf, rule):
    op = lambda f: f.name == leaf and f.cls is not None and "omponent" in f.cls.name
    r = run(proj, "Likelihood", fn, opaque=op)
    loc = r.loc
    v = item(r.ret, C(1))
    if rule == "sum":
        dec = summands(v)
        if dec is None:
            book.ob(rule, fn, None, "no closed form: " + show(v)[:200], loc)
            return
        plain, sums = dec
        for s, x in plain:
            z = canon(x)
            zero = z.op == "f" and z.a[0] in ("zeros", "zeros_like") or isc(z, 0)
            dead = x.op == "last" or z.op == "f" and z.a[0] in ("ones", "ones_like", "full", "full_like") or contains(
                z, lambda y: y is attr(SELF, "data_hist")) and not zero
            if not zero:
                book.ob(rule, fn + ":extra", False if dead or z.op == "const" else None, f"the sum starts from {show(x)[:120]}", loc)
        if len(sums) != 1:
            book.ob(rule, fn, None if not sums else False, f"{len(sums)} sums over components", loc)
            return
        S = sums[0]
        sign, src, term = S.sign, S.src, S.term
    else:
        cs = [x for x in walk(fuse(v)) if x.op == "comp" and contains(x.a[1], lambda y: y.op == "call" and head(y.a[0]) == "." + leaf)]
        cs = [c for c in cs if isinstance(c.a[3], Term) and not contains(c.a[3], lambda y: y.op == "call" and head(y.a[0]) == "." + leaf)]
        if len(cs) != 1:
            lost = [x for x in walk(v) if x.op == "loopout" and contains(x.a[3], lambda y: y.op == "call" and head(y.a[0]) == "." + leaf)
                    and x.a[3].op in ("list", "tuple") and not contains(x.a[3], lambda y: y.op == "loopvar" and y.a[0] == x.a[0]
                                                                        and str(y.a[1]).split("@")[0] == str(x.a[1]).split("@")[0])]
            book.ob(rule, fn, False if lost else None, "the weighted events are not collected in one pass: " + show(v)[:160], loc)
            return
        c = cs[0]
        term = c.a[1]
        for g in reversed(c.a[4]):
            term = phi(g, term, NONE)
        S = Sum(c.a[2], c.a[3], term)
        sign, src = 1, c.a[3]
        st = [x for x in walk(v) if x.op == "call" and (fname(x.a[0]) in ("hstack", "concatenate") or head(x.a[0]).split(".")[-1] in (
            "hstack", "concatenate", "vstack"))]
        for x in {y for y in st}:
            n = head(x.a[0]).split(".")[-1]
            ax = dict(x.a[2]).get("axis", x.a[1][1] if len(x.a[1]) > 1 else None)
            z = fuse(x.a[1][0]) if x.a[1] else None
            while isinstance(z, Term) and z.op == "call" and head(z.a[0]) in ("builtins.list", "builtins.tuple") and len(z.a[1]) == 1:
                z = z.a[1][0]
            cut = isinstance(z, Term) and z.op == "slice_of" and contains(z, lambda y: y is c) and not all(isc(y, None) for y in z.a[1].a[:2])
            if cut:
                book.ob(rule, fn + ":all", False, f"only {show(z.a[1])} of the components' events are joined", loc)
            ok = n == "hstack" or (n == "concatenate" and ax is not None and isc(ax, 1, -1))
            book.ob(rule, fn + ":axis", ok, f"events of the components are joined with {show(x)[:60]}", loc)
    comps = attr(SELF, "components")
    base = srcof(src)
    if base.op == "call" and base.a[0].op == "attr" and base.a[0].a[1] in ("items", "values") and not base.a[1]:
        base = base.a[0].a[0]
    ok = base is comps and sign == 1
    if base.op == "comp" and base.a[0] == "dict" and shared_key(base.a[1]):
        book.ob(rule, fn + ":collapsed", False, f"histograms collected under {show(base.a[1])[:80]}, which components share", loc)
    book.ob(rule, fn + ":domain", True if ok else False if base is comps or contains(base, lambda y: y is comps) and base.op in (
        "slice_of",) else None, f"sum over {show(src)[:80]} with sign {sign}", loc)
    if base is not comps:
        return
    objs = components_of(S)
    for kind in ("sim", "fixed"):
        t = canon(typed(term, kind, objs))
        call = t
        if kind == "sim":
            call = t.a[0] if t.op == "item" and isc(t.a[1], 1) else None
        ok = call is not None and call.op == "call" and call.a[0].op == "attr" and call.a[0].a[1] == leaf and call.a[0].a[0] in objs
        if not ok:
            inside = [x for x in walk(t) if x.op == "call" and head(x.a[0]) == "." + leaf]
            has = bool(inside)
            dec = has and t.op in ("phi", "bin") or isc(t, 0, None) or (kind == "sim" and t.op == "item" and t.a[0].op == "call" and has) or (
                kind == "sim" and t.op == "call" and has and t is inside[0])
            if t.op == "phi" and undecidable(t.a[0]):
                dec = False
            if t.op == "f" and t.a[0] in ("round", "floor", "ceil", "rint", "trunc", "fix", "sign", "toint", "sqrt", "square", "log", "exp") and has and t.a[1][0] is (
                    item(inside[0], C(1)) if kind == "sim" else inside[0]):
                dec = True  # changes the contents of the bins
            book.ob(rule, f"{fn}:{kind}", False if dec else None, f"a {kind} component contributes {show(t)[:160]}", loc)
            if not inside:
                continue
            call = inside[0]
        else:
            book.ob(rule, f"{fn}:{kind}", True, f"a {kind} component contributes {show(t)[:100]}", loc)
        kw = dict(call.a[2])
        a = call.a[1]
        if kind == "sim":
            b = kw.get("batch_size", a[1] if len(a) > 1 else None)
            book.ob("args", f"{fn}:batch_size", same(b, par("batch_size")) if b is not None else False,
                    f"batch size handed to a component is {show(b)[:60] if b is not None else 'missing'}", loc)
        i = 2 if kind == "sim" else 0
        p = kw.get("parameters", a[i] if len(a) > i else None)
        ok = p is not None and p is par("parameters")
        book.ob("args", f"{fn}:{kind}:parameters", True if ok else False if p is None or p.op in ("const", "param") else None,
                f"parameters handed to a component are {show(p)[:60] if p is not None else 'missing'}", loc)
    # key advanced
    k = item(r.ret, C(0))
    if k is par("key"):
        book.ob("keys", fn, False, "the key is returned as it was taken", loc)
    if k.op == "loopout":
        new = typed(k.a[3], "sim", objs)
        adv = new.op == "item" and isc(new.a[1], 0) and contains(new, lambda y: y.op == "call" and head(y.a[0]) == "." + leaf)
        stuck = new.op == "loopvar"
        book.ob("keys", fn, True if adv else False if stuck else None, f"after a simulated component the key is {show(new)[:100]}", loc)


def shared_key(pair):
    """Is the key of a (key, value) pair one that several components of a likelihood have in common?"""
    k = pair.a[0] if isinstance(pair, Term) and pair.op == "tuple" else pair[0] if isinstance(pair, tuple) else None
    if k is None or undecidable(k):
        return False
    if k.op == "const":
        return True
    if k.op == "attr" and k.a[1] in ("__class__", "norm_type", "llh_name", "bins_type", "__name__"):
        return k.a[1] != "__name__" or shared_key((k.a[0],))
    return k.op == "call" and head(k.a[0]) == "builtins.type"


def factor(proj, book):
    r = run(proj, "Component", "get_normalization")
    nt = attr(SELF, "norm_type")
    rate = item(par("parameters"), attr(SELF, "rate_name"))
    nsel = T("symbol", "n_events_selected")

    def sel(x):
        if x.op == "attr" and x.a[1] == "n_events_selected":
            return nsel
        return x
    for w in ("on_pdf", "on_sim"):
        v = subst(r.ret, {nt: C(w)})
        conds = {x.a[0] for x in walk(v) if x.op == "phi" and contains(
            x.a[0], lambda y: isc(y, "Bootstrap") or y.op == "attr" and y.a[1] == "_use_mcinput")}
        if w == "on_sim":
            has = contains(v, lambda y: y.op == "attr" and y.a[1] == "n_events_selected")
            book.ob("factor", "on_sim:mcinput-case", has or (None if undecidable(v) else False),
                    "with bootstrapped input the number of selected events enters the factor", r.loc)
        worlds = [("", {})] if not conds or w == "on_pdf" else [(":generated", False), (":mcinput", True)]
        for tag, val in worlds:
            vv = v
            if val is not False and val is not True:
                kind = w
            else:
                kind = "on_mcinput" if val else w
                mp = {}
                for c in conds:
                    mp[c] = C(val)
                    mp[neg(c)] = C(not val)
                vv = subst(v, mp)
            want = spec(proj, "component", kind, hist=par("hist"), rate=rate, batch_size=par("batch_size"), nsel=nsel)
            got = rewrite(vv, sel)
            ok = same(got, want)
            if ok is None and got.op != "phi":
                # any other way to sum, to name the rate or to count
                c = canon(got)
                ok = None if contains(c, lambda y: y.op in ("loopout", "unknown", "comp", "fold") or y.op == "call" and head(
                    y.a[0]) != "builtins.len") else False
            book.ob("factor", w + tag, ok, f"factor is {show(got)[:200]}", r.loc)
    g = [x for x in walk(r.ret) if x.op == "attr" and x.a[1] == "n_events_selected"]
    for x in g:
        for n in ("llh_name", "name"):
            ok = contains(x, lambda y: y is attr(SELF, n))
            book.ob("factor", f"mcinput:{n}", True if ok else None, f"the number of selected events is read from {show(x)[:160]}", r.loc)


def sim(proj, book):
    op = opq("get_normalization", "implement_binning", "_clip")
    r = run(proj, "ComponentSim", "simulate_hist", opaque=op)
    for eff in (True, False):
        m = {attr(SELF, "force_no_eff"): C(not eff)}
        v = subst(item(r.ret, C(1)), m)
        sims = {x for x in walk(v) if x.op == "call" and head(x.a[0]) == ".simulate"}
        tag = "simulate_hist" + ("" if eff else ":no_eff")
        scaled(book, tag, v, par("batch_size"), r.loc)
        if len(sims) == 1:
            res = item(sims.pop(), C(1))
            for b in {x for x in walk(v) if x.op == "call" and head(x.a[0]) == ".implement_binning"}:
                events(book, tag, b, res, eff, r.loc)
    r = run(proj, "ComponentSim", "simulate_weighted_data", opaque=op)
    weighted(book, "ComponentSim.simulate_weighted_data", item(r.ret, C(1)), par("batch_size"), r.loc, None)
    # key, batch size and parameters of the simulation
    for fn in ("simulate_hist", "simulate_weighted_data"):
        r = run(proj, "ComponentSim", fn, opaque=op)
        for e in calls(r, "simulate"):
            for i, n in enumerate(("key", "batch_size", "parameters")):
                a = arg(e, i, n)
                book.ob("args", f"ComponentSim.{fn}:{n}", same(a, par(n)) if a is not None else False,
                        f"{n} of the simulation is {show(a)[:60] if a is not None else 'missing'}", e.loc)


def events(book, tag, b, res, eff, loc):
    kw = dict(b.a[2])
    w = kw.get("eff", b.a[1][1] if len(b.a[1]) > 1 else None)
    mc = kw.get("mc", b.a[1][0] if b.a[1] else None)
    last = idx(res, -1)
    if w is None or mc is None:
        return
    w, mc = canon(w), canon(mc)
    if eff:
        ok = True if w is last else False if w.op == "item" and w.a[0] is res or w.op == "f" and w.a[0] in ("ones", "ones_like") else None
        book.ob("scaled", tag + ":weight", ok, f"events are weighted with {show(w)[:80]}", loc)
        whole = contains(mc, lambda y: y is res) and not contains(mc, lambda y: y.op in ("slice_of", "item", "comp", "starred", "star"))
        book.ob("scaled", tag + ":events", False if whole else True, f"observables are {show(mc)[:80]}", loc)
    else:
        ok = True if w.op == "f" and w.a[0] in ("ones", "ones_like") else False if contains(w, lambda y: y is last) and w.op == "item" else None
        book.ob("scaled", tag + ":weight", ok, f"without efficiency events are weighted with {show(w)[:80]}", loc)


def norm_calls(v):
    return {x for x in walk(v) if x.op == "call" and head(x.a[0]) == ".get_normalization"}


def norm_args(n):
    kw = dict(n.a[2])
    a = n.a[1]
    return (kw.get("hist", a[0] if a else None), kw.get("parameters", a[1] if len(a) > 1 else None),
            kw.get("batch_size", a[2] if len(a) > 2 else None))


def count(b, bs):
    if b is None:
        return False
    ok = same(b, bs)
    c = canon(b)
    if c.op == "call" and head(c.a[0]) == "builtins.len" and contains(c.a[1][0], lambda x: x.op == "call" and head(x.a[0]).split(".")[-1] == "_clip"):
        return False   # only the events inside the range are counted
    return False if ok is None and c.op == "bin" and any(x.op == "const" for x in c.a[1:]) else ok


def scaled(book, tag, v, bs, loc):
    v = canon(v)
    ns = norm_calls(v)
    if len(ns) != 1:
        hs = [x for x in walk(v) if x.op == "call" and head(x.a[0]) == ".implement_binning"]
        book.ob("scaled", tag, False if v in hs or v.op == "attr" else None, f"histogram is {show(v)[:160]}", loc)
        return
    n = ns.pop()
    h, p, b = norm_args(n)
    ok = same(v, binop("*", h, n))
    book.ob("scaled", tag, ok, f"histogram is {show(v)[:120]} ...", loc)
    book.ob("scaled", tag + ":parameters", p is par("parameters") or None if p is not None else False, "parameters of the factor", loc)
    book.ob("scaled", tag + ":count", count(b, bs), f"number of events of the factor is {show(b)[:60] if b is not None else 'missing'}", loc)


def weighted(book, tag, res, bs, loc, hist):
    w = canon(item(res, C(-1)))
    ns = norm_calls(w)
    if len(ns) != 1:
        book.ob("weights", tag, False if w.op == "item" and not ns else None, f"weights are {show(w)[:160]}", loc)
        return
    n = ns.pop()
    h, p, b = norm_args(n)
    book.ob("weights", tag + ":count", count(b, bs), f"number of events of the factor is {show(b)[:60] if b is not None else 'missing'}", loc)
    # the part of the weight that is not the factor
    rest = canon(binop("/", w, n))
    base = None
    if w.op == "bin" and w.a[0] == "*":
        base = w.a[1] if w.a[2] is n else w.a[2] if w.a[1] is n else None
    if base is None:
        eqs = same(w, n)
        book.ob("weights", tag, False if eqs or w.op == "bin" and w.a[0] in ("+", "-", "/") else None, f"weights are {show(w)[:160]}", loc)
        return
    ok = base.op == "item" and isc(base.a[1], -1) and base.a[0].op in ("call", "comp", "append")
    eff = contains(base, lambda y: y is attr(SELF, "eff"))
    dup = bool(norm_calls(base))
    book.ob("weights", tag, False if dup else True if ok or eff else None, f"weights are {show(base)[:80]} times the factor", loc)
    if hist is not None:
        book.ob("weights", tag + ":factor", same(h, hist), f"the factor is taken for {show(h)[:80]}", loc)
    elif h is not None:
        h = canon(h)
        good = h.op == "call" and head(h.a[0]) == ".implement_binning"
        book.ob("weights", tag + ":factor", good or None, f"the factor is taken for {show(h)[:80]}", loc)
        if good:
            kw = dict(h.a[2])
            e = kw.get("eff", h.a[1][1] if len(h.a[1]) > 1 else NONE)
            ones = canon(e)
            ones = ones.op == "f" and ones.a[0] in ("ones", "ones_like", "zeros", "full")
            book.ob("weights", tag + ":eff", False if ones and hist is None else same(e, base), f"the factor's histogram is weighted with {show(canon(e))[:80]}", loc)


def fixed(proj, book):
    op = opq("get_normalization", "implement_binning", "_clip")
    n_ev = T("call", G("builtins.len"), (attr(SELF, "data"),), ())
    r = run(proj, "ComponentFixed", "simulate_hist", opaque=op)
    v = canon(r.ret)
    for k in r.heap:
        if k[0] is SELF and k[1] in ("hist", "data", "eff"):
            book.ob("scaled", f"ComponentFixed:{k[1]}:kept", False, f"a simulation changes the stored {k[1]}: the next one starts from it", r.loc)
    scaled(book, "ComponentFixed.simulate_hist", v, n_ev, r.loc)
    for n in norm_calls(v):
        book.ob("scaled", "ComponentFixed:own", same(norm_args(n)[0], attr(SELF, "hist")), "the factor belongs to the own histogram", r.loc)
    r = run(proj, "ComponentFixed", "simulate_weighted_data", opaque=op)
    weighted(book, "ComponentFixed.simulate_weighted_data", r.ret, n_ev, r.loc, attr(SELF, "hist"))
    r = run(proj, "ComponentFixed", "deduce", opaque=op)
    h = r.heap.get((SELF, "hist"))
    if h is not None:
        hs = [x for x in walk(canon(h)) if x.op == "call" and head(x.a[0]) == ".implement_binning"]
        book.ob("scaled", "ComponentFixed.deduce", True if canon(h) in hs else None if not hs else False, f"the fixed histogram is {show(h)[:100]}", r.loc)
        for b in hs[:1]:
            w = canon(dict(b.a[2]).get("eff", b.a[1][1] if len(b.a[1]) > 1 else NONE))
            book.ob("scaled", "ComponentFixed.deduce:weight", True if w.op == "f" and w.a[0] in ("ones", "ones_like") else
                    False if w.op == "f" and w.a[0] in ("full", "full_like") and not isc(w.a[1][-1], 1) or w.op == "bin" and contains(
                        w, lambda y: y.op == "f" and y.a[0] in ("ones", "ones_like")) else None,
                    f"fixed events are weighted with {show(w)[:80]}", r.loc)


def rate(proj, book):
    r = run(proj, "Likelihood", "register_component")
    vs = [(b, v) for (b, a), v in r.heap.items() if a == "rate_name" and b.op == "call"]
    comp = r.heap.get((SELF, "components"))
    book.ob("rate", "register_component", bool(vs) or None, "the rate name of a new component is set", r.loc)
    for b, v in vs:
        want = binop("+", par("component_name"), C("_rate"))
        ok = v is want or v.op == "fstr" and v.a == (par("component_name"), C("_rate")) or show(v) == "fstr<component_name, '_rate'>"
        if not ok:
            cls = contains(v, lambda y: y.op == "attr" and y.a[1] in ("__class__", "__name__", "llh_name"))
            ok = None if not cls and contains(v, lambda y: y is par("component_name")) and contains(v, lambda y: isc(y, "_rate")) else False
        book.ob("rate", "register_component:name", ok, f"rate parameter is {show(v)[:80]}", r.loc)
        st = [e for e in r.events if e.kind == "setattr" and e.fn == "rate_name"]
        de = [e for e in r.events if e.kind == "call" and head(e.fn) == ".deduce"]
        if st and de:
            book.ob("rate", "register_component:before-deduce", r.events.index(st[0]) < r.events.index(de[0]),
                    "the rate name is set before the needed parameters are deduced", st[0].loc)
        if comp is not None:
            book.ob("rate", "register_component:stored", True if contains(comp, lambda y: y is b) else None,
                    "the component registered is the one configured", r.loc)


def accepted(proj, book):
    r = run(proj, "Likelihood", "get_num_events_accepted", opaque=opq("_simulate_model_hist"))
    ct = callterms(r, "_simulate_model_hist")
    if len(ct) != 1:
        book.ob("sum", "get_num_events_accepted", None, "no single simulation of the model", r.loc)
        return
    kw = dict(ct[0].a[2])
    a = ct[0].a[1]
    for i, n in ((1, "batch_size"), (2, "parameters")):
        x = kw.get(n, a[i] if len(a) > i else None)
        book.ob("args", "get_num_events_accepted:" + n, True if x is par(n) else False if x is None or x.op == "const" else None,
                f"{n} is {show(x)[:60] if x is not None else 'missing'}", r.loc)
    m = T("symbol", "model_hist")
    got = subst(r.ret, {item(ct[0], C(1)): m})
    book.ob("sum", "get_num_events_accepted", same(linsum(got), linsum(T("f", "sum", (m,), ()))), f"accepted events are {show(r.ret)[-160:]}", r.loc)


def context_accepted(proj, book):
    """The accepted events of a context: the sum over its binned likelihoods, each once."""
    tag = "Context.get_num_events_accepted"
    r = run(proj, "Context", "get_num_events_accepted", opaque=opq("Likelihood.get_num_events_accepted"))
    dec = summands(r.ret) if r.ret is not None else None
    if dec is None or len(dec[1]) != 1:
        book.ob("sum", tag, None, f"accepted events are {show(r.ret)[:120]}", r.loc)
        return
    plain, (S,) = dec
    for sg, x in plain:
        book.ob("sum", tag + ":extra", True if isc(canon(x), 0) else False if canon(x).op == "const" else None, f"the sum starts from {show(x)[:60]}", r.loc)
    lls = attr(SELF, "likelihoods")
    el = {item(lls, S.el), S.el, item(S.el, C(1))}
    base = srcof(S.src)
    book.ob("sum", tag + ":domain", True if base is lls and S.sign == 1 else False if base is lls or base.op == "slice_of" else None,
            f"sum over {show(S.src)[:80]} with sign {S.sign}", r.loc)
    t = canon(S.term)
    kept = None
    while t.op == "phi":
        c, a, b = t.a
        pos = True
        while c.op == "not":
            c, pos = c.a[0], not pos
        if not (c.op == "call" and c.a[0] is G("builtins.hasattr") and isc(c.a[1][1], "data_hist") or c.op == "call" and c.a[0] is G("builtins.isinstance")):
            break
        if c.a[0] is G("builtins.isinstance"):
            pos = not pos if show(c.a[1][1]).endswith("LikelihoodLit") else pos
        kept, t = True, a if pos else b
    call = t.op == "call" and head(t.a[0]) == ".get_num_events_accepted" and t.a[0].a[0] in el
    carried = [x for x in walk(t) if x.op == "loopvar"]
    inside = contains(t, lambda y: y.op == "call" and head(y.a[0]) == ".get_num_events_accepted")
    ok = True if call else False if carried and inside and t.op in ("bin", "phi") or isc(t, 0) and kept else None
    if call is False and t.op == "bin" and t.a[0] in ("*", "/") and inside and not undecidable(t):
        ok = False
    book.ob("sum", tag, ok, f"a likelihood contributes {show(t)[:140]}", r.loc)
    if not call:
        return
    kw, a = dict(t.a[2]), t.a[1]
    for i, n in ((0, "batch_size"), (1, "parameters")):
        x = kw.get(n, a[i] if len(a) > i else None)
        book.ob("args", f"{tag}:{n}", True if x is par(n) else False if x is None or x.op in ("const", "param") else None,
                f"{n} handed over is {show(x)[:60] if x is not None else 'missing'}", r.loc)
