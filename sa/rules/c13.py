"""C13: data, simulation and fixed events are histogrammed by one rule over one set of edges."""

import random

from ..help import *
from ..numer import Unknown
from ..tensor import Tensor, arr, sub

META = {
    "level": "other",
    "technique": "symbolic comparison of the histogram calls of data and model in every binning world, and of the bin index arithmetic",
    "explain": "For every binning type and dimension the histogram call made for the data is computed from set_binning and compared with "
               "the call implement_binning makes for the model with the edges, type and observables handed to the component.  The "
               "histogram functions' index arithmetic is compared with the binning rule; selections are evaluated over all weak orders "
               "of an event and the clip edges.",
    "rules": {
        "same_rule": "data and model call the same histogram function with corresponding arguments for every binning type and dimension",
        "handover": "components get the likelihood's final edges, bin type and observables; data are read for the same observables",
        "index": "an event is added with its weight at the index its coordinate has among the edges of its own axis (and row)",
        "points": "the configured edges, and the histograms of sample events of data and model over them, evaluated by array algebra, have the reference values",
        "outside": "exactly the underflow and overflow bins are dropped on every axis",
        "roi": "the data selection is the open interval of the clip on each axis; the model's weighted events are clipped to the open range of their own axis",
    },
    "assumptions": ["searchsorted and histogramdd follow their documentation"],
}
HF = ("make_hist_mesh_grid", "make_hist_irreg_bin_1d", "make_hist_irreg_bin_2d")
X, B, W = T("symbol", "events"), T("symbol", "edges"), T("symbol", "weights")


def check(proj, book):
    book.step("same_rule", same_rule, proj, book)
    book.step("handover", handover, proj, book)
    book.step("columns", columns, proj, book)
    book.step("index1", index1, proj, book)
    book.step("index2", index2, proj, book)
    book.step("mesh", mesh, proj, book)
    book.step("roi", roi, proj, book)
    book.step("clip", clip, proj, book)
    book.step("equiprob", equiprob, proj, book)
    book.step("points", points, proj, book)
    book.step("points", chosen, proj, book)
    book.step("points", partition, proj, book)
    book.floor("same_rule", 3)
    book.floor("points", 4)


def hist_calls(t):
    return [x for x in walk(t) if x.op == "call" and head(x.a[0]).split(".")[-1] in HF]


def bind(proj, c):
    """Positional normal form of a histogram call."""
    n = head(c.a[0]).split(".")[-1]
    f = proj.func(n)
    names = [a.arg for a in f.node.args.args]
    d = {}
    i = 0
    for a in c.a[1]:
        if a.op == "star":
            # the remaining edges
            k = [x for x in names if x.startswith("bins")]
            for j, nm in enumerate(k):
                d[nm] = item(a.a[0], C(j))
            i += len(k)
        else:
            d[names[i]] = a
            i += 1
    d.update(dict(c.a[2]))
    return n, d


def same_rule(proj, book):
    r = run(proj, "Likelihood", "set_binning", opaque=opq(*HF, "get_equiprob_bins_1d", "get_equiprob_bins_2d"))
    m = run(proj, "Component", "implement_binning", opaque=opq(*HF))
    dh, fb, ct = (r.heap.get((SELF, n)) for n in ("data_hist", "_bins", "component_bins_type"))
    if dh is None or fb is None or ct is None:
        book.ob("same_rule", "set_binning", None, "set_binning does not set the data histogram, edges and component bin type", r.loc)
        return
    bt, dim = attr(SELF, "_bins_type"), attr(SELF, "_dim")
    lb = T("call", G("builtins.len"), (attr(SELF, "bins"),), ())
    for t in ("meshgrid", "irreg", "equiprob"):
        for d in (1, 2):
            w = {bt: C(t), dim: C(d)}
            data, edges, cbt = canon(subst(dh, w)), canon(subst(fb, w)), subst(ct, w)
            tag = f"{t}:{d}D"
            if cbt.op != "const":
                book.ob("same_rule", tag, None, f"component bin type is {show(cbt)[:80]}", r.loc)
                continue
            mod = canon(subst(m.ret, {attr(SELF, "bins_type"): cbt, lb: C(d), attr(SELF, "add_eps_to_hist"): FALSE}))
            hc, mc = hist_calls(data), hist_calls(mod)
            if len(hc) != 1 or len(mc) != 1:
                book.ob("same_rule", tag, None, f"{len(hc)} histogram calls for the data and {len(mc)} for the model", r.loc)
                continue
            (hn, ha), (mn, ma) = bind(proj, hc[0]), bind(proj, mc[0])
            book.ob("same_rule", tag + ":function", hn == mn, f"data use {hn}, the model uses {mn}", r.loc)
            book.ob("same_rule", tag + ":value", (data is hc[0] and mod is mc[0]) or None, "the histograms are used as returned", r.loc)
            if hn != mn:
                continue
            for k in ha.keys() | ma.keys():
                a, b = ha.get(k), ma.get(k)
                if a is None or b is None:
                    book.ob("same_rule", f"{tag}:{k}", False, f"{k} is given to only one of the two histograms", r.loc)
                    continue
                el = {e: item(B, C(i)) for i, e in enumerate(edges.a)} if edges.op in ("tuple", "list") else {}
                a = canon(subst(subst(canon(a), {edges: B, **el}), {attr(SELF, "data"): X}))
                b = canon(subst(canon(b), {attr(SELF, "bins"): B, par("mc"): X, par("eff"): W}))
                if k == "weights":
                    ones = a.op == "f" and a.a[0] in ("ones", "ones_like") and contains(a, lambda y: y is X)
                    ok = (True if ones else None if a.op != "const" else False) if b is W else None if contains(b, lambda y: y is W) else False
                    if a.op == "f" and a.a[0] in ("zeros", "zeros_like"):
                        ok = False
                    book.ob("same_rule", f"{tag}:weights", ok, f"data weigh {show(a)[:60]}, model events {show(b)[:60]}", r.loc)
                    continue
                ok = same(a, b)
                if ok is None and a.op == "item" and b.op == "item" and a.a[0] is B and b.a[0] is B:
                    ok = False
                book.ob("same_rule", f"{tag}:{k}", ok, f"data use {show(a)[:80]}, the model {show(b)[:80]}", r.loc)


CHANGES_EVENTS = ("unique", "sort", "drop_duplicates", "dropna", "sort_values", "flip", "fliplr", "flipud", "head", "tail", "sample",
                  "roll", "abs", "round", "cumsum")


def table_columns(t):
    """(True, names) if t is the array whose columns are the named columns of a loaded table; (False, None) if the
    events are changed on the way."""
    turned = False
    while True:
        if t.op == "attr" and t.a[1] == "T":
            turned, t = not turned, t.a[0]
        elif t.op == "attr" and t.a[1] == "values":
            t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("to_numpy", "astype", "copy"):
            t = t.a[0].a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in CHANGES_EVENTS:
            return False, None
        elif t.op == "call" and t.a[1]:
            n, kw = head(t.a[0]).split(".")[-1], dict(t.a[2])
            if n in CHANGES_EVENTS:
                return False, None
            x = t.a[1][0]
            if n in ("array", "asarray") and x.op != "comp":
                t = x
                continue
            if n in ("array", "asarray", "stack", "column_stack", "vstack") and x.op == "comp" and x.a[0] in ("list", "gen") and not x.a[4]:
                ax = kw.get("axis", t.a[1][1] if len(t.a[1]) > 1 and n == "stack" else C(0))
                cols = n == "column_stack" or n == "stack" and isc(ax, 1, -1)
                if not cols and n == "stack" and not isc(ax, 0):
                    return None, None
                _, body, lid, src, _ = x.a
                ok, name = table_columns(body)
                if ok is False:
                    return False, None
                if ok and isinstance(src, Term) and name is T("elem", lid, src):
                    return cols != turned, src
                return None, None
            return None, None
        elif t.op == "item" and t.a[0].op == "call" and head(t.a[0].a[0]).endswith("load_data"):
            return (None if turned else True), t.a[1]
        else:
            return None, None


def of_kind(t, kind):
    """A term for a component of one kind: its type tests decided."""
    def f(x):
        if x.op == "call" and x.a[0] in (G("builtins.isinstance"), G("builtins.issubclass")) and len(x.a[1]) == 2:
            c = show(x.a[1][1])
            if c.endswith("ComponentSim"):
                return C(kind == "sim")
            if c.endswith("ComponentFixed"):
                return C(kind == "fixed")
        return x
    return rewrite(t, f)


def observables(g, bo, kind):
    """The observables handed over are those of the likelihood in order, then for a simulation the efficiency."""
    parts = None
    if g.op in ("list", "tuple"):
        parts = list(g.a)
    elif g.op == "bin" and g.a[0] == "+" and g.a[2].op in ("list", "tuple"):
        parts = [T("star", g.a[1])] + list(g.a[2].a)
    else:
        parts = [T("star", g)]
    if not all(p.op in ("star", "const") for p in parts) or sum(p.op == "star" for p in parts) != 1:
        return None
    names = [p.a[0] for p in parts if p.op == "const"]
    base = next(p.a[0] for p in parts if p.op == "star")
    while base.op == "call" and base.a[0] in (G("builtins.list"), G("builtins.tuple"), G("builtins.iter")) and len(base.a[1]) == 1:
        base = base.a[1][0]
    if base.op == "call" and head(base.a[0]) == ".copy" and not base.a[1]:
        base = base.a[0].a[0]
    if base is not bo:
        if not contains(base, lambda y: y is bo):
            return False if base.op == "attr" and base.a[0] is SELF else None
        shuffled = base.op == "slice_of" or base.op == "call" and base.a[0] in (
            G("builtins.reversed"), G("builtins.sorted"), G("builtins.set"), G("builtins.frozenset"))
        if base.op == "item" and base.a[1].op == "slice" and base.a[0] is bo:
            shuffled = True
        return False if shuffled else None
    if kind == "fixed":
        return not names
    # deduce itself puts the efficiency last
    return names == ["eff"] and parts[-1].op == "const" or (None if set(names) <= {"eff"} else False)


def handover(proj, book):
    r = run(proj, "Likelihood", "register_component")
    e = next((e for e in r.events if e.kind == "call" and e.fn is par("component_cls")), None)
    if e is not None:
        for n, a in (("bins", "_bins"), ("bins_type", "component_bins_type")):
            v = arg(e, None, n)
            ok = True if v is attr(SELF, a) else None if v is None or not (v.op == "attr" and v.a[0] is SELF) else False
            if v is not None and v.op == "item" and v.a[0] is attr(SELF, "_config"):
                ok = False   # what the user wrote, before the edges and type are resolved
            book.ob("handover", "component:" + n, ok, f"{n} of a component is {show(v)[:60] if v is not None else 'missing'}", e.loc)
    else:
        book.ob("handover", "component", None, "the component class is not called in register_component", r.loc)
    bo = attr(SELF, "_bins_on")
    for kind in ("sim", "fixed"):
        calls = [e for e in r.events if e.kind == "call" and head(e.fn) == ".deduce"]
        calls = [e for e in calls if not any(isc(canon(of_kind(g, kind)), False) for g in e.guard)]
        if len(calls) != 1:
            book.ob("handover", f"observables:{kind}", None, f"{len(calls)} calls of deduce for a {kind} component", r.loc)
            continue
        d = calls[0]
        v = arg(d, 0, "data_names")
        if v is None:
            stars = [x for k, x in (d.kwargs.items() if isinstance(d.kwargs, dict) else d.kwargs) if k is None]
            if not stars and not any(a.op == "star" for a in d.args):
                book.ob("handover", f"observables:{kind}", False, f"the observables are not handed to deduce of a {kind} component", d.loc)
                continue
            v = item(stars[0], C("data_names")) if stars else None
        ok = None
        if v is not None:
            v = of_kind(v, kind)
            ok = observables(canon(v), bo, kind)
            if v.op == "phi":
                ok = None
        book.ob("handover", f"observables:{kind}", ok, f"observables of a {kind} component are {show(v)[:80] if v is not None else 'missing'}", d.loc)
    r = run(proj, "Likelihood", "__init__", opaque=opq("set_binning", "load_data", "_sanity_check"))
    v = r.heap.get((SELF, "data"))
    if v is not None:
        ld = [x for x in walk(v) if x.op == "item" and x.a[0].op == "call" and head(x.a[0].a[0]).endswith("load_data")]
        bo = r.heap.get((SELF, "_bins_on"))
        ok = bool(ld) and all(x.a[1] is bo or x.a[1] is attr(SELF, "_bins_on") for x in ld)
        book.ob("handover", "data:observables", ok or None, f"data columns read are {[show(x.a[1])[:60] for x in ld][:2]}", r.loc)
    r = run(proj, "ComponentFixed", "deduce", opaque=opq("implement_binning", "load_data"))
    e = next((e for e in r.events if e.kind == "call" and head(e.fn) == ".implement_binning"), None)
    if e is not None:
        mc = arg(e, 0, "mc")
        ok, names = (None, None) if mc is None else table_columns(mc)
        if ok and names is not None:
            while names.op == "call" and names.a[0] in (G("builtins.list"), G("builtins.tuple")) and len(names.a[1]) == 1:
                names = names.a[1][0]
            dn = par("data_names")
            mixed = names.op == "call" and names.a[0] in (G("builtins.sorted"), G("builtins.set"), G("builtins.reversed"), G("builtins.frozenset")) \
                or names.op == "slice_of"
            ok = True if names is dn else False if mixed and contains(names, lambda y: y is dn) else None
        book.ob("handover", "fixed:observables", ok, f"fixed events are {show(mc)[:100] if mc is not None else ''}", e.loc)
    # the component keeps what it is given
    r = run(proj, "Component", "set_binning")
    for n in ("bins", "bins_type"):
        v = r.heap.get((SELF, n))
        if v is not None:
            kw = [x for x in walk(v) if isc(x, n)]
            ok = True if kw and v.op in ("item", "call") else None
            if not kw and any(isc(x, "bins", "bins_type") for x in walk(v)):
                ok = False
            book.ob("handover", "set_binning:" + n, ok, f"{n} kept by the component is {show(v)[:80]}", r.loc)


def columns(proj, book):
    """The columns binned are the outputs of the simulation in their order, without the efficiency."""
    for fn in ("simulate_hist", "simulate_weighted_data"):
        r = run(proj, "ComponentSim", fn, opaque=opq("implement_binning", "get_normalization", "_clip"))
        for e in r.events:
            if e.kind != "call" or head(e.fn) != ".implement_binning":
                continue
            mc = arg(e, 0, "mc")
            sims = {x for x in walk(mc) if x.op == "call" and head(x.a[0]) == ".simulate"} if mc is not None else ()
            if len(sims) != 1:
                continue
            res = item(next(iter(sims)), C(1))
            for eff in ((True, False) if fn == "simulate_hist" else (True,)):
                for d in (1, 2):
                    obs = [T("symbol", f"observable{i}") for i in range(d)]
                    outs = obs + [T("symbol", "efficiency")] * eff
                    t = subst(mc, {attr(SELF, "force_no_eff"): C(not eff),
                                   T("call", G("builtins.len"), (attr(SELF, "bins"),), ()): C(d)})
                    got = matrix(t, res, outs)
                    ok = None if got is None else got == ("cols", obs)
                    book.ob("handover", f"columns:{fn}:{d}D" + ("" if eff else ":no_eff"), ok,
                            f"the columns binned are {[show(x)[:40] for x in got[1]]} as {got[0]}" if got else f"the events binned are {show(t)[:120]}", e.loc)


def seq(t, res, outs):
    """The elements of a sequence made from the outputs of a simulation."""
    if t is res:
        return list(outs)
    if t.op in ("list", "tuple"):
        out = []
        for x in t.a:
            if x.op == "star":
                y = seq(x.a[0], res, outs)
                if y is None:
                    return None
                out += y
            else:
                y = one_of(x, res, outs)
                if y is None:
                    return None
                out.append(y)
        return out
    if t.op == "append":
        s, x = seq(t.a[0], res, outs), one_of(t.a[1], res, outs)
        return None if s is None or x is None else s + [x]
    if t.op == "bin" and t.a[0] == "+":
        s, x = seq(t.a[1], res, outs), seq(t.a[2], res, outs)
        return None if s is None or x is None else s + x
    if t.op in ("slice_of", "item") and t.a[1].op == "slice":
        s, b = seq(t.a[0], res, outs), [canon(x) for x in t.a[1].a]
        if s is None or not all(x.op == "const" and (x.a[0] is None or isinstance(x.a[0], int)) for x in b):
            return None
        return s[slice(*(x.a[0] for x in b))]
    if t.op == "starred":
        s = seq(t.a[0], res, outs)
        i, n = t.a[1], t.a[2]
        if s is None or not isinstance(i, int) or not isinstance(n, int) or len(s) < n - 1:
            return None
        return s[i:len(s) - (n - 1 - i)]
    if t.op == "call" and t.a[1]:
        h = head(t.a[0])
        if h in ("builtins.list", "builtins.tuple", "builtins.iter") or h.split(".")[-1] == "_clip":
            return seq(t.a[1][0], res, outs)
        if h == "builtins.reversed":
            s = seq(t.a[1][0], res, outs)
            return s[::-1] if s is not None else None
    if t.op == "comp" and t.a[0] in ("list", "gen") and not t.a[4]:
        _, body, lid, src, _ = t.a
        out = []
        if isinstance(src, Term) and src.op == "range":
            n = [canon(x) for x in src.a]
            if not all(x.op == "const" and isinstance(x.a[0], int) for x in n):
                return None
            for k in range(*(x.a[0] for x in n)):
                out.append(one_of(subst(body, {T("idx", lid, src): C(k), T("elem", lid, src): C(k)}), res, outs))
        elif isinstance(src, Term):
            s = seq(src, res, outs)
            if s is None:
                return None
            el = T("elem", lid, src)
            for x in s:
                out.append(one_of(subst(body, {el: x}), res, outs))
        return None if not out or None in out else out
    return None


def one_of(t, res, outs):
    while t.op == "call" and t.a[1] and fname(t.a[0]) == "array" and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.op == "symbol":
        return t
    if t.op == "item":
        s, k = seq(t.a[0], res, outs), canon(t.a[1])
        if s is not None and k.op == "const" and isinstance(k.a[0], int) and -len(s) <= k.a[0] < len(s):
            return s[k.a[0]]
    return None


def matrix(t, res, outs):
    """("rows" or "cols", elements) of an array stacked from outputs of a simulation."""
    turn = {"rows": "cols", "cols": "rows"}
    if t.op == "attr" and t.a[1] == "T" or t.op == "call" and head(t.a[0]) == ".transpose" and not t.a[1]:
        m = matrix(t.a[0] if t.op == "attr" else t.a[0].a[0], res, outs)
        return m and (turn[m[0]], m[1])
    if t.op == "call" and t.a[1]:
        n, kw = head(t.a[0]).split(".")[-1], dict(t.a[2])
        if n in ("transpose",) and len(t.a[1]) == 1 and not kw:
            m = matrix(t.a[1][0], res, outs)
            return m and (turn[m[0]], m[1])
        if n in ("array", "asarray", "vstack", "column_stack", "stack") and len(t.a[1]) <= 2:
            ax = kw.get("axis", t.a[1][1] if n == "stack" and len(t.a[1]) == 2 else C(0))
            s = seq(t.a[1][0], res, outs)
            if s is None:
                return matrix(t.a[1][0], res, outs) if n in ("array", "asarray") else None
            if n == "column_stack" or n == "stack" and isc(ax, 1, -1):
                return "cols", s
            return ("rows", s) if n != "stack" or isc(ax, 0, -2) else None
    return None


# -- the histogram functions ----------------------------------------------------

def col(n):
    return T("item", par("sample"), T("tuple", T("slice", NONE, NONE, NONE), C(n)))


def strip(t):
    while t.op == "call" and (t.a[0].op == "global" and (t.a[0].a[0] in ("builtins.tuple", "builtins.list") or fname(t.a[0]) in (
            "stack", "array", "vstack"))) and len(t.a[1]) >= 1 or t.op == "f" and t.a[0] in ("stack", "array", "vstack"):
        t = t.a[1][0]
    return t


def search(t):
    """(edges, values, side) of a searchsorted call, vectorised over rows or not."""
    if t.op == "f" and t.a[0] == "searchsorted":
        a, kw = t.a[1], dict(t.a[2])
    elif t.op == "call" and head(t.a[0]).split(".")[-1] == "searchsorted":
        a, kw = t.a[1], dict(t.a[2])
    elif t.op == "call" and t.a[0].op in ("call", "f"):
        v = t.a[0]
        n = v.a[0] if v.op == "f" else head(v.a[0]).split(".")[-1]
        if n != "vmap" or not v.a[1]:
            return None
        inner = v.a[1][0]
        if inner.op == "partial":
            kw0, inner = dict(inner.a[2]), inner.a[0]
        else:
            kw0 = {}
        if not (inner.op == "global" and inner.a[0].endswith("searchsorted")):
            return None
        a, kw = t.a[1], {**kw0, **dict(t.a[2])}
    else:
        return None
    e = kw.get("a", a[0] if a else None)
    v = kw.get("v", a[1] if len(a) > 1 else None)
    s = kw.get("side", a[2] if len(a) > 2 else C("left"))
    return (e, v, s.a[0] if s.op == "const" else None) if e is not None and v is not None else None


def scatter(t):
    s = [x for x in walk(t) if x.op == "scatter"]
    return s[0] if len(s) == 1 else None


def size_ok(z, alts):
    for a in alts:
        d = canon(binop("-", z, a))
        if equal(d, C(1)):
            return True
        n, dd = ratio(d)
        if n.const() is not None and dd.const() is not None:
            return False
    return None


def slices(t):
    """Slices applied around the scattered array, as [(lo, hi)] per axis."""
    if t.op == "slice_of":
        s = t.a[1]
        return [s] if s.op == "slice" else None
    if t.op == "item":
        s = t.a[1]
        if s.op == "slice":
            return [s]
        if s.op == "tuple" and all(x.op == "slice" for x in s.a):
            return list(s.a)
    return None


def sl_ok(s):
    v = [cval(x) if x.op == "const" else x for x in s.a]
    if any(isinstance(x, Term) for x in v):
        return None
    return v[0] == 1 and v[1] == -1 and v[2] in (None, 1)


def common(book, tag, r, ndim):
    t = canon(r.ret)
    s = scatter(t)
    if s is None:
        book.ob("index", tag, None, "the histogram is not built by an indexed update: " + show(t)[:160], r.loc)
        return None
    op, base, ix, val = s.a
    book.ob("index", tag + ":add", op == "add", f"weights are combined with .{op}", r.loc)
    book.ob("index", tag + ":weight", True if val is par("weights") else False if val.op in ("const",) or not contains(
        val, lambda y: y is par("weights")) else None, f"the value added is {show(val)[:60]}", r.loc)
    ok = base.op == "f" and base.a[0] == "zeros"
    book.ob("index", tag + ":zeros", True if ok else False if base.op == "f" and base.a[0] in ("ones", "full") else None,
            f"accumulation starts from {show(base)[:60]}", r.loc)
    ss = slices(t)
    if t is s:
        ss = [T("slice", C(None), C(None), C(None))] * ndim
    elif ss is None:
        book.ob("outside", tag, None, f"the result is {show(t)[:60]}", r.loc)
    if ss is not None and len(ss) != ndim:
        book.ob("outside", tag, False, f"{len(ss)} of {ndim} axes are cut", r.loc)
        ss = None
    shape = base.a[1][0] if ok and base.a[1] else None
    return strip(ix), shape, ss


def landing(book, tag, r, ix, s, lens, size, sl):
    """Where an event lands as a function of its position b among the n edges (b = 0 below, b = n above), for several n:
    an event between edges b-1 and b must land in bin b-1, the others nowhere, and there must be n-1 bins."""
    if size is None or sl is None or any(x.op != "const" for x in sl.a):
        book.ob("outside", tag, None, "size or cut of the histogram", r.loc)
        return
    bad = None
    for n in (2, 3, 4, 6):
        env = {canon(z): n for z in lens}
        S = inum(canon(size), env)
        if S is None:
            book.ob("outside", tag, None, f"size {show(size)[:80]}", r.loc)
            return
        kept = list(range(S))[slice(*[x.a[0] for x in sl.a])]
        if len(kept) != n - 1:
            bad = bad or f"{len(kept)} bins for {n} edges"
        for b in range(n + 1):
            f = inum(ix, {**env, s: b})
            if f is None:
                book.ob("index", tag + ":bin", None, f"bin index is {show(ix)[:100]}", r.loc)
                return
            f = f + S if f < 0 else f
            got = kept.index(f) if f in kept else None
            want = b - 1 if 1 <= b <= n - 1 else None
            if got != want and not bad:
                place = "below the lowest edge" if b == 0 else "above the highest edge" if b == n else f"between edges {b - 1} and {b}"
                bad = f"of {n} edges, an event {place} is " + ("dropped" if got is None else f"counted in bin {got}")
    book.ob("outside", tag, not bad, bad or f"events outside the edges are dropped, the others land in their own bin (size {show(size)[:40]})", r.loc)


def searches(t):
    out = []
    for x in walk(t):
        if search(x) is not None and x not in out:
            out.append(x)
    return out


def index1(proj, book):
    r = run(proj, None, "make_hist_irreg_bin_1d")
    c = common(book, "irreg_1d", r, 1)
    if c is None:
        return
    ix, shape, sl = c
    if ix.op == "tuple" and len(ix.a) == 1:
        ix = ix.a[0]
    ss = searches(ix)
    if len(ss) != 1:
        book.ob("index", "irreg_1d:bin", None, f"bin index is {show(ix)[:100]}", r.loc)
        return
    s = search(ss[0])
    book.ob("index", "irreg_1d:bin", s[0] is par("bins") and s[1] is par("sample"), f"index of {show(s[1])[:40]} in {show(s[0])[:40]}", r.loc)
    b = par("bins")
    z = shape.a[0] if shape is not None and shape.op == "tuple" and len(shape.a) == 1 else shape
    landing(book, "irreg_1d", r, ix, ss[0], [T("call", G("builtins.len"), (b,), ()), item(attr(b, "shape"), C(0)), attr(b, "size")], z, sl and sl[0])


def index2(proj, book):
    r = run(proj, None, "make_hist_irreg_bin_2d")
    c = common(book, "irreg_2d", r, 2)
    if c is None:
        return
    ix, shape, sl = c
    if ix.op not in ("tuple", "list") or len(ix.a) != 2:
        book.ob("index", "irreg_2d:bin", None, f"bin index is {show(ix)[:100]}", r.loc)
        return
    bx, by = par("bins_x"), par("bins_y")
    ox = searches(ix.a[0])
    oy = [x for x in searches(ix.a[1]) if not any(x is not y and contains(y, lambda z: z is x) for y in searches(ix.a[1]))]
    cx, cy = canon(col(0)), canon(col(1))
    if len(ox) != 1 or len(oy) != 1:
        book.ob("index", "irreg_2d:bin", None, f"bin index is {show(ix)[:160]}", r.loc)
        return
    sx, sy = search(ox[0]), search(oy[0])
    known = (cx, cy)
    book.ob("index", "irreg_2d:x", (sx[0] is bx and sx[1] is cx) if sx[1] in known or sx[0] is by else None,
            f"x index of {show(sx[1])[:60]} in {show(sx[0])[:40]}", r.loc)
    book.ob("index", "irreg_2d:y", sy[1] is cy if sy[1] in known else None, f"y index of {show(sy[1])[:60]}", r.loc)
    ln = lambda b: T("call", G("builtins.len"), (b,), ())
    lx = [ln(bx), item(attr(bx, "shape"), C(0)), attr(bx, "size")]
    ly = [item(attr(by, "shape"), C(-1)), item(attr(by, "shape"), C(1)), ln(item(by, C(0)))]
    row = sy[0]
    if row.op == "item" and row.a[0] is by:
        bad, un = None, False
        for n in (2, 3, 5):
            for b in range(1, n):
                v = inum(canon(row.a[1]), {**{canon(z): n for z in lx}, ox[0]: b, canon(ln(by)): n - 1, canon(item(attr(by, "shape"), C(0))): n - 1})
                if v is None:
                    un = True
                elif clamp(v, n - 1) != b - 1:
                    bad = f"an event of column {b - 1} uses the y edges of column {clamp(v, n - 1)}"
        book.ob("index", "irreg_2d:row", False if bad else None if un else True, bad or f"edges of y are those of row {show(row.a[1])[-60:]}", r.loc)
    else:
        book.ob("index", "irreg_2d:row", False if row is by or row is bx else None, f"edges of y are {show(row)[:80]}", r.loc)
    if shape is None or shape.op not in ("tuple", "list") or len(shape.a) != 2 or sl is None:
        book.ob("outside", "irreg_2d", None, "size or cut of the histogram", r.loc)
        return
    landing(book, "irreg_2d:x", r, ix.a[0], ox[0], lx, shape.a[0], sl[0])
    landing(book, "irreg_2d:y", r, ix.a[1], oy[0], ly, shape.a[1], sl[1])


def mesh(proj, book):
    r = run(proj, None, "make_hist_mesh_grid")
    t = canon(r.ret)
    if t.op != "item" or not isc(t.a[1], 0):
        book.ob("index", "meshgrid", False if t.op == "item" and t.a[1].op == "const" else None, f"histogram is {show(t)[:100]}", r.loc)
        return
    c = t.a[0]
    if c.op not in ("call", "f") or (head(c.a[0]) if c.op == "call" else c.a[0]).split(".")[-1] != "histogramdd":
        book.ob("index", "meshgrid", None, f"histogram is {show(t)[:100]}", r.loc)
        return
    kw = dict(c.a[2])
    for i, n in enumerate(("sample", "bins", "range", "weights", "density")):
        if i < len(c.a[1]):
            kw[n] = c.a[1][i]
    for n in ("sample", "bins", "weights"):
        v = kw.get(n)
        book.ob("index", "meshgrid:" + n, v is par(n) if v is None or v.op in ("param", "const") else None, f"{n} is {show(v)[:60] if v is not None else 'missing'}", r.loc)
    book.ob("index", "meshgrid:density", "density" not in kw or isc(kw["density"], False, None), "counts, not densities", r.loc)


# -- selections -----------------------------------------------------------------

POS = (("below", 0), ("lower", 1), ("inside", 2), ("upper", 3), ("above", 4))


def mask_of(v):
    if v.op == "item":
        return v.a[0], v.a[1]
    return None, None


def interval(book, tag, mask, axes, loc, m=None):
    """The mask selects exactly the open interval on every axis (all weak orders on one axis, the others inside)."""
    for i, (v, lo, hi) in enumerate(axes):
        for w, p in POS:
            o = 10 * i
            vals = {lo: 1 + o, hi: 3 + o, v: p + o}
            for j, (v2, lo2, hi2) in enumerate(axes):
                if j != i:
                    vals.update({lo2: 1 + 10 * j, hi2: 3 + 10 * j, v2: 2 + 10 * j})
            g = order(canon(mask), {canon(k): x for k, x in vals.items()})
            g = boolean(g)
            if g.op != "const":
                ok = None
            else:
                ok = bool(g.a[0]) == (w == "inside")
            book.ob("roi", f"{tag}:axis{i}:{w}", ok, f"an event {w} on axis {i} is {'kept' if isc(g, True) else 'dropped' if isc(g, False) else show(g)[:100]}", loc)


def boolean(t):
    def f(x):
        if x.op == "bin" and x.a[0] in ("&", "|") and (isc(x.a[1], True, False) or isc(x.a[2], True, False)):
            return (disj if x.a[0] == "|" else conj)(x.a[1:])
        if x.op == "f" and x.a[0] in ("logical_and", "logical_or"):
            return (disj if x.a[0] == "logical_or" else conj)(x.a[1])
        if x.op == "bin" and x.a[0] == "*" and all(isc(y, True, False) for y in x.a[1:]):
            return conj(x.a[1:])
        if x.op == "un" and x.a[0] == "~" and isc(x.a[1], True, False):
            return C(not x.a[1].a[0])
        return x
    return rewrite(t, f)


def c_(t, n):
    return T("item", t, T("tuple", T("slice", NONE, NONE, NONE), C(n)))


def roi(proj, book):
    r = run(proj, "Likelihood", "__init__", opaque=opq("set_binning", "load_data", "_sanity_check"))
    v = r.heap.get((SELF, "data"))
    conf = par("**config")
    if v is None:
        book.ob("roi", "data", None, "no data are kept", r.loc)
        return
    d = r.heap.get((SELF, "_dim"))
    for dim in (1, 2):
        dims = {x for x in walk(v) if x.op == "cmp" and d is not None and (x.a[1] is d or x.a[2] is d or canon(x.a[1]) is canon(d))}
        vv = v
        if d is not None:
            vv = subst(v, {d: C(dim)})
        # the type of bins_on determines the dimension
        ist = {x for x in walk(vv) if x.op == "call" and x.a[0] is G("builtins.isinstance")}
        mp = {}
        for x in ist:
            s = show(x.a[1][1])
            if "builtins.str" in s:
                mp[x] = C(dim == 1)
            elif "builtins.list" in s:
                mp[x] = C(dim == 2)
        vv = subst(vv, mp)
        ln = {x: C(dim) for x in walk(vv) if x.op == "call" and x.a[0] is G("builtins.len") and "bins_on" in show(x)}
        vv = canon(subst(vv, ln))
        base, mask = mask_of(vv)
        if base is None:
            book.ob("roi", f"data:{dim}D", None, f"data kept are {show(vv)[:160]}", r.loc)
            continue
        base = canon(base)
        if dim == 1:
            axes = [(c_(base, 0), idx(conf, "clip", 0), idx(conf, "clip", 1))]
        else:
            axes = [(c_(base, i), idx(conf, n, 0), idx(conf, n, 1)) for i, n in ((0, "x_clip"), (1, "y_clip"))]
        interval(book, f"data:{dim}D", mask, axes, r.loc)


def clip_order(proj, book, cls, r):
    """The selection is handed the observables in the order of the bins, then the weights."""
    for e in r.events:
        if e.kind != "call" or head(e.fn).split(".")[-1] != "_clip":
            continue
        t = arg(e, 0, "result")
        if t is None:
            continue
        sims = {x for x in walk(t) if x.op == "call" and head(x.a[0]) == ".simulate"}
        if cls == "ComponentSim" and len(sims) != 1:
            continue
        res = item(next(iter(sims)), C(1)) if sims else T("symbol", "none")
        for d in (1, 2):
            obs, eff = [T("symbol", f"observable{i}") for i in range(d)], T("symbol", "efficiency")
            u = t if sims else subst(t, {attr(attr(SELF, "data"), "T"): T("list", *obs), attr(SELF, "eff"): eff})
            got = seq(u, res, obs + [eff])
            book.ob("roi", f"{cls}:clipped:{d}D", None if got is None else got == obs + [eff],
                    f"the columns selected by the bins are {[show(x)[:30] for x in got]}" if got is not None else f"events selected are {show(u)[:160]}", e.loc)


def clip(proj, book):
    for cls in ("ComponentSim", "ComponentFixed"):
        r = run(proj, cls, "simulate_weighted_data", opaque=opq("implement_binning", "get_normalization", "_clip"))
        out = r.ret
        clip_order(proj, book, cls, r)
        cut = contains(out, lambda x: x.op == "call" and head(x.a[0]).split(".")[-1] == "_clip")
        other = contains(out, lambda x: x.op in ("cmp", "unknown", "loopout", "mutated") or x.op == "call" and (
            x.a[0].op == "attr" and x.a[0].a[0] is SELF and x.a[0].a[1] not in ("simulate", "implement_binning", "get_normalization")
            or x.a[0].op == "global" and x.a[0].a[0].startswith("appletree.")))
        book.ob("roi", f"{cls}:clipped", True if cut else None if other else False,
                "weighted events are limited to the range of the bins" if cut else "no selection of the weighted events found", r.loc)
    r = run(proj, "Component", "_clip")
    t = fuse(r.ret)
    masks = {x for x in walk(t) if x.op in ("loopout", "fold") and any(y.op == "cmp" for y in walk(x)) and (
        x.op == "loopout" and x.a[3].op in ("bin", "and", "f", "call") or x.op == "fold" and x.a[0] in ("&", "|", "*", "and") and x.a[2].op == "comp")}
    masks = {x for x in masks if not any(x is not y and contains(y, lambda z: z is x) for y in masks)}
    if len(masks) != 1:
        book.ob("roi", "clip", None, f"{len(masks)} masks over the axes", r.loc)
        return
    m = masks.pop()
    if m.op == "fold":
        new, lv = canon(m.a[2].a[1]), m.a[0]
        book.ob("roi", "clip:accumulated", m.a[0] != "|" and not m.a[2].a[4], "the selections of all axes are combined", r.loc)
    else:
        new = canon(m.a[3])
        lv = next((x for x in walk(new) if x.op == "loopvar"), None)
        book.ob("roi", "clip:accumulated", lv is not None, "the selections of all axes are combined", r.loc)
        new = subst(new, {lv: TRUE}) if lv is not None else new
    # the values of one axis and its edges
    RES, BINS = par("result"), attr(SELF, "bins")

    def base(x, what):
        """How x is one axis of result / of the bins: the index term or the loop."""
        if x.op == "item" and x.a[0] is what and x.a[1].op != "slice":
            return x.a[1]
        if x.op == "elem" and isinstance(x.a[1], Term):
            s = x.a[1]
            while s.op == "call" and s.a[0] in (G("builtins.list"), G("builtins.tuple"), G("builtins.iter")) and s.a[1]:
                s = s.a[1][0]
            if s is what:
                return T("loop", x.a[0])
            if s.op == "slice_of" and s.a[0] is what:
                lo, hi, st = s.a[1].a
                if isc(lo, None, 0) and isc(st, None, 1):
                    return T("loop", x.a[0])
                return T("shifted", s.a[1])
            if s.op == "call" and s.a[0] in (G("builtins.reversed"), G("builtins.sorted")) and contains(s, lambda y: y is what):
                return T("shifted", s)
        return None
    ev = {x for x in walk(new) if base(x, RES) is not None}
    ed = {x for x in walk(new) if base(x, BINS) is not None}
    if len(ev) != 1 or not ed:
        book.ob("roi", "clip", None, "the mask is " + show(new)[:200], r.loc)
        return
    e = ev.pop()
    bad = [x for x in ed if base(x, BINS) is not base(e, RES)]
    sure = all(base(x, BINS).op in ("const", "loop", "shifted", "idx", "elem") for x in ed)
    book.ob("roi", "clip:axis", not bad if not bad or sure else None,
            f"{show(e)[:60]} is compared with {[show(x)[:60] for x in (bad or ed)][:2]}", r.loc)
    m_ = {}
    for x in ed:
        m_[T("f", "min", (x,), ())] = 1
        m_[T("f", "max", (x,), ())] = 3
        m_[item(x, C(0))] = 1
        m_[item(x, C(-1))] = 3
    left = subst(new, {k: C(v) for k, v in m_.items()})
    part = any(x.op == "slice_of" and any(contains(x, lambda y: y is q) for q in ed) for x in walk(left))
    book.ob("roi", "clip:edges", not part, "all edges of the axis are considered", r.loc)
    if not part:
        for w, p in POS:
            g = boolean(order(new, {e: p, **m_}))
            ok = None if g.op != "const" else bool(g.a[0]) == (w == "inside")
            book.ob("roi", f"clip:{w}", ok, f"an event {w} the range is {'kept' if isc(g, True) else 'dropped' if isc(g, False) else show(g)[:100]}", r.loc)
    if t.op == "list":
        # weights and observables are selected together
        un = [x for x in t.a if not contains(x, lambda y: y is m)]
        book.ob("roi", "clip:all", False if un else True, f"not selected: {[show(x)[:60] for x in un]}" if un else "all outputs are selected together", r.loc)


def equiprob(proj, book):
    for fn, dim in (("get_equiprob_bins_1d", 1), ("get_equiprob_bins_2d", 2)):
        r = run(proj, None, fn)
        es = [e for e in r.events if e.kind == "call" and head(e.fn).split(".")[-1] == "get_equiprobable_binning"]
        if len(es) != 1:
            book.ob("roi", fn, None, "no single call of the equiprobable binning", r.loc)
            continue
        a = canon(es[0].args[0]) if es[0].args else None
        base, mask = mask_of(a) if a is not None else (None, None)
        d = par("data")
        if base is not d:
            book.ob("roi", fn, None if base is None or contains(base, lambda y: y is d) else False, f"binned data are {show(a)[:100] if a else ''}", es[0].loc)
            continue
        if dim == 1:
            axes = [(d, idx(par("clip"), 0), idx(par("clip"), 1))]
        else:
            axes = [(c_(d, i), idx(par(n), 0), idx(par(n), 1)) for i, n in ((0, "x_clip"), (1, "y_clip"))]
        interval(book, fn, mask, axes, es[0].loc)
    # what the likelihood asks for
    r = run(proj, "Likelihood", "set_binning", opaque=opq(*HF, "get_equiprob_bins_1d", "get_equiprob_bins_2d"))
    conf = par("config")
    for fn, want in (("get_equiprob_bins_1d", {"clip": ("clip",)}), ("get_equiprob_bins_2d", {"x_clip": ("x_clip",), "y_clip": ("y_clip",)})):
        f = proj.func(fn)
        names = [a.arg for a in f.node.args.args]
        for c in callterms(r, fn)[:2]:
            kw = {**dict(zip(names, c.a[1])), **dict(c.a[2])}
            for k in want:
                v = kw.get(k)
                book.ob("roi", f"set_binning:{fn}:{k}", False if v is None else True if v is idx(conf, k) else
                        None if not (v.op == "item" and v.a[0] is conf) else False, f"{k} is {show(v)[:60] if v is not None else 'missing'}", r.loc)
            dv = kw.get("data")
            w = attr(SELF, "data") if fn.endswith("2d") else c_(attr(SELF, "data"), 0)
            book.ob("roi", f"set_binning:{fn}:data", same(dv, w) if dv is not None else False, f"data are {show(dv)[:60] if dv is not None else 'missing'}", r.loc)


def between(edges, v):
    import bisect
    i = bisect.bisect_left(edges, v) - 1
    return i if 0 <= i < len(edges) - 1 and v != edges[0] else None


def reference(ev, w, edges, rows):
    """Weights of the events per bin; rows: the second axis has its own edges in every bin of the first."""
    nx = len(edges[0]) - 1
    ny = (len(edges[1][0]) if rows else len(edges[1])) - 1 if len(edges) > 1 else 1
    h = [0.0] * (nx * ny)
    for e, x in zip(ev, w):
        i = between(edges[0], e[0])
        if i is None:
            continue
        j = 0 if len(edges) == 1 else between(edges[1][i] if rows else edges[1], e[1])
        if j is not None:
            h[i * ny + j] += x
    return h


def points(proj, book):
    """The edges and histograms of concrete configurations and events."""
    rnd = random.Random(5)
    r = run(proj, "Likelihood", "set_binning", opaque=opq("get_equiprob_bins_1d", "get_equiprob_bins_2d"))
    m = run(proj, "Component", "implement_binning")
    fb, dh = r.heap.get((SELF, "_bins")), r.heap.get((SELF, "data_hist"))
    if fb is None or dh is None or m.ret is None:
        book.ob("points", "histograms", None, "set_binning does not set the data histogram and the edges", r.loc)
        return
    cfg = par("config")
    for kind in ("meshgrid", "irreg", "equiprob"):
        for d in (1, 2):
            for spec in ("edges", "number") if kind == "meshgrid" or (kind, d) == ("equiprob", 1) or kind == "equiprob" else ("edges",):
                if kind == "equiprob" and spec == "edges":
                    continue
                tag = f"{kind}:{d}D:{spec}"
                clips = [(rnd.uniform(-3, 0), rnd.uniform(2, 6)), (rnd.uniform(-9, -5), rnd.uniform(10, 16))][:d]
                rows = kind != "meshgrid" and d == 2

                def some(k, n):
                    lo, hi = clips[k]
                    return [lo + (hi - lo) * (i + 0.6 * rnd.random() * (0 < i < n)) / n for i in range(n + 1)]
                nb = (4, 3)
                if kind == "meshgrid" and spec == "number":
                    edges = [[lo + (hi - lo) * i / nb[k] for i in range(nb[k] + 1)] for k, (lo, hi) in enumerate(clips)]
                else:
                    edges = [some(0, 4)] + ([[some(1, 3) for _ in range(4)] if rows else some(1, 3)] if d == 2 else [])
                own = [arr(e) for e in edges]
                names = ("clip",) if d == 1 else ("x_clip", "y_clip")
                conf = {n: tuple(c) for n, c in zip(names, clips)}
                ev, w = [], []
                for _ in range(40):
                    ev.append([rnd.uniform(lo - 0.15 * (hi - lo), hi + 0.15 * (hi - lo)) for lo, hi in clips])
                    w.append(rnd.uniform(0.1, 1))
                env = {cfg: conf, attr(SELF, "_bins_type"): kind, attr(SELF, "_dim"): d, attr(SELF, "data"): arr(ev),
                       attr(SELF, "_bins"): tuple(nb[:d]) if spec == "number" else tuple(edges), attr(SELF, "name"): "llh"}
                for x in walk(fb):
                    if x.op == "call" and head(x.a[0]).split(".")[-1] in ("get_equiprob_bins_1d", "get_equiprob_bins_2d"):
                        env[x] = own[0] if head(x.a[0]).endswith("1d") else tuple(own)
                wd = {attr(SELF, "_bins_type"): C(kind), attr(SELF, "_dim"): C(d)}
                try:
                    got = Tensor(env, proj=proj).val(subst(fb, wd))
                    got = [arr(x) for x in (got if isinstance(got, (list, tuple)) else [sub(got, i) for i in range(got.shape[0])])]
                    ok = len(got) == d and all(near(a, b) for a, b in zip(got, own))
                    shown = [[round(v, 3) for v in x.d] for x in got]
                    want = [[round(v, 3) for v in x.d] for x in own]
                    src = f"bins {nb[:d]}" if spec == "number" else "explicit edges"
                    book.ob("points", tag + ":edges", ok, f"{src} over the clip {[tuple(round(v, 3) for v in c) for c in clips]} " + ("give their edges" if ok else f"give edges {str(shown)[:90]} and not {str(want)[:90]}"), r.loc)
                except Unknown as e:
                    book.ob("points", tag + ":edges", None, f"not evaluated: {e}", r.loc)
                    continue
                if not ok:
                    continue
                ref = reference(ev, [1.0] * len(ev), edges, rows)
                try:
                    h = arr(Tensor(env, jax=True, proj=proj).val(subst(dh, wd)))
                    book.ob("points", tag + ":data", verdict(h, ref), differ("data", h, ref), r.loc)
                except Unknown as e:
                    book.ob("points", tag + ":data", None, f"not evaluated: {e}", r.loc)
                ct = r.heap.get((SELF, "component_bins_type"))
                ct = subst(ct, wd) if ct is not None else None
                if ct is None or ct.op != "const":
                    continue
                menv = {attr(SELF, "bins"): tuple(own), attr(SELF, "bins_type"): ct.a[0], attr(SELF, "add_eps_to_hist"): False,
                        par("mc"): arr(ev), par("eff"): arr(w)}
                mref = reference(ev, w, edges, rows)
                try:
                    h = arr(Tensor(menv, jax=True, proj=proj).val(m.ret))
                    book.ob("points", tag + ":model", verdict(h, mref), differ("model", h, mref), m.loc)
                except Unknown as e:
                    book.ob("points", tag + ":model", None, f"not evaluated: {e}", m.loc)


def near(a, b):
    return a.shape == b.shape and all(abs(x - y) < 1e-5 * (1 + abs(y)) for x, y in zip(a.d, b.d))


def verdict(h, ref):
    return len(h.d) == len(ref) and all(abs(x - y) < 1e-5 * (1 + abs(y)) for x, y in zip(h.d, ref))


def differ(who, h, ref):
    if len(h.d) != len(ref):
        return f"histogram of the {who} has {len(h.d)} bins, the edges make {len(ref)}"
    for i, (x, y) in enumerate(zip(h.d, ref)):
        if abs(x - y) >= 1e-5 * (1 + abs(y)):
            return f"bin {i} of the {who} histogram holds {round(x, 4)}, its events weigh {round(y, 4)}"
    return f"{len(ref)} bins of the {who} histogram hold the weight of their events"


def chosen(proj, book):
    """Which of sample events the region-of-interest selections keep: inside every axis, on an edge, beyond an edge, undefined."""
    rnd = random.Random(8)

    def case(book, tag, term, env, clips, events, loc):
        keep = [e for e in events if all(lo < x < hi for x, (lo, hi) in zip(e, clips))]
        try:
            got = Tensor(env, proj=proj).val(canon(term))
            got = arr(got)
        except (Unknown, TypeError) as e:
            book.ob("points", tag, None, f"not evaluated: {e}", loc)
            return
        flat = [x for e in keep for x in e]
        ok = got.d == flat or len(got.d) == len(flat) and all(a == b for a, b in zip(got.d, flat))
        lost = [e for e in keep if not any(list(got.d[i:i + len(e)]) == list(e) for i in range(0, len(got.d), len(e)))]
        book.ob("points", tag, ok, "the events kept are those inside the clip" if ok else
                f"{len(got.d) // len(clips)} of {len(events)} events are kept where {len(keep)} are inside {clips}" + (f", {lost[0]} is lost" if lost else ""), loc)

    def sample(clips):
        ev = [[rnd.uniform(lo - 1, hi + 1) for lo, hi in clips] for _ in range(30)]
        mid = [(lo + hi) / 2 for lo, hi in clips]
        for k, (lo, hi) in enumerate(clips):
            for x in (lo, hi, lo - 1e-3, hi + 1e-3, lo + 1e-3, hi - 1e-3, lo - 50, hi + 50):
                ev.append(mid[:k] + [x] + mid[k + 1:])
        ev.append(mid)
        return ev
    for fn, d in (("get_equiprob_bins_1d", 1), ("get_equiprob_bins_2d", 2)):
        r = run(proj, None, fn)
        es = [e for e in r.events if e.kind == "call" and head(e.fn).split(".")[-1] == "get_equiprobable_binning"]
        if len(es) != 1 or not es[0].args:
            continue
        for clips in ([(-1.5, 2.0), (3.0, 7.5)][:d], [(0.0, 4.0), (-6.0, -2.0)][:d]):
            ev = sample(clips)
            env = {par("data"): arr([e[0] for e in ev] if d == 1 else ev), par("n_partitions"): 3 if d == 1 else (3, 2),
                   **{par(n): tuple(c) for n, c in zip(("clip",) if d == 1 else ("x_clip", "y_clip"), clips)}}
            case(book, f"{fn}:kept:{clips[0][0]}", es[0].args[0], env, clips, ev, es[0].loc)
    r = run(proj, "Likelihood", "__init__", opaque=opq("set_binning", "load_data", "_sanity_check"))
    v = r.heap.get((SELF, "data"))
    if v is None:
        return
    conf = par("**config")
    loads = {x for x in walk(v) if x.op == "call" and head(x.a[0]).split(".")[-1] == "load_data"}
    for d in (1, 2):
        for kind in ("meshgrid", "equiprob", "irreg"):
            clips = [(-1.5, 2.0), (3.0, 7.5)][:d]
            ev = sample(clips)
            table = {f"c{k}": arr([e[k] for e in ev]) for k in range(d)}
            env = {conf: {"bins_on": "c0" if d == 1 else ["c0", "c1"], "bins_type": kind, "bins": 3 if d == 1 else (3, 2), "data_file_name": "f", "clip": clips[0],
                          "x_clip": clips[0], **({"y_clip": clips[1]} if d > 1 else {})}}
            cols = T("symbol", "columns")
            t = v
            for x in loads:
                t = subst(t, {x: cols})
            # the observables are read from the table one after the other
            reads = {x for x in walk(t) if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("to_numpy",) and contains(x, lambda y: y is cols)}
            reads |= {x for x in walk(t) if x.op == "attr" and x.a[1] == "values" and contains(x.a[0], lambda y: y is cols)}
            for x in reads:
                env[x] = arr(ev)
            env[cols] = table
            case(book, f"data:{kind}:{d}D:kept", t, env, clips, ev, r.loc)


def partition(proj, book):
    """The equiprobable binning is asked for what the caller asked for, and its infinite edges end at the clip of their axis."""
    inf = float("inf")
    for fn, d in (("get_equiprob_bins_1d", 1), ("get_equiprob_bins_2d", 2)):
        r = run(proj, None, fn, args={"which_np": G("numpy")})
        cs = callterms(r, "get_equiprobable_binning") if r.ret is not None else []
        if len(cs) != 1:
            continue
        c = cs[0]
        kw = {**dict(zip(("indata", "n_partitions", "order", "integer", "left"), c.a[1])), **dict(c.a[2])}
        names = {a.arg for a in r.func.node.args.args}
        for k in ("n_partitions", "order", "integer", "left"):
            if k not in names:
                continue
            v = kw.get(k)
            got = v is par(k) or v is not None and (plain_(v) is par(k))
            other = v is None or v.op in ("const", "param") or v.op in ("tuple", "list") and all(x.op == "const" for x in v.a)
            book.ob("roi", f"{fn}:asks:{k}", True if got else False if other and "**" not in kw else None, f"{k} is {show(v)[:60] if v is not None else 'left to the default'}", r.loc)
        clips = [(-1.5, 2.0), (3.0, 7.5)][:d]
        e1, e2 = arr([-inf, -0.5, 1.0, inf]), arr([[-inf, 4.0, inf], [-inf, 5.0, inf], [-inf, 6.5, inf]])
        w1, w2 = arr([-1.5, -0.5, 1.0, 2.0]), arr([[3.0, 4.0, 7.5], [3.0, 5.0, 7.5], [3.0, 6.5, 7.5]])
        env = {c: e1 if d == 1 else (e1, e2), **{par(n): tuple(x) for n, x in zip(("clip",) if d == 1 else ("x_clip", "y_clip"), clips)}}
        try:
            t = Tensor(env, proj=proj)
            got = t.val(canon(r.ret))
            got = [arr(got)] if d == 1 else [arr(x) for x in got]
            ok = len(got) == d and all(near(a, b) for a, b in zip(got, [w1, w2]))
            book.ob("points", f"{fn}:ends", ok, "infinite edges end at the clip of their axis" if ok else f"edges {[x.d for x in got]} for clips {clips}", r.loc)
        except (Unknown, TypeError) as e:
            book.ob("points", f"{fn}:ends", None, f"not evaluated: {e}", r.loc)


def plain_(v):
    while v.op == "call" and head(v.a[0]).split(".")[-1] in ("tuple", "list", "asarray", "array", "bool", "int") and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v
