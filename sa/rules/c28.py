"""C28: plots keep samples, log posteriors and names aligned."""

import itertools
import random

from ..help import *
from ..concrete import concrete
from ..numer import Unknown
from ..tensor import Arr, arr, size, strides
from ..world import World

META = {
    "level": "other",
    "technique": "value-flow comparison of the arrays plotted with the labels of the axes they are plotted on",
    "explain": "The constructor of the plotter is evaluated to terms: every chain, log posterior and log prior must be the backend's series with the same "
               "burn-in and thinning, selected by one finiteness mask made from the log posterior of those same iterations.  For each plotting method, the "
               "parameter index of the data drawn on an axis, of its label and of its prior curve must be the same, over all parameters.  The prior curves are "
               "compared with the densities they stand for, the collapse of maps is checked axis by axis.",
    "rules": {
        "series": "a series comes from the backend with the burn-in and thinning asked for",
        "mask": "all series are selected by the same finiteness mask of their own log posterior",
        "best": "the most probable parameters are the sample with the largest log posterior, in the order of the names",
        "names": "names and priors are those stored with the chain",
        "panel": "data, label and prior of a panel belong to the same parameter",
        "every": "panels run over every fitted parameter",
        "curve": "a prior curve is the density of that prior",
        "corner": "columns and labels of the corner plot are in the same order",
        "map": "a plotted map's values belong to the axes and bounds they are plotted at",
    },
    "assumptions": ["emcee's backend returns chains and log posteriors of the same iterations for the same burn-in and thinning"],
}
GET = {"chain": "get_chain", "posterior": "get_log_prob", "prior": "get_blobs"}


def check(proj, book):
    cls = proj.cls("Plotter")
    r = run(proj, "Plotter", "__init__")
    loc = proj.method("Plotter", "__init__").loc
    book.step("series", series, r, loc, book)
    book.step("best", best, r, loc, book)
    for n, f in sorted(cls.methods.items()):
        f = cls.find_method(n)
        if n.startswith("plot"):
            book.step("panel", panels, proj, f, book)
    book.step("curve", curves, proj, book)
    book.step("corner", corner, proj, book)
    book.step("map", maps, proj, book)
    book.floor("series", 6)
    book.floor("mask", 6)
    book.floor("panel", 3)


def series(r, loc, book):
    dis, thin = r.heap.get((SELF, "discard")), r.heap.get((SELF, "thin"))
    book.ob("series", "arguments", True if dis is par("discard") and thin is par("thin") else None if dis is None or thin is None else False if {dis.op, thin.op} <= {"param", "const"} else None,
            "burn-in and thinning are the ones given", loc)
    masks = {}
    for flat in (False, True):
        for n, g in GET.items():
            name = "flat_" + n if flat else n
            t = r.heap.get((SELF, name))
            if t is None:
                book.ob("series", name, None, "the attribute is not set", loc)
                continue
            src, mask = source(t)
            if src is None:
                book.ob("series", name, None, f"{name} is {show(t)[:80]}", loc)
                continue
            m, kw = src.a[0].a[1], {"flat": FALSE, "thin": C(1), "discard": C(0)}
            kw.update({k: v for k, v in zip(("flat", "thin", "discard"), src.a[1])})
            kw.update(dict(src.a[2]))
            d = kw["discard"] is par("discard") or kw["discard"] is attr(SELF, "discard")
            th = kw["thin"] is par("thin") or kw["thin"] is attr(SELF, "thin")
            fl = cval(kw["flat"]) if kw["flat"].op == "const" else None
            simple = all(kw[k].op in ("param", "const") for k in ("discard", "thin"))
            ok = m == g and d and th and fl is flat
            book.ob("series", name, ok or (False if m in GET.values() and simple and fl is not None else None),
                    f"{name} is {m}(discard={show(kw['discard'])[:20]}, thin={show(kw['thin'])[:20]}, flat={show(kw['flat'])[:10]})", loc)
            masks[name] = (rows(mask), src)
    for flat in ("", "flat_"):
        if flat + "posterior" not in masks:
            continue
        ref = masks[flat + "posterior"]
        want = finite(ref[0], ref[1], bool(flat))
        book.ob("mask", flat + "posterior", want, f"selected by {show(ref[0])[:60] if ref[0] is not None else 'no mask'}", loc)
        for n in ("chain", "prior"):
            if flat + n in masks:
                m = masks[flat + n][0]
                ok = m is ref[0]
                if not ok and m is not None and ref[0] is not None:
                    ok = equal(m, ref[0])
                    ok = ok if ok else None if finite(m, ref[1], bool(flat)) else False
                book.ob("mask", flat + n, ok if ok else ok if m is not None or ref[0] is None else False, f"{flat}{n} is selected {'as' if ok else 'differently from'} the log posterior", loc)


def source(t):
    """(backend call, mask) of a series."""
    mask = None
    while True:
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1].startswith("get_"):
            return t, mask
        if t.op == "item" and mask is None and t.a[1].op != "const":
            t, mask = t.a[0], t.a[1]
        elif t.op == "item" and mask is not None and t.a[1].op not in ("const", "slice", "tuple"):
            t, mask = t.a[0], T("tuple", t.a[1], mask)
        elif t.op == "call" and head(t.a[0]) in ("numpy.array", "numpy.asarray", "numpy.copy") and t.a[1]:
            t = t.a[1][0]
        elif t.op == "call" and head(t.a[0]) == "numpy.compress" and len(t.a[1]) == 2 and mask is None:
            t, mask = t.a[1][1], t.a[1][0]
        else:
            return None, None


def finite(mask, src, flat):
    """The mask keeps exactly the iterations (samples) of this series whose log posterior is finite."""
    if mask is None:
        return False
    m = canon(mask)
    if not flat:
        if m.op == "f" and m.a[0] == "all":
            ax = dict(m.a[2]).get("axis", m.a[1][1] if len(m.a[1]) > 1 else None)
            if ax is None or not (isc(ax, 1) or isc(ax, -1)):
                return False if ax is not None and ax.op == "const" else None
            m = m.a[1][0]
        elif m.op == "f" and m.a[0] == "any":
            return False
        else:
            return None
    if m.op == "f" and m.a[0] == "isfinite":
        return True if m.a[1][0] is canon(src) else False if callname(m.a[1][0]) in GET.values() else None
    if m.op in ("not", "un") and any(x.op == "f" and x.a[0] in ("isnan", "isinf") for x in walk(m)) and not any(x.op == "f" and x.a[0] in ("isfinite", "logical_or", "logical_and") or x.op == "bin" for x in walk(m)):
        return False
    if m.op == "f" and m.a[0] in ("isnan", "isinf"):
        return False
    return None


def rows(mask):
    """A selection of all columns of some rows is a selection of those rows."""
    while mask is not None and mask.op == "tuple" and len(mask.a) > 1 and all(x.op == "slice" and all(y is NONE or isc(y, None) for y in x.a) for x in mask.a[1:]):
        mask = mask.a[0]
    return mask


def callname(t):
    return t.a[0].a[1] if t.op == "call" and t.a[0].op == "attr" else None


def best(r, loc, book):
    names = r.heap.get((SELF, "param_names"))
    pri = r.heap.get((SELF, "param_prior"))
    for what, t, key in (("param_names", names, "parameter_fit"), ("param_prior", pri, "par_config")):
        ks = {x.a[1].a[0] for x in walk(t) if x.op == "item" and x.a[1].op == "const" and x.a[0].op == "attr" and x.a[0].a[1] == "attrs"} if t is not None else set()
        book.ob("names", what, True if ks == {key} else False if ks and key not in ks else None, f"{what} is read from attribute {sorted(ks)}", loc)
    mpe = r.heap.get((SELF, "param_mpe"))
    fc, fp = r.heap.get((SELF, "flat_chain")), r.heap.get((SELF, "flat_posterior"))
    if mpe is None or fc is None or fp is None:
        book.ob("best", "param_mpe", None, "not set", loc)
        return
    picks = [x for x in walk(mpe) if x.op == "call" and head(x.a[0]).startswith("numpy.") and head(x.a[0])[6:] in ("argmax", "argmin", "nanargmax", "nanargmin", "argsort")
             or x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("argmax", "argmin", "argsort")]
    if len(picks) != 1:
        book.ob("best", "param_mpe", None, f"{len(picks)} selections", loc)
        return
    p = picks[0]
    over = p.a[1][0] if head(p.a[0]).startswith("numpy.") else p.a[0].a[0]
    n = head(p.a[0]).rsplit(".", 1)[-1] if head(p.a[0]).startswith("numpy.") else p.a[0].a[1]
    ok = n in ("argmax", "nanargmax") and over is fp
    book.ob("best", "largest", ok or (False if n in ("argmin", "nanargmin") or source(over)[0] is not None else None), f"the best sample is {n} of {'the log posterior' if over is fp else show(over)[:60]}", loc)
    rows = [x for x in walk(mpe) if x.op == "item" and (x.a[1] is p or x.a[1].op == "tuple" and x.a[1].a and x.a[1].a[0] is p)]
    ok = bool(rows) and all(x.a[0] is fc for x in rows)
    book.ob("best", "row", ok or (False if rows and all(source(x.a[0])[0] is not None for x in rows) else None), "the sample is taken from the same selection of the chain", loc)
    if mpe.op == "comp" and mpe.a[0] == "dict" and names is not None:
        k, v = mpe.a[1].a[:2] if mpe.a[1].op in ("tuple", "pair") else (None, None)
        if k is None and isinstance(mpe.a[1], tuple):
            k, v = mpe.a[1][:2]
        if k is None:
            return
        lid = mpe.a[2]
        ok = None
        if k is T("elem", lid, mpe.a[3]) and same_source(mpe.a[3], names) and v.op == "item" and v.a[0] in rows:
            i = v.a[1]
            ok = i is T("idx", lid, mpe.a[3]) if i.op in ("idx", "const") or any(y.op == "idx" for y in walk(i)) else None
        elif k.op == "item" and k.a[0] is names and v.op == "item" and v.a[0] in rows:
            ok = k.a[1] is v.a[1] or (None if equal(k.a[1], v.a[1]) is None else equal(k.a[1], v.a[1]))
        elif k.op == "elem" or k.op == "item":
            ok = None
        book.ob("best", "order", ok, "each value is filed under the name at its position", loc)


def same_source(a, b):
    return a is b or srcof(a) is b


# -- panels
def name_keys(t, extra=()):
    """Positions of the parameter names in a term."""
    names = attr(SELF, "param_names")
    out = set()
    for x in walk(t):
        if x.op == "item" and (x.a[0] is names or x.a[0] in extra):
            out.add(pos(x.a[1]))
        elif x.op == "elem" and (srcof(x.a[1]) is names if isinstance(x.a[1], Term) else False):
            out.add(("loop", x.a[0]))
    return out


def ranged(t):
    """(first, end, step) of a range."""
    a = t.a if t.op == "range" else t.a[1] if t.op == "call" and head(t.a[0]) in ("builtins.range", "numpy.arange") and not t.a[2] else None
    if not a:
        return None
    return (C(0), a[0], C(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else C(1))


def pos(i):
    if i.op == "idx":
        return ("loop", i.a[0])
    if i.op == "elem" and isinstance(i.a[1], Term) and ranged(i.a[1]) is not None:
        return ("loop", i.a[0])
    if i.op == "const":
        return ("const", i.a[0])
    return ("term", i)


def data_keys(t):
    """(positions of parameters, kinds of series) a plotted term is made of."""
    keys, kinds = set(), set()
    inner = set()
    for x in walk(t):
        if x.op == "item" and x.a[0].op == "attr" and x.a[0].a[0] is SELF and x.a[0].a[1] in ("chain", "flat_chain", "posterior", "prior", "flat_posterior", "flat_prior"):
            n = x.a[0].a[1].replace("flat_", "")
            inner.add(x.a[0])
            kinds.add(n)
            if n == "chain":
                i = x.a[1]
                want = 2 if x.a[0].a[1] == "flat_chain" else 3
                if i.op == "tuple" and len(i.a) == want:
                    keys.add(pos(i.a[-1]))
                elif i.op == "tuple" and len(i.a) == 2 and isc(i.a[0], Ellipsis):
                    keys.add(pos(i.a[-1]))
                else:
                    keys.add(None)
    for x in walk(t):
        if x.op == "attr" and x.a[0] is SELF and x.a[1] in ("chain", "flat_chain", "posterior", "prior", "flat_posterior", "flat_prior") and x not in inner:
            kinds.add(x.a[1].replace("flat_", ""))
            if "chain" in x.a[1]:
                keys.add(None)
    return keys, kinds


def panels(proj, f, book):
    r = run(proj, "Plotter", f.name, opaque=opq("_norm_pdf", "_uniform_pdf", "_thn_pdf"))
    labels = {}
    draws = {}
    for e in r.events:
        if e.kind != "call" or not isinstance(e.fn, Term) or e.fn.op != "attr":
            continue
        m, ax = e.fn.a[1], e.fn.a[0]
        if m in ("set_xlabel", "set_ylabel", "set_title") and e.args:
            labels.setdefault(ax, []).append((e.args[0], e.loc))
        elif m in ("plot", "hist", "axvline", "axhline", "fill_between", "scatter", "step"):
            draws.setdefault(ax, []).append((m, e))
    n = 0
    for ax, ls in labels.items():
        lk = set()
        texts = set()
        for t, loc in ls:
            lk |= name_keys(t)
            texts |= {x.a[0].lower() for x in walk(t) if x.op == "const" and isinstance(x.a[0], str)}
        for m, e in draws.get(ax, ()):
            args = list(e.args)
            y = args[1] if m in ("plot", "step", "scatter", "fill_between") and len(args) > 1 else args[0] if args else None
            if y is None:
                continue
            dk, kinds = data_keys(drop_shapes(y))
            pk = {k for x in walk(y) if x.op == "item" and x.a[0] is attr(SELF, "param_prior") for k in name_keys(x.a[1])}
            if lk and (dk or kinds):
                n += 1
                if kinds - {"chain"}:
                    ok = False
                elif None in dk or len(dk) != 1 or len(lk) != 1:
                    ok = None
                else:
                    a, b = next(iter(dk)), next(iter(lk))
                    ok = True if a == b else None if "term" in (a[0], b[0]) and equal(key_term(a), key_term(b)) is None else equal(key_term(a), key_term(b)) if "term" in (a[0], b[0]) else False
                book.ob("panel", f"{f.name}:{e.loc[1]}", ok, f"{m} draws parameter {sorted(map(str, dk))[:2]} under the name at {sorted(map(str, lk))[:2]}"[:200], e.loc)
            if lk and pk:
                ok = True if pk == lk else False if all(k and k[0] != "term" for k in pk | lk) else None
                book.ob("panel", f"{f.name}:prior:{e.loc[1]}", ok, "the prior drawn is that of the parameter labelled", e.loc)
            if not lk and kinds and texts:
                want = {k for k in ("posterior", "prior") if any(k in x for x in texts)}
                if len(want) == 1:
                    n += 1
                    book.ob("panel", f"{f.name}:{e.loc[1]}", kinds == want or (False if len(kinds) == 1 else None), f"{m} draws {sorted(kinds)} under {sorted(texts)[:2]}", e.loc)
    # completeness of the panels
    spans = {}
    for ax, ls in labels.items():
        for t, loc in ls:
            for x in walk(t):
                if x.op in ("item", "elem"):
                    for y in walk(x):
                        if y.op in ("idx", "elem") and isinstance(y.a[1], Term) and ("loop", y.a[0]) in name_keys(t):
                            spans[y.a[1]] = loc
    for s, loc in spans.items():
        s0 = srcof(s)
        if s0 is attr(SELF, "param_names"):
            ok = True
        elif ranged(s) is not None:
            lo, hi, st = ranged(s)
            full = [attr(SELF, "n_param"), T("call", G("builtins.len"), (attr(SELF, "param_names"),), ()), idx(attr(SELF, "chain", "shape"), C(2)), idx(attr(SELF, "flat_chain", "shape"), C(1))]
            eqs = [equal(hi, x) for x in full]
            ok = True if True in eqs and isc(lo, 0) and isc(st, 1) else False if (isc(lo) and lo.a[0] not in (0,)) or any(x is attr(SELF, "n_param") for x in walk(hi)) and eqs[0] is False else None
        else:
            ok = None
        book.ob("every", f"{f.name}", ok, f"the panels run over {show(s)[:60]}", loc)


def key_term(k):
    return k[1] if k[0] == "term" else C(k[1]) if k[0] == "const" else T("idx", k[1], C("loop"))


def drop_shapes(t):
    """Without the shapes of arrays, which say nothing about their values."""
    return rewrite(t, lambda x: C("shape") if x.op == "attr" and x.a[1] == "shape" or x.op == "call" and head(x.a[0]) == "builtins.len" else x)


# -- densities
def curves(proj, book):
    for n, fn in (("norm", "_norm_pdf"), ("uniform", "_uniform_pdf")):
        f = proj.method("Plotter", fn)
        r = run(proj, "Plotter", fn)
        got = canon(r.ret) if r.ret is not None else None
        if got is not None and got.op == "f" and got.a[0] == "full_like":
            got = got.a[1][1]
        if got is not None:
            got = canon(rewrite(got, known_pdf))
            got = rewrite(got, lambda x: C(1) if x.op == "f" and x.a[0] in ("ones_like", "ones") else x)
        want = spec(proj, "plot", n, **{p: par(p) for p in f.params if p != "self"})
        book.ob("curve", n, None if got is None or any(x.op == "call" for x in walk(got)) else equal(roots(got), roots(canon(want))), f"the curve of a {n} prior", f.loc)
    f = proj.method("Plotter", "_thn_pdf")
    r = run(proj, "Plotter", "_thn_pdf", opaque=opq("logpdf", "errors_to_two_half_norm_sigmas"))
    t = r.ret
    ok = None
    if t is not None:
        t = canon(t)
        calls_ = [x for x in walk(t) if x.op == "call" and head(x.a[0]).endswith("logpdf")]
        if len(calls_) == 1 and t.op == "f" and t.a[0] == "exp" and t.a[1][0] is calls_[0]:
            a = [calls_[0].a[1][i] if i < len(calls_[0].a[1]) else dict(calls_[0].a[2]).get(k) for i, k in enumerate(("x", "mu", "sigma_pos", "sigma_neg"))]
            conv = [sig(a[2]), sig(a[3])]
            ok = a[0] is par("x") and a[1] is par("mu") and conv == [("sigma_pos", 0), ("sigma_neg", 1)]
            if not ok and None in conv and not {par("sigma_pos"), par("sigma_neg")} & {a[2], a[3]}:
                ok = None
        elif len(calls_) == 1 and t is calls_[0]:
            ok = False
    book.ob("curve", "twohalfnorm", ok, "the curve of a two-sided normal prior, its widths converted as in the fit", f.loc)


def known_pdf(x):
    """scipy's densities, written out."""
    if x.op == "call" and head(x.a[0]) == "scipy.stats.norm.pdf":
        v = [x.a[1][i] if i < len(x.a[1]) else dict(x.a[2]).get(k, C(i - 1)) for i, k in enumerate(("x", "loc", "scale"))]
        z = T("bin", "/", T("bin", "-", v[0], v[1]), v[2])
        e = T("call", G("numpy.exp"), (T("bin", "*", C(-0.5), T("bin", "**", z, C(2))),), ())
        return T("bin", "/", e, T("bin", "*", T("call", G("numpy.sqrt"), (T("bin", "*", C(2), G("numpy.pi")),), ()), v[2]))
    return x


def roots(t):
    """Roots of products of positive quantities, factor by factor (the widths of priors are positive)."""
    def go(x):
        if x.op == "f" and x.a[0] == "sqrt":
            n, d = ratio(x.a[1][0])
            if len(n.d) == 1 and len(d.d) == 1:
                out = C(1)
                (nm, nc), (dm, dc) = next(iter(n.d.items())), next(iter(d.d.items()))
                out = T("f", "sqrt", (C(float(nc / dc)),), ())
                for o, m in (("*", nm), ("/", dm)):
                    for a, e in sorted(m, key=lambda ae: repr(ae[0])):
                        for _ in range(e // 2):
                            out = T("bin", o, out, a)
                        if e % 2:
                            out = T("bin", o, out, T("f", "sqrt", (a,), ()))
                return out
        return x
    return rewrite(t, go)


def sig(t):
    """(name of the width, position) of a converted width."""
    if t is None or t.op != "item" or t.a[0].op != "call" or not head(t.a[0].a[0]).endswith("errors_to_two_half_norm_sigmas") or t.a[1].op != "const" or not t.a[0].a[1]:
        return None
    s = t.a[0].a[1][0]
    i = t.a[1].a[0]
    if s.op in ("tuple", "list") and i in (0, 1) and len(s.a) == 2 and all(x.op == "param" for x in s.a):
        return s.a[i].a[0] if s.a[0].a[0] == "sigma_pos" else "swapped", i
    return None


# -- corner plot
def corner(proj, book):
    f = proj.method("Plotter", "plot_corner")
    r = run(proj, "Plotter", "plot_corner", opaque=opq("_norm_pdf", "_uniform_pdf", "_thn_pdf"))
    cs = [e for e in r.events if e.kind == "call" and head(e.fn) == "corner.corner"]
    if len(cs) != 1:
        book.ob("corner", "columns", None, f"{len(cs)} corner plots", f.loc)
        return
    s, l = arg(cs[0], 0, "data"), arg(cs[0], 99, "labels")
    cols, labs = parts(s), parts(l)
    if cols is None or labs is None:
        book.ob("corner", "columns", None, "columns are not concatenated", cs[0].loc)
        return
    a = []
    for c in cols:
        k = {x.a[1].replace("flat_", "") for x in walk(c) if x.op == "attr" and x.a[0] is SELF and x.a[1] in ("flat_chain", "flat_posterior", "flat_prior", "chain", "posterior", "prior")}
        a.append(next(iter(k)) if len(k) == 1 else None)
    b = []
    for x in labs:
        if x is attr(SELF, "param_names"):
            b.append("chain")
        elif x.op in ("list", "tuple"):
            b += [next((k for k in ("posterior", "prior") if k in y.a[0].lower()), None) if isc(y) and isinstance(y.a[0], str) else None for y in x.a]
        elif isc(x) and isinstance(x.a[0], str):
            b.append(next((k for k in ("posterior", "prior") if k in x.a[0].lower()), None))
        else:
            b.append(None)
    book.ob("corner", "columns", None if None in a or None in b else a == b, f"columns {a}, labels {b}", cs[0].loc)
    for e in r.events:
        if e.kind != "call" or not isinstance(e.fn, Term) or e.fn.op != "attr" or e.fn.a[1] not in ("plot", "axvline") or not e.args:
            continue
        ax = e.fn.a[0]
        if ax.op != "item" or ax.a[1].op != "tuple" or len(ax.a[1].a) != 2:
            continue
        i, j = (pos(x) for x in ax.a[1].a)
        ks = {pos(y.a[1]) for x in walk(T("list", *e.args)) if x.op == "item" and x.a[0] in (attr(SELF, "param_mpe"), attr(SELF, "param_prior")) for y in walk(x.a[1])
              if y.op == "item" and (y.a[0] is l or y.a[0] is attr(SELF, "param_names"))}
        if ks:
            simple = all(k[0] != "term" for k in ks | {i, j})
            book.ob("corner", f"{e.fn.a[1]}:{e.loc[1]}", (i == j and ks == {i}) or (False if simple else None), f"{e.fn.a[1]} on panel {i}, {j} of the parameter at {sorted(map(str, ks))}"[:150], e.loc)
        fns = {x.a[0].a[1] for x in walk(T("list", *e.args)) if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0] is SELF and x.a[0].a[1].endswith("_pdf")}
        kinds = {x.a[2].a[0] if x.a[2].op == "const" else x.a[1].a[0] for g in e.guard for x in walk(g) if x.op == "cmp" and x.a[0] == "==" and (x.a[1].op == "const" or x.a[2].op == "const") and any(y.op == "const" and y.a[0] == "prior_type" for y in walk(x))}
        if len(fns) == 1 and len(kinds) == 1:
            want = {"norm": "_norm_pdf", "uniform": "_uniform_pdf", "twohalfnorm": "_thn_pdf"}.get(next(iter(kinds)))
            book.ob("corner", f"curve:{next(iter(kinds))}", None if want is None else next(iter(fns)) == want, f"a {next(iter(kinds))} prior is drawn by {next(iter(fns))}", e.loc)
    for e in run(proj, "Plotter", "plot_marginal_posterior", opaque=opq("_norm_pdf", "_uniform_pdf", "_thn_pdf")).events:
        if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] == "plot":
            for x in walk(T("list", *e.args)):
                if x.op == "dict":
                    for k, v in x.a:
                        want = {"norm": "_norm_pdf", "uniform": "_uniform_pdf", "twohalfnorm": "_thn_pdf"}.get(cval(k) if isinstance(k, Term) else k)
                        if want and isinstance(v, Term) and v.op == "attr" and v.a[0] is SELF:
                            book.ob("corner", f"marginal:{want}", v.a[1] == want, f"prior {show(k) if isinstance(k, Term) else k} is drawn by {v.a[1]}", e.loc)


def parts(t):
    """Operands of a concatenation along columns."""
    if t is None:
        return None
    c = canon(t)
    if c.op == "f" and c.a[0] in ("concatenate", "hstack", "column_stack", "append", "c_") and c.a[1]:
        if c.a[0] == "append":
            return list(c.a[1][:2])
        if c.a[1][0].op in ("tuple", "list"):
            return list(c.a[1][0].a)
    if c.op in ("list", "tuple"):
        out = []
        for x in c.a:
            out.append(x.a[0] if x.op == "star" else x)
        return out
    if c.op == "bin" and c.a[0] == "+":
        a, b = parts(c.a[1]), parts(c.a[2])
        return None if a is None or b is None else a + b
    if c.op == "call" and head(c.a[0]) in ("builtins.list", "builtins.tuple") and c.a[1]:
        return [c.a[1][0]]
    return None


# -- maps
EDGES, COLL = "_regbin_edges_centers", "_collapse_regbin_map"
DRAW = ("_plot_map_2d_regbin", "_plot_map_1d_regbin", "_plot_map_1d_point", "_plot_sigma_map_1d_regbin", "_plot_sigma_map_1d_point")


def plotfn(proj, name):
    fs = proj.lookup_funcs("appletree.plot." + name)
    return fs[0] if fs else None


def maps(proj, book):
    for part in (edges, collapse, collapsed, route, draw2d, draw1d):
        book.step("map", part, proj, book)


def edges(proj, book):
    f = plotfn(proj, EDGES)
    if f is None or f.params[:4] != ["lower", "upper", "n_bins", "is_log"]:
        return
    for log in (False, True):
        r = evalf(proj, f)
        t = pick(r.ret, par("is_log"), log) if r.ret is not None else None
        c = pick(t.a[1], par("is_log"), log) if t is not None and t.op == "tuple" and len(t.a) == 2 else None
        want = spec(proj, "plot", "edges_log" if log else "edges_lin", lower=par("lower"), upper=par("upper"), n=par("n_bins"))
        book.ob("map", f"centers:{'log' if log else 'linear'}", None if c is None else equal(c, want), "a map's values are drawn at the nodes they are stored for", f.loc)


def pick(t, cond, val):
    """A term under the assumption that a parameter is true (or not)."""
    def go(x):
        if x.op == "phi" and x.a[0] is cond:
            return x.a[1] if val else x.a[2]
        return x
    return rewrite(t, go)


def collapse(proj, book):
    f = plotfn(proj, COLL)
    if f is None:
        return
    r = evalf(proj, f, EDGES)
    means = [e for e in r.events if e.kind == "call" and head(e.fn).startswith("numpy.") and head(e.fn)[6:] in ("mean", "average", "nanmean", "sum", "nansum", "median", "max", "min")]
    pops = [e for e in r.events if e.kind == "mutate" and e.fn == "pop"]
    axes = {arg(e, 1, "axis") for e in means}
    for e in means:
        n = head(e.fn)[6:]
        book.ob("map", f"average:{e.loc[1]}", n in ("mean", "average", "nanmean") and (n != "average" or arg(e, 2, "weights") is None), f"bins are combined by {n}", e.loc)
    if len(axes) != 1 or None in axes:
        book.ob("map", "collapse", None, f"{len(axes)} axes", f.loc)
        return
    ax = next(iter(axes))
    popped = {}
    for e in pops:
        x = e.args[0]
        n = x.a[1] if x.op == "loopvar" else None
        popped[n] = (arg(e, 1, "index"), e.loc)
    for n, (i, loc) in popped.items():
        book.ob("map", f"collapse:{n}", True if i is ax else None if i is None or i.op not in ("item", "elem", "const", "bin", "call") else equal(i, ax), f"{n} loses the entry of the averaged axis", loc)
    for want in ("coordinate_name", "coordinate_lowers", "coordinate_uppers", "is_log_axes"):
        if popped and len(pops) > 1:
            if want not in popped and r.ret is not None and kept(r.ret, popped, ("coordinate_name", "coordinate_lowers", "coordinate_uppers", "is_log_axes").index(want) + 1):
                book.ob("map", f"collapse:{want}", False, f"{want} keeps the entry of the averaged axis", f.loc)
    # highest axis first
    src = ax.a[0] if ax.op == "item" else ax
    if src.op == "elem" and isinstance(src.a[1], Term):
        s = src.a[1]
        ok = None
        if s.op == "call" and head(s.a[0]) == "builtins.sorted":
            rev = dict(s.a[2]).get("reverse", FALSE)
            key = dict(s.a[2]).get("key")
            k = key_sign(r, key)
            if k and (isc(rev, True) or isc(rev, False)):
                ok = (k > 0) == rev.a[0]
        elif s.op == "comp":
            ok = False if s.a[3] is par("collapse") and any(x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "index" for x in walk(s)) else None
        book.ob("map", "collapse:order", ok, "axes are removed from the last to the first, so that the positions of the others stay valid", f.loc)
    for e in r.events:
        if e.kind == "call" and head(e.fn).endswith(EDGES):
            names = []
            for i, n in enumerate(("coordinate_lowers", "coordinate_uppers", None, "is_log_axes")):
                if n is None:
                    continue
                t = e.args[i] if i < len(e.args) else None
                names.append(None if t is None or t.op != "item" or t.a[0].op != "loopvar" else t.a[0].a[1] == n and t.a[1] is ax)
            known = all(x is not None for x in names) and {"coordinate_lowers", "coordinate_uppers", "is_log_axes"} <= set(popped)
            book.ob("map", "collapse:centers", None if not known else all(names), "a range is cut on the bin centers of that axis", e.loc)


def collapsed(proj, book):
    """The collapse specialised to sample sets of axes, compared with the mean over exactly the chosen axes and range."""
    f = plotfn(proj, COLL)
    ps = [a.arg for a in f.node.args.args]
    if len(ps) < 5:
        return
    rnd = random.Random(3)
    names = ["x", "y", "z"]
    for k, (n, coll) in enumerate([(1, {"x": None}), (2, {"x": None}), (2, {"y": None}), (2, {"y": (2.0, 60.0)}), (2, {"other": None}), (2, None), (3, {"y": None}),
                                   (3, {"x": None, "z": None}), (3, {"z": None, "x": None}), (3, {"x": (0.9, 3.2), "z": None}), (3, {"z": (3.0, 4.5), "y": (1.0, 20.0)}),
                                   (3, {"y": (2e6, 3e6)}), (3, {"x": None, "y": None, "z": None}), (2, {"x": (1.0, 1.0)})]):
        shape = (4, 3, 5)[:n]
        data = Arr(shape, [rnd.uniform(-1, 1) for _ in range(size(shape))])
        los, ups, logs = [0.0, 1.0, 2.0][:n], [3.0, 100.0, 5.0][:n], [False, True, False][:n]
        tag = f"collapse:{n}D:{','.join(coll) if coll else coll}:{k}"
        try:
            r = concrete(proj, None, f.name, {ps[0]: data, ps[1]: names[:n], ps[2]: los, ps[3]: ups, ps[4]: coll, **({ps[5]: logs} if len(ps) > 5 else {})})
            got = r.ten.val(canon(r.ret))
            if not isinstance(got, tuple) or len(got) != 5:
                raise Unknown("result")
            m, rest = arr(got[0]), [[y for y in (arr(x).d if not all(isinstance(y, str) for y in x) else x)] for x in got[1:]]
        except (Unknown, TypeError, AttributeError) as e:
            book.ob("map", tag, None, f"not evaluated: {e}", f.loc)
            continue
        want, keep = data, list(range(n))
        for a in sorted((names.index(x) for x in coll or () if x in names[:n]), reverse=True):
            c = [los[a] + (ups[a] - los[a]) * i / (shape[a] - 1) for i in range(shape[a])]
            if logs[a]:
                c = [los[a] * (ups[a] / los[a]) ** (i / (shape[a] - 1)) for i in range(shape[a])]
            lim = coll[names[a]]
            sel = [i for i, v in enumerate(c) if lim is None or lim[0] <= v <= lim[1]] or list(range(shape[a]))
            want = mean_over(want, a, sel)
            keep.remove(a)
        ref = [[x[i] for i in keep] for x in (names, los, ups, logs)]
        ok = m.shape == want.shape and all(abs(x - y) < 1e-6 for x, y in zip(m.d, want.d))
        book.ob("map", tag, ok, f"collapsing {list(coll or ())} of a {n}D map " + ("averages over exactly these" if ok else f"gives {[round(x, 3) for x in m.d[:4]]} (shape {m.shape}), the average is {[round(x, 3) for x in want.d[:4]]} (shape {want.shape})"), f.loc)
        book.ob("map", tag + ":axes", rest == ref, f"axes left are {rest}" + ("" if rest == ref else f", expected {ref}"), f.loc)


def mean_over(a, axis, sel):
    st = strides(a.shape)
    sh = a.shape[:axis] + a.shape[axis + 1:]
    out = []
    for ix in itertools.product(*[range(k) for k in sh]):
        full = lambda j: sum(i * s for i, s in zip(ix[:axis] + (j,) + ix[axis:], st))
        out.append(sum(a.d[full(j)] for j in sel) / len(sel))
    return Arr(sh, out)


def kept(ret, popped, k):
    """A list is returned as it came although the others are returned shortened."""
    for x in walk(ret):
        if x.op == "tuple" and len(x.a) == 5 and sum(y.op == "loopout" and y.a[1] in popped for y in x.a) >= 2:
            return not any(y.op in ("loopout", "loopvar", "mutated", "unknown") for y in walk(x.a[k]))
    return False


def evalf(proj, f, *opaque):
    ev = World(proj, opaque=opq(*opaque))
    r = ev.run(f)
    r.ev, r.func = ev, f
    return r


def key_sign(r, key):
    """+1 (-1) when the key is the first entry of what is sorted (its negative)."""
    if key is None:
        return 1
    if key.op == "closure":
        t = canon(applied(r, key, par("x")))
        first = idx(par("x"), C(0))
        return 1 if equal(t, first) else -1 if equal(t, T("bin", "*", C(-1), first)) else None
    return 1 if key.op == "call" and head(key.a[0]).endswith("itemgetter") and bool(key.a[1]) and isc(key.a[1][0], 0) else None


PLACE = {"map_data": 0, "med_data": 0, "low_data": 0, "up_data": 0, "coord_name": 1, "coord_names": 1, "coord_lower": 2, "coord_lowers": 2, "coord_upper": 3, "coord_uppers": 3, "is_log": 4}
ATTR = {"coordinate_lowers": 2, "coordinate_uppers": 3, "coordinate_name": 1, "map": 0}


def route(proj, book):
    """The pieces of a map keep their roles on their way to the drawing functions."""
    for name in ("_plot_regular_map", "_plot_sigma_map"):
        f = plotfn(proj, name)
        if f is None:
            continue
        r = evalf(proj, f, COLL, *DRAW)
        for e in r.events:
            if e.kind != "call":
                continue
            n = head(e.fn).rsplit(".", 1)[-1]
            if n == COLL:
                for k, p in enumerate(("map_data", "coordinate_name", "coordinate_lowers", "coordinate_uppers")):
                    got = role(arg(e, k, p))
                    book.ob("map", f"{name}:{p}:{e.loc[1]}", None if got is None else got == k, f"{p} is given {show(arg(e, k, p))[:60]}" if arg(e, k, p) is not None else p, e.loc)
                lg = arg(e, 5, "is_log")
                kinds = {y.a[0] for x in walk(lg) if x.op == "cmp" and x.a[0] in ("==", "in") for c in x.a[1:] for y in walk(c) if y.op == "const" and isinstance(y.a[0], str)} if lg is not None else set()
                book.ob("map", f"{name}:is_log:{e.loc[1]}", True if kinds == {"log_regbin"} and not any(x.op in ("not", "cmp") and x.a[0] in ("!=",) for x in walk(lg)) else False if lg is None or kinds and (kinds & {"regbin", "point", "log_point"} and any(x.op == "comp" for x in walk(lg))) else None,
                        "logarithmic axes are the ones declared log_regbin", e.loc)
            elif n in DRAW:
                g = plotfn(proj, n)
                for k, p in enumerate(g.params if g else ()):
                    t = arg(e, k, p)
                    if p in PLACE and t is not None:
                        got = role(t)
                        ok = None if got is None else got == PLACE[p]
                        if ok and n.endswith("1d_regbin") and p != "map_data" and not p.endswith("data"):
                            ix = t.a[1] if t.op == "item" else None
                            ok = True if ix is not None and isc(ix, 0) else False if ix is not None and ix.op == "const" and ix.a[0] not in (0, -1) and got is not None and t.a[0].op == "item" else ok
                        book.ob("map", f"{name}:{n}:{p}:{e.loc[1]}", ok, f"{p} is given {show(t)[:60]}", e.loc)
                if n == "_plot_map_2d_regbin":
                    lab, data = arg(e, 6, "label"), arg(e, 1, "map_data")
                    if lab is not None and data is not None:
                        texts = " ".join(x.a[0] for x in walk(lab) if x.op == "const" and isinstance(x.a[0], str))
                        want = [k for k in ("median", "lower", "upper") if k in texts]
                        first = first_map(data)
                        book.ob("map", f"sigma:{','.join(want)}", None if len(want) != 1 or first is None else first == want[0], f"{first} data under the label {texts}", e.loc)
                elif n == "_plot_sigma_map_1d_regbin":
                    for i, k in ((1, "median"), (2, "lower"), (3, "upper")):
                        got = first_map(arg(e, i, {1: "med_data", 2: "low_data", 3: "up_data"}[i]))
                        book.ob("map", f"sigma1d:{k}", None if got is None else got == k, f"{got} data drawn as {k}", e.loc)


def role(t):
    """Which piece of a map a value is: values, names, lower or upper bounds, or scale."""
    if t is None:
        return None
    base = t
    while base.op in ("item", "call"):
        if base.op == "item" and base.a[0].op == "call" and head(base.a[0].a[0]).endswith(COLL):
            return base.a[1].a[0] if base.a[1].op == "const" else None
        if base.op == "call":
            if head(base.a[0]).rsplit(".", 1)[-1] in ("list", "array", "asarray", "tuple") and base.a[1]:
                base = base.a[1][0]
                continue
            return None
        base = base.a[0]
    if base.op == "attr" and base.a[1] in ATTR:
        return ATTR[base.a[1]]
    return None


def draw2d(proj, book):
    f = plotfn(proj, "_plot_map_2d_regbin")
    if f is None:
        return
    r = evalf(proj, f, EDGES)
    shown = [e for e in r.events if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] in ("imshow",)]
    if len(shown) != 1:
        return
    e = shown[0]
    data, ext = arg(e, 0, "X"), arg(e, 99, "extent")
    org = arg(e, 99, "origin")
    c = canon(data) if data is not None else None
    tr = c is not None and (c.op == "f" and c.a[0] in ("transpose", "T") and c.a[1][0] is par("map_data") or c.op == "attr" and c.a[1] == "T" and c.a[0] is par("map_data") or c.op in ("T", "transpose"))
    book.ob("map", "image", True if tr else False if data is par("map_data") else None, "the first axis of a map is drawn along x", e.loc)
    book.ob("map", "origin", True if org is not None and isc(org, "lower") else False if org is None or org.op == "const" else None, "the image starts at the lower bounds", e.loc)
    if ext is not None and ext.op in ("list", "tuple") and len(ext.a) == 4:
        for k, x in enumerate(ext.a):
            ends = {(y.a[0].a[0], y.a[1]) for y in walk(x) if y.op == "item" and y.a[0].op == "item" and y.a[0].a[0].op == "call" and head(y.a[0].a[0].a[0]).endswith(EDGES)}
            axis = {ax_of(cl) for cl, _ in ends}
            at = {i.a[0] for _, i in ends if i.op == "const"}
            ok = None if len(axis) != 1 or None in axis or len(at) != 1 else axis == {k // 2} and at == {(0, -1)[k % 2]}
            book.ob("map", f"extent:{k}", ok, f"side {k} of the image is edge {sorted(at)} of axis {sorted(map(str, axis))}", e.loc)
    for e in r.events:
        if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] in ("set_xlabel", "set_ylabel") and e.args:
            k = 0 if e.fn.a[1] == "set_xlabel" else 1
            got = {x.a[1].a[0] for x in walk(e.args[0]) if x.op == "item" and x.a[0] is par("coord_names") and x.a[1].op == "const"}
            book.ob("map", e.fn.a[1], None if len(got) != 1 else got == {k}, f"axis {k} is named after coordinate {sorted(got)}", e.loc)


def ax_of(call):
    """Axis whose edges are computed."""
    got = set()
    for t in call.a[1]:
        for x in walk(t):
            if x.op == "item" and x.a[1].op == "const" and isinstance(x.a[1].a[0], int) and (x.a[0] in (par("coord_lowers"), par("coord_uppers")) or x.a[0].op == "attr" and x.a[0].a[1] == "shape"):
                got.add(x.a[1].a[0])
    los = call.a[1][0] if call.a[1] else None
    his = call.a[1][1] if len(call.a[1]) > 1 else None
    if los is not None and his is not None and (any(x is par("coord_uppers") for x in walk(los)) or any(x is par("coord_lowers") for x in walk(his))):
        return "swapped"
    return next(iter(got)) if len(got) == 1 else "mixed" if got else None


def draw1d(proj, book):
    f = plotfn(proj, "_plot_map_1d_point")
    for name in ("_plot_map_1d_point", "_plot_sigma_map_1d_point"):
        f = plotfn(proj, name)
        if f is None:
            continue
        r = evalf(proj, f)
        for e in r.events:
            if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] == "plot" and len(e.args) >= 2:
                x, y = (attrs(t) for t in e.args[:2])
                ok = None
                if len(x) == 1 and len(y) == 1:
                    (xo, xa), (yo, ya) = next(iter(x)), next(iter(y))
                    ok = xo is yo and xa == "coordinate_system" and ya == "map"
                book.ob("map", f"{name}:{e.loc[1]}", ok, "values are drawn over their own coordinates", e.loc)
            if e.kind == "call" and head(e.fn) == "numpy.interp" and len(e.args) >= 3:
                x, y = attrs(e.args[1]), attrs(e.args[2])
                ok = None
                if len(x) == 1 and len(y) == 1:
                    (xo, xa), (yo, ya) = next(iter(x)), next(iter(y))
                    ok = xo is yo and xa == "coordinate_system" and ya == "map"
                book.ob("map", f"{name}:interp:{e.loc[1]}", ok, "the band is interpolated on its own coordinates", e.loc)
    f = plotfn(proj, "_plot_sigma_map_1d_regbin")
    if f is not None and {"med_data", "low_data", "up_data"} <= set(f.params):
        r = evalf(proj, f, EDGES)
        for e in r.events:
            if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] == "fill_between" and len(e.args) >= 3:
                ends = {next((x.a[0] for x in walk(t) if x.op == "param" and x.a[0].endswith("_data")), None) for t in e.args[1:3]}
                book.ob("map", "band", None if None in ends else ends == {"low_data", "up_data"}, f"the band lies between {sorted(map(str, ends))}", e.loc)
    f = plotfn(proj, "_plot_map_1d_regbin")
    if f is not None:
        r = evalf(proj, f, EDGES)
        for e in r.events:
            if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] in ("bar", "plot", "step") and len(e.args) >= 2:
                x, y = e.args[:2]
                ok = x.op == "item" and x.a[0].op == "call" and head(x.a[0].a[0]).endswith(EDGES) and y is par("map_data")
                al = arg(e, 99, "align")
                k = x.a[1].a[0] if ok and x.a[1].op == "const" else None
                if e.fn.a[1] == "bar" and (al is None or isc(al, "center")) and edge(x):
                    ok, k = True, 0
                ok = None if not ok or k not in (0, 1) else k == 1 if e.fn.a[1] != "bar" or al is None or isc(al, "center") else None
                book.ob("map", f"bars:{e.loc[1]}", ok, "bars are centered at the bin centers", e.loc)


def edge(x):
    """Some of the bin edges."""
    return x.op in ("item", "slice_of") and x.a[0].op == "item" and x.a[0].a[0].op == "call" and head(x.a[0].a[0].a[0]).endswith(EDGES) and isc(x.a[0].a[1], 0)


def attrs(t):
    return {(x.a[0], x.a[1]) for x in walk(t) if x.op == "attr" and x.a[1] in ("coordinate_system", "map")}


def first_map(t):
    """Which of the three maps a value is the data of."""
    if t is None:
        return None
    while t.op == "item" and t.a[0].op == "call":
        t = t.a[0]
    if t.op == "call" and head(t.a[0]).endswith("_collapse_regbin_map") and t.a[1]:
        t = t.a[1][0]
    got = {x.a[0].a[1] for x in walk(t) if x.op == "attr" and x.a[1] == "map" and x.a[0].op == "attr" and x.a[0].a[1] in ("median", "lower", "upper")}
    return next(iter(got)) if len(got) == 1 else None
