"""C22: posterior summaries come from the current chain; best fit is the stored maximum; continuation starts from the last state."""

from ..help import *
from .c03 import Orders, verdict
from ..concrete import Concrete, mutated_alias
from ..numer import Unknown
from ..tensor import Arr, Tensor, arr, isnum
from ..world import obj
from .c20 import tdict, tlist

META = {
    "level": "other",
    "technique": "cache-invalidation analysis (typestate of memoised attributes) and term matching of chain selections",
    "explain": "Attributes in which get_post_parameters memoises data of the sampler are found by their has-it-been-set tests; each must be "
               "dropped by fitting and continue_fitting before sampling.  With the caches dropped, the value selected by each summary is "
               "matched against its specification (same selection for chain and log posterior, argmax, median along samples).",
    "rules": {
        "cache": "every memoised chain quantity is dropped before a new fit or continuation samples",
        "mpe": "best fit is the stored sample at the maximum of the stored log posterior, both flattened alike and uncut",
        "random": "a random sample is drawn from the whole chain",
        "median": "the median is taken over samples, per parameter",
        "names": "values are merged over the complete parameter set under the sampler's parameter names",
        "values": "for a chain of given numbers the summaries are its best sample, one of its samples and its medians, under their names, the "
                  "other parameters unchanged; a continuation starts from its last ensemble",
        "state": "a continuation starts from the given fit's last ensemble with its number of walkers",
        "keep": "a continuation keeps the stored chain; a new fit starts a fresh one",
        "sampler": "a fit or continuation samples with the newly made sampler",
    },
    "assumptions": ["emcee's get_chain and get_log_prob order samples identically for identical selections"],
}


def heap_after(m, proj):
    return run(proj, "Context", m, opaque=opq("_set_backend", "_dump_meta", "_sanity_check", "sample_init", "parameter_fit",
                                              "parameter_fit_array", "_ndim", "get_post_parameters"))


CACHETEST = ("builtins.hasattr", "builtins.getattr")


def cached_attrs(r):
    """Attributes of self whose value is reused if already set: A -> value computed when it is not."""
    out = {}
    for (b, a), v in [(k, v) for k, v in r.heap.items() if isinstance(k, tuple) and len(k) == 2]:
        if b is not SELF or not isinstance(a, str):
            continue
        old = attr(SELF, a)
        if occurs(v, old) and v is not old:
            out[a] = v
    return out


def has_tests(a):
    """World in which attribute a is not set."""
    s = attr(SELF, a)

    def f(x):
        if x.op == "call" and x.a[0] is G("builtins.hasattr") and len(x.a[1]) == 2 and x.a[1][0] is SELF and isc(x.a[1][1], a):
            return FALSE
        if x.op == "call" and x.a[0] is G("builtins.getattr") and len(x.a[1]) == 3 and x.a[1][0] is SELF and isc(x.a[1][1], a):
            return x.a[1][2]
        if x.op == "cmp" and isc(x.a[1], a) and x.a[0] in ("in", "not in") and contains(x.a[2], lambda y: y.op == "attr" and y.a[1] == "__dict__" or
                                                                                      y.op == "call" and head(y.a[0]) == "builtins.vars"):
            return C(x.a[0] == "not in")
        if x.op == "cmp" and x.a[1] is s and x.a[0] in ("is", "is not", "==", "!=") and x.a[2].op == "const" and x.a[2].a[0] is None:
            return C(x.a[0] in ("is", "=="))
        return x
    return f


def dropped(heap, a):
    """Is attribute a unset (or reset) in the heap?  True / None / False"""
    v = heap.get((SELF, a))
    if v is not None:
        if v.op == "const" and v.a[0] is None or v.op == "deleted":
            return True
        return "value"
    d = heap.get((SELF, "__dict__"))
    t = d
    while t is not None and t.op in ("pop", "delitem"):
        if len(t.a) > 1 and isc(t.a[1], a):
            return True
        t = t.a[0]
    return False


def check(proj, book):
    book.step("summary", summary, proj, book)
    book.step("continue", cont, proj, book)
    book.step("values", values, proj, book)
    book.floor("mpe", 1)
    book.floor("cache", 1)
    book.floor("state", 1)


def summary(proj, book):
    r = run(proj, "Context", "get_post_parameters", opaque=opq("get_all_parameter"))
    cached = cached_attrs(r)
    # attributes holding sampler data without a test: assigned elsewhere
    ret = r.ret
    alias = {}
    for a, v in cached.items():
        f = has_tests(a)
        alias[a] = rewrite(v, f)

    def fresh(t):
        for a in cached:
            t = rewrite(t, has_tests(a))
        return t
    vals = {}
    for w in ("mpe", "random", "median"):
        t = fresh(subst(ret, {par("which"): C(w)}))
        t = rewrite(t, lambda x: x)
        vals[w] = t
    other = [a for a in sorted({x.a[1] for x in walk(fresh(ret)) if x.op == "attr" and x.a[0] is SELF})
             if a not in ("sampler", "par_manager", "__dict__")]
    import ast
    for n, f in proj.cls("Context").methods.items():
        for d in f.node.decorator_list:
            x = ast.unparse(d)
            if "cache" in x and f.loc[2] in {e.loc[2] for e in r.events} | {r.loc[2]}:
                book.ob("cache", f"decorator:{n}", False, f"{n} is memoised by {x}, which no fit invalidates", f)
    reset = resets(proj, book, cached, other, r)
    for w, t in vals.items():
        one(proj, book, w, t, r, other)


def resets(proj, book, cached, other, r):
    names = list(cached) + [a for a in other if a in ("_chain", "_logp")]
    if not names:
        book.ob("cache", "get_post_parameters", True if not other else None, f"no memoised chain (other state read: {other})", r.loc)
    for a in names:
        src = cached.get(a)
        if src is not None and not contains(src, lambda x: x is attr(SELF, "sampler")):
            continue
        for m in ("fitting", "continue_fitting"):
            rm = heap_after(m, proj)
            runs = [i for i, e in enumerate(rm.events) if e.kind == "call" and head(e.fn).split(".")[-1] in ("run_mcmc", "sample")]
            drop = []
            for i, e in enumerate(rm.events):
                if e.kind == "mutate" and e.args and contains(e.args[0], lambda x: x.op == "attr" and x.a[1] == "__dict__") and any(
                        isc(x, a) for x in e.args[1:]):
                    drop.append((i, e))
                elif e.kind in ("setattr", "delattr") and e.fn == a or (e.kind in ("setattr",) and isinstance(e.fn, Term) and isc(e.fn, a)):
                    if e.kind == "delattr" or e.value is None or (e.value.op == "const" and e.value.a[0] is None) or not occurs(e.value, attr(SELF, a)):
                        drop.append((i, e))
                elif e.kind in ("delete", "del", "delattr") and e.args and any(isinstance(x, Term) and (isc(x, a) or x is attr(SELF, a)) for x in e.args):
                    drop.append((i, e))
                elif e.kind == "call" and head(e.fn) in ("builtins.delattr", "builtins.setattr") and len(e.args) > 1 and isc(e.args[1], a):
                    drop.append((i, e))
            d = dropped(rm.heap, a)
            if d is True and not drop:
                drop = [(0, None)]
            first_run = runs[0] if runs else None
            ok, why = None, "no sampling found"
            if first_run is not None:
                good = []
                for i, e in drop:
                    g = [] if e is None else [x for x in e.guard if x not in rm.events[first_run].guard]
                    g = [x for x in g if not cache_guard(x, a)]
                    if not g:
                        good.append(i)
                before = [i for i in good if i < first_run]
                later = [i for i in good if i > first_run]
                refill = [i for i, e in enumerate(rm.events) if e.kind == "call" and head(e.fn).split(".")[-1] == "get_post_parameters"]
                if before and not any(before[-1] < i < first_run for i in refill):
                    ok, why = True, "dropped before sampling"
                elif later and not any(first_run < i < later[0] for i in refill) and not any(
                        first_run < i < later[0] for i, e in enumerate(rm.events) if e.kind == "call" and head(e.fn).split(".")[-1] == "_dump_meta"):
                    ok, why = True, "dropped after sampling"
                elif before or later:
                    ok, why = False, "filled again between being dropped and the end of sampling"
                elif drop:
                    ok, why = False, "dropped on some paths only"
                else:
                    dyn = any(e.kind == "unknown" for e in rm.events) or any(
                        e.kind == "mutate" and e.args and contains(e.args[0], lambda x: x.op == "attr" and x.a[1] == "__dict__") and any(
                            isinstance(x, Term) and x.op != "const" for x in e.args[1:2]) for e in rm.events) or any(
                        e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[0] is SELF and e.fn.a[1] not in
                        ("_set_backend", "_dump_meta", "_sanity_check", "get_post_parameters", "log_posterior") for e in rm.events)
                    ok, why = (None if dyn else False), "never dropped"
            book.ob("cache", f"{m}:{a}", ok, f"the memoised {a} is {why} in {m}", rm.loc)


def cache_guard(g, a):
    """A test whether the cache exists at all (hasattr(self, a), self.a is not None ...)."""
    t = rewrite(g, has_tests(a))
    return isc(simp(t), False) or isc(simp(t), True)


def simp(t):
    return conj((t,))


def sel(t):
    """get_chain(...)/get_log_prob(...) call: (what, sampler, kwargs)"""
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("get_chain", "get_log_prob", "get_blobs", "flatchain", "get_last_sample"):
        names = ("discard", "thin", "flat")
        kw = {}
        for k, v in t.a[2]:
            kw[k] = v
        for i, v in enumerate(t.a[1]):
            kw[names[i] if i < 3 else str(i)] = v
        kw = {k: v for k, v in kw.items() if not (k == "discard" and isc(v, 0) or k == "thin" and isc(v, 1) or k == "flat" and isc(v, False))}
        return t.a[0].a[1], t.a[0].a[0], kw
    if t.op == "attr" and t.a[1] in ("flatchain", "flatlnprobability"):
        return ("get_chain" if t.a[1] == "flatchain" else "get_log_prob"), t.a[0], {"flat": TRUE}
    # explicit flattening: x.reshape(-1, ndim)
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("ravel", "flatten"):
        s = sel(t.a[0].a[0])
        if s and "flat" not in s[2]:
            return s[0], s[1], dict(s[2], flat=TRUE)
    return None


def one(proj, book, w, t, r, other):
    loc = r.loc
    names = None
    vec = None
    for x in walk(t):
        if x.op == "call" and head(x.a[0]).split(".")[-1] == "ndarray_to_list_of_dicts" and len(x.a[1]) == 2:
            vec, names = x.a[1]
            if vec.op == "list" and len(vec.a) == 1:
                vec = vec.a[0]
            else:
                vec = None
        elif x.op == "call" and x.a[0] is G("builtins.zip") and len(x.a[1]) == 2:
            names, vec = x.a[1]
        elif x.op == "comp" and x.a[0] == "dict" and isinstance(x.a[3], Term) and x.a[3].op == "zip" and len(x.a[3].a) == 2 and vec is None:
            names, vec = x.a[3].a
    if vec is None:
        book.ob(w, "value", None, f"the {w} summary is {show(t)[:200]}", loc)
        return
    while vec.op == "call" and (head(vec.a[0]) in ("numpy.array", "numpy.asarray", "builtins.list") and vec.a[1] or head(vec.a[0]).endswith(".tolist")):
        vec = vec.a[1][0] if vec.a[1] else vec.a[0].a[0]
    book.ob("names", w, merge_ok(t), f"the summary is {show(t)[:120]}", loc)
    if other:
        sm = None
    if w == "mpe":
        ok, why = None, show(vec)[:200]
        if vec.op == "item":
            c = sel(vec.a[0])
            i = vec.a[1]
            fn = fname(i.a[0]) if i.op == "call" else None
            if i.op == "call" and i.a[0].op == "attr" and i.a[0].a[1] in ("argmax", "argmin", "argsort"):
                fn, base = i.a[0].a[1], i.a[0].a[0]
            else:
                base = i.a[1][0] if i.op == "call" and i.a[1] else None
                if fn is None and i.op == "call" and i.a[0].op == "global":
                    fn = i.a[0].a[0].split(".")[-1]
            l = sel(base) if base is not None else None
            if c and l and fn in ("argmax", "nanargmax"):
                ok = pair(c, l)
            elif c and fn in ("argmin",):
                ok = False
            elif c and i.op == "const":
                ok = False
            elif c and l is None and base is not None and fn in ("argmax", "nanargmax") and fname(base.a[0] if base.op == "call" else NONE) in (
                    "abs", "square", "negative", "isfinite") and base.a[1] and sel(base.a[1][0]):
                ok = False   # a fold of the log posterior, not the log posterior
            elif c and l is None and base is not None and base.op == "un" and base.a[0] == "-" and sel(base.a[1]) and fn in ("argmax", "nanargmax"):
                ok = False
            elif c and l is None and base is not None and fn == "argmax":
                ok = False if sliced(base) and not sliced(vec.a[0]) else None
            elif c is None and l and fn == "argmax":
                ok = False if sliced(vec.a[0]) else None
        book.ob("mpe", "value", ok, f"best fit is {why}", loc)
    elif w == "random":
        ok = None
        if vec.op == "item" and sel(vec.a[0]):
            i = vec.a[1]
            c = sel(vec.a[0])
            if i.op == "call":
                n = head(i.a[0]).split(".")[-1]
                hi = None
                if n in ("randint", "integers", "choice", "randrange"):
                    hi = i.a[1][0] if len(i.a[1]) == 1 else i.a[1][1] if len(i.a[1]) == 2 and isc(i.a[1][0], 0) else None
                if hi is not None:
                    hi = canon(hi)
                    if hi.op == "call" and head(hi.a[0]) == "builtins.len" and hi.a[1] and sel(hi.a[1][0]):
                        l = sel(hi.a[1][0])
                        ok = same_sel(c, l)
                    elif contains(hi, lambda x: x.op == "call" and head(x.a[0]) == "builtins.len") and hi.op == "bin":
                        ok = False
            elif i.op == "const":
                ok = False
        book.ob("random", "value", ok, f"random sample is {show(vec)[:200]}", loc)
    else:
        ok = None
        if vec.op == "call":
            n = fname(vec.a[0]) or (vec.a[0].op == "global" and vec.a[0].a[0].split(".")[-1])
            kw = dict(vec.a[2])
            a = list(vec.a[1])
            ax = kw.get("axis", a[1] if len(a) > 1 and n == "median" else a[2] if len(a) > 2 else None)
            c = sel(a[0]) if a else None
            if c and c[0] == "get_chain":
                axok = ax is not None and isc(ax, 0)
                full = not set(c[2]) - {"flat"} and isc(c[2].get("flat", FALSE), True)
                if n == "median":
                    ok = axok and full if ax is None or ax.op == "const" or isc(ax, -1) else None
                elif n in ("percentile", "nanpercentile", "quantile", "nanquantile"):
                    q = a[1] if len(a) > 1 else kw.get("q")
                    ok = axok and full and (isc(q, 50) if "perc" in n else isc(q, 0.5)) if q is not None and q.op == "const" else None
                elif n in ("mean", "nanmean", "max", "min", "average", "sum"):
                    ok = False
        elif vec.op == "item" and sel(vec.a[0]) and sel(vec.a[0])[0] == "get_chain" and vec.a[1].op in ("item", "call", "const", "bin"):
            ok = False   # one sample of the chain, not a median of each parameter
        book.ob("median", "value", ok, f"median is {show(vec)[:200]}", loc)


def sliced(t):
    return t.op == "item" and sel(t.a[0]) is not None


def same_sel(a, b):
    return a[1] is b[1] and {k: v for k, v in a[2].items()} == {k: v for k, v in b[2].items()} if a[1] is b[1] else False


def pair(c, l):
    if c[0] != "get_chain" or l[0] != "get_log_prob":
        return False
    if c[1] is not l[1] or c[2] != l[2]:
        return False
    if set(c[2]) - {"flat"}:
        return False
    return isc(c[2].get("flat", FALSE), True)


def merge_ok(t):
    """complete parameter set overridden by the samples"""
    if t.op == "dictmerge" and len(t.a) == 2:
        a, b = t.a

        def kind(x):
            if contains(x, lambda y: y.op == "call" and (head(y.a[0]).split(".")[-1] in ("ndarray_to_list_of_dicts",) or y.a[0] is G("builtins.zip"))
                        or y.op == "zip"):
                return "sample"
            if contains(x, lambda y: y.op == "attr" and y.a[1] in ("par_manager", "get_all_parameter", "_parameter_dict")):
                return "all"
        ks = kind(a), kind(b)
        return True if ks == ("all", "sample") else False if ks == ("sample", "all") else None
    return None


def cont(proj, book):
    r = run(proj, "Context", "continue_fitting", opaque=opq("_dump_meta", "pre_fitting", "_sanity_check"))
    ctx = par("context")
    samp = attr(ctx, "sampler")

    def world(t, none):
        def f(x):
            if x.op == "cmp" and x.a[0] in ("is", "is not", "==", "!=") and x.a[1] is ctx and x.a[2].op == "const" and x.a[2].a[0] is None:
                return C((x.a[0] in ("is", "==")) == none)
            return x
        return rewrite(t, f)
    for e in r.events:
        if e.kind != "call":
            continue
        n = head(e.fn).split(".")[-1]
        if n == "run_mcmc":
            p0 = world(arg(e, 0, "initial_state"), False)
            book.ob("state", "start", last_state(p0, samp), f"a continuation of a given fit starts from {show(p0)[:160]}", e.loc)
            p1 = world(arg(e, 0, "initial_state"), True)
            ok = True if p1.op == "const" and p1.a[0] is None else last_state(p1, attr(SELF, "sampler"))
            book.ob("state", "start:self", ok, f"a continuation of the own fit starts from {show(p1)[:120]}", e.loc)
        if n == "pre_fitting":
            f = proj.method("Context", "pre_fitting")
            names = [x.arg for x in f.node.args.args][1:]
            nw = arg(e, names.index("nwalkers") if "nwalkers" in names else 0, "nwalkers")
            for none, who in ((False, samp), (True, attr(SELF, "sampler"))):
                v = world(nw, none) if nw is not None else None
                book.ob("state", f"nwalkers:{'self' if none else 'given'}", walkers(v, who), f"number of walkers is {show(v)[:120] if v is not None else 'default'}", e.loc)
            rs = arg(e, names.index("reset") if "reset" in names else None, "reset", C(False))
            book.ob("keep", "continue_fitting", True if isc(rs, False) else False if isc(rs, True) else None, "a continuation keeps the stored chain", e.loc)
    r = run(proj, "Context", "fitting", opaque=opq("_dump_meta", "pre_fitting", "_sanity_check", "sample_init"))
    for e in r.events:
        if e.kind == "call" and head(e.fn).split(".")[-1] == "pre_fitting":
            rs = arg(e, 2, "reset", C(False))
            book.ob("keep", "fitting", True if isc(rs, True) else False if isc(rs, False) else None, "a new fit starts a fresh chain in its backend", e.loc)
    for m in ("fitting", "continue_fitting"):
        r = heap_after(m, proj)
        for e in r.events:
            if e.kind == "call" and head(e.fn).split(".")[-1] == "run_mcmc":
                b = e.fn.a[0] if e.fn.op == "attr" else None
                pre = any(x.kind == "setattr" and x.fn == "sampler" for x in r.events) or any(
                    x.kind == "call" and head(x.fn).endswith("EnsembleSampler") for x in r.events)
                ok = None
                if b is not None:
                    ok = True if b is attr(SELF, "sampler") or b.op == "call" and head(b.a[0]).endswith("EnsembleSampler") else (
                        False if contains(b, lambda x: x is ctx) and b.op == "attr" else None)
                book.ob("sampler", m, ok, f"sampling runs on {show(b)[:80] if b is not None else '?'}", e.loc)


def norm_idx(t):
    """x[-1, :, :], x[-1, ...], x[-1] -> x, -1"""
    i = t.a[1]
    if i.op == "tuple" and i.a:
        rest = i.a[1:]
        if all(x.op == "slice" and all(y.op == "const" and y.a[0] is None for y in x.a) or x.op == "const" and x.a[0] is Ellipsis for x in rest):
            i = i.a[0]
    return t.a[0], canon(i)


def last_state(t, samp):
    while t.op == "call" and (head(t.a[0]) in ("numpy.array", "numpy.asarray", "builtins.list", "copy.deepcopy") and t.a[1] or head(t.a[0]).endswith((".tolist", ".copy"))):
        t = t.a[1][0] if t.a[1] else t.a[0].a[0]
    if t.op == "attr" and t.a[1] == "coords":
        t = t.a[0]
    if t.op == "call" and head(t.a[0]) == ".get_last_sample":
        return t.a[0].a[0] is samp
    if t.op == "item":
        b, i = norm_idx(t)
        s = sel(b)
        if s and s[0] == "get_chain":
            if isc(i, -1):
                return s[1] is samp and not s[2]
            if i.op == "const":
                return False
            return None
    if t.op == "slice_of" and sel(t.a[0]) and t.a[1].op == "slice" and sel(t.a[0])[0] == "get_chain":
        s, (lo, hi, st) = sel(t.a[0]), t.a[1].a
        if set(s[2]) == {"flat"} and isc(s[2]["flat"], True) and isc(hi, None) and isc(st, None):
            n = attr(samp, "nwalkers")
            got = [number(lo, {n: k}) for k in (4, 10, 36)]
            if None not in got:
                return s[1] is samp and got == [-4, -10, -36]
    if t.op == "const":
        return False
    return None


def walkers(t, samp):
    if t is None:
        return False
    while t.op == "call" and head(t.a[0]) in ("builtins.int",) and t.a[1]:
        t = t.a[1][0]
    if t.op == "attr" and t.a[1] == "nwalkers" and t.a[0] is samp:
        return True
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
        s = sel(t.a[0].a[0])
        if s and s[0] == "get_chain" and not s[2]:
            if t.a[1].op == "const":
                return s[1] is samp and t.a[1].a[0] in (1, -2)
        if s and s[0] == "get_log_prob" and not s[2] and t.a[1].op == "const":
            return s[1] is samp and t.a[1].a[0] in (1, -1)
    if t.op in ("const", "param") or t.op == "attr" and t.a[1] == "nwalkers" and t.a[0].op == "attr" and t.a[0].a[1] == "sampler":
        return False
    return None


# -- a chain of given numbers --------------------------------------------------------

STEPS, WALKERS, NDIM = 4, 3, 2
CHAIN = [[[round(((7 * i + 3 * j + 5 * k) * 37 % 101) / 10 + k * 20, 3) for k in range(NDIM)] for j in range(WALKERS)] for i in range(STEPS)]
LOGP = [[-float((5 * i + 7 * j + 11) * 29 % 83) - 1 for j in range(WALKERS)] for i in range(STEPS)]
NAMES = ("alpha", "beta")
OTHER = {"beta": 500.0, "alpha": 700.0, "fixed_one": 600.0}


def picked(kw, data):
    """What the sampler gives for flat, thin and discard."""
    flat, thin, discard = (kw.get(k, d) for k, d in (("flat", False), ("thin", 1), ("discard", 0)))
    if set(kw) - {"flat", "thin", "discard"} or not isnum(thin) or not isnum(discard):
        raise Unknown("selection of the chain")
    sel = data[int(discard) + int(thin) - 1::int(thin)]
    return arr([x for y in sel for x in y] if flat else sel)


def sampled(samp, env):
    """Answers of a sampler holding the chain above."""
    def hook(ev, fn, args, kw, fr, ex):
        n = fn.a[1] if fn.op == "attr" else head(fn).split(".")[-1]
        if fn.op == "attr" and fn.a[0] is samp and n in ("get_chain", "get_log_prob"):
            names = ["flat", "thin", "discard"]
            k = {**dict(zip(names, args)), **dict(kw)}
            if not all(v.op == "const" for v in k.values()):
                return None
            try:
                v = picked({a: b.a[0] for a, b in k.items()}, CHAIN if n == "get_chain" else LOGP)
            except Unknown:
                return None
            t = T("symbol", f"{n} {sorted((a, b.a[0]) for a, b in k.items())}")
            env[t] = v
            return t
        if fn.op == "attr" and n == "get_all_parameter" or fn.op == "attr" and n == "get_parameter" and not args:
            return tdict({k: C(v) for k, v in OTHER.items()})
        if head(fn) == "builtins.hasattr" and len(args) == 2 and args[0] is SELF and args[1].op == "const":
            return C((SELF, args[1].a[0]) in ev.heap)
        if n == "ndarray_to_list_of_dicts" and len(args) == 2 and args[0].op in ("list", "tuple"):
            ks = args[1]
            if ks.op == "dict" and all(isinstance(p, tuple) and p[1].op == "const" for p in ks.a):
                return T("list", *[T("dict", *[(k, ev.fold(item(x, i))) for k, i in ks.a]) for x in args[0].a])
        if n in ("randint", "integers", "choice") and head(fn).startswith("numpy.random."):
            return C(7) if n != "choice" else None
        return None
    return hook


def chain_run(proj, name, args, opaque):
    env = {}
    samp = obj("sampler")
    e = Concrete(proj, opaque=opq(*opaque))
    e.hook = sampled(samp, env)
    e.ten = Tensor(env, proj=proj)
    e.heap[(SELF, "sampler")] = samp
    e.heap[(samp, "parameter_names")] = tdict({n: C(i) for i, n in enumerate(NAMES)})
    e.heap[(samp, "nwalkers")] = C(WALKERS)
    e.heap[(samp, "ndim")] = C(NDIM)
    pm = obj("parameter manager")
    e.heap[(SELF, "par_manager")] = pm
    e.heap[(pm, "par_config")] = e.heap[(SELF, "par_config")] = tdict({k: tdict({"prior_type": C("fixed" if k not in NAMES else "free")}) for k in OTHER})
    e.heap[(pm, "parameter_fit")] = tlist(*NAMES)
    e.heap[(pm, "_parameter_dict")] = tdict({k: C(v) for k, v in OTHER.items()})
    f = proj.method("Context", name)
    r = e.run(f, cls=proj.cls("Context"), args=args)
    r.ten, r.func, r.loc, r.samp = e.ten, f, f.loc, samp
    return r


def values(proj, book):
    for n in ("get_post_parameters", "continue_fitting"):
        al = mutated_alias(proj.method("Context", n).node)
        if al:
            book.ob("values", n, None, "an object with a second name is changed: " + ", ".join(al))
            return
    flat = [x for y in CHAIN for x in y]
    logp = [x for y in LOGP for x in y]
    best = flat[logp.index(max(logp))]

    def med(k):
        xs = sorted(x[k] for x in flat)
        h = len(xs) // 2
        return xs[h] if len(xs) % 2 else (xs[h - 1] + xs[h]) / 2
    for w, ok in (("mpe", lambda v: v == best), ("random", lambda v: v in flat), ("median", lambda v: all(abs(a - med(k)) < 1e-9 for k, a in enumerate(v)))):
        r = chain_run(proj, "get_post_parameters", {"which": C(w)}, ("reset",))
        got = None
        try:
            for g, t, l in rets(r):
                if r.ten.truth(canon(g)):
                    got = t
                    break
            if got is None or got.op != "dict" or not all(isinstance(p, tuple) and isinstance(p[0], Term) and p[0].op == "const" for p in got.a):
                raise Unknown(f"the summary is {show(got)[:80] if got is not None else 'nothing'}")
            got = {k.a[0]: r.ten.val(canon(v)) for k, v in got.a}
        except Unknown as x:
            book.ob("values", w, None, f"not evaluated: {x}", r.loc)
            continue
        if not all(isnum(x) for x in got.values()):
            book.ob("values", w, None, f"the summary is {got}", r.loc)
            continue
        v = [got.get(n) for n in NAMES]
        rest = {k: x for k, x in got.items() if k not in NAMES}
        fine = None not in v and ok(v) and rest == {k: x for k, x in OTHER.items() if k not in NAMES}
        book.ob("values", w, fine, f"of the chain {flat} with log posteriors {logp} and parameters {OTHER} the summary is {got}", r.loc)
    start = {}

    ctx = obj("other context")
    env = {}
    samp = obj("sampler")
    e = Concrete(proj, opaque=opq("_dump_meta", "pre_fitting", "_sanity_check"))
    e.hook = sampled(samp, env)
    e.ten = Tensor(env, proj=proj)
    e.heap[(ctx, "sampler")] = samp
    e.heap[(samp, "nwalkers")] = C(WALKERS)
    f = proj.method("Context", "continue_fitting")
    r = e.run(f, cls=proj.cls("Context"), args={"context": ctx})
    for x in r.events:
        n = head(x.fn).split(".")[-1] if x.kind == "call" and x.fn is not None else ""
        if n == "run_mcmc":
            start["state"] = (arg(x, 0, "initial_state"), [z for z in CHAIN[-1]], x.loc)
        if n == "pre_fitting":
            g = proj.method("Context", "pre_fitting")
            ns = [y.arg for y in g.node.args.args][1:]
            start["walkers"] = (arg(x, ns.index("nwalkers") if "nwalkers" in ns else 0, "nwalkers"), WALKERS, x.loc)
    for k, (t, want, loc) in start.items():
        try:
            v = e.ten.val(canon(t)) if t is not None else None
        except Unknown as x:
            book.ob("values", "continuation:" + k, None, f"not evaluated: {x}", loc)
            continue
        if k == "state":
            try:
                v = arr(v)
            except Unknown:
                book.ob("values", "continuation:" + k, None, f"starts from {v}", loc)
                continue
            w = arr(want)
            same_ = v.shape == w.shape and sorted(map(tuple, rows(v))) == sorted(map(tuple, rows(w)))
            book.ob("values", "continuation:" + k, same_, f"of the chain {CHAIN} a continuation starts from {rows(v)}", loc)
        else:
            book.ob("values", "continuation:" + k, v == want if isnum(v) else None, f"{v} walkers, the chain has {want}", loc)


def rows(a):
    n = a.shape[-1] if a.shape else 1
    return [a.d[i:i + n] for i in range(0, len(a.d), n)]
