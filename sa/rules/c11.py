"""C11: configured values win over defaults; per-likelihood values are exact; missing values are errors."""

from ..help import *
from ..terms import show
from ..world import World
from .c20 import tdict, tlist, missing

META = {
    "level": "other",
    "technique": "partial evaluation of the configuration lookup over all shapes of configuration table (abstract worlds)",
    "explain": "Every lookup of an option value is evaluated over all paths in each abstract world: option configured or not, with a symbolic value of "
               "unknown truth, a false-like constant or a per-likelihood table holding the likelihood or not; with or without default.  The "
               "value that results must be the symbol the world prescribes, or every path must raise.",
    "rules": {
        "configured": "a configured value is the one used, whatever its truth value",
        "default": "without configured value the default is used, file names resolved as for configured ones; no default is an error",
        "likelihood": "a per-likelihood value is that of exactly the likelihood asked for, a missing likelihood is an error",
        "kept": "looking a value up never replaces a configured one",
        "global": "setting configuration stores each value under its own name, file names resolved, unsupported types refused",
        "submaps": "an uncertainty map's maps are built from the configured files, conflicting values are refused",
        "sets": "a set of named values keeps each value under its own name, values unchanged; sets of unequal length are refused",
        "before": "a context sets the configuration before it builds anything",
    },
    "assumptions": ["plain dict lookup semantics of the configuration table (RecordingDict overrides only add recording: C27)"],
}
CFG = (G("::"), "appletree.share._cached_configs")
N = "opt"


def world(table):
    return table if isinstance(table, Term) else tdict(table)


def ev(proj, cls, name, table, heap=None, args=None, opaque=(), hook=None, kinds=None):
    f = proj.method(cls, name) if cls else proj.func(name)
    e = World(proj, opaque=opq(*opaque) if opaque else None, kinds=kinds)
    for k, v in (heap or {}).items():
        e.heap[(SELF, k)] = v if isinstance(v, Term) else C(v)
    if table is not None:
        e.heap[CFG] = world(table)
    if hook:
        e.hook = hook
    r = e.run(f, cls=proj.cls(cls) if cls else None, args={k: v if isinstance(v, Term) else C(v) for k, v in (args or {}).items()})
    r.func, r.ev = f, e
    return r


def exc(x, on):
    """x in the world where the handlers in `on` run and the others do not."""
    return subst(x, {y: C(y in on) for y in walk(x) if y.op == "except"})


def final(r, v=None):
    """Value of all normal exits (of v if given), 'raise', or None."""
    ids = set()
    for e in r.events:
        for g in e.guard:
            ids |= {y for y in walk(g) if y.op == "except"}
    for g, t, l in rets(r):
        for z in (g, v if v is not None else t):
            ids |= {y for y in walk(z) if y.op == "except"}
    x, miss = in_world(r, v, ())
    if not miss or not ids:
        return x
    out = {in_world(r, v, (i,))[0] for i in ids}
    return out.pop() if len(out) == 1 else None


def in_world(r, v, on):
    """(value, a lookup fails on the way)"""
    rs = [fold(exc(raise_guard(e), on), r.ev) for e in raises(r)]
    vs, miss, open_ = set(), False, False
    if not any(isc(g, True) for g in rs):
        for g, t, l in rets(r):
            g, t = fold(exc(g, on), r.ev), fold(exc(v if v is not None else t, on), r.ev)
            if not feasible(g) or rs and implied(g, disj(rs)):
                continue
            if missing(t) or missing(g):
                miss = True
                continue
            if v is None and any(not isc(x, False) and feasible(conj((g, x))) for x in rs):
                open_ = True
            vs.add(t)
    if not vs:
        return "raise", miss
    return (vs.pop() if len(vs) == 1 and not open_ else None), miss


def fold(t, ev=None):
    """Literal tables after updates, lookups with default in literal tables."""
    def lits(d):
        return d.op == "dict" and all(isinstance(e, tuple) and isinstance(e[0], Term) and e[0].op == "const" for e in d.a)

    def f(x):
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get" and lits(x.a[0].a[0]) and x.a[1] and x.a[1][0].op == "const":
            for k, v in x.a[0].a[0].a:
                if k is x.a[1][0]:
                    return v
            return x.a[1][1] if len(x.a[1]) > 1 else NONE
        if x.op == "dictmerge" and lits(x.a[0]) and lits(x.a[1]):
            d = dict(x.a[0].a)
            d.update(dict(x.a[1].a))
            return T("dict", *d.items())
        if x.op == "setitem" and lits(x.a[0]) and x.a[1].op == "const":
            d = dict(x.a[0].a)
            d[x.a[1]] = x.a[2]
            return T("dict", *d.items())
        if x.op == "item" and lits(x.a[0]) and x.a[1].op == "const":
            for k, v in x.a[0].a:
                if k is x.a[1]:
                    return v
        if ev is not None and x.op == "call" and head(x.a[0]) == "builtins.isinstance" and len(x.a[1]) == 2 and not x.a[2]:
            y = ev.builtin("builtins.isinstance", list(x.a[1]), [], None, None)
            return y if isinstance(y, Term) and y.op == "const" else x
        if x.op == "cmp" and x.a[0] in ("in", "not in") and lits(x.a[2]) and x.a[1].op == "const":
            return C(any(k is x.a[1] for k, v in x.a[2].a) == (x.a[0] == "in"))
        return x
    return rewrite(t, f)


def judge(book, rule, inst, got, want, loc, syms=()):
    """want: term or 'raise'."""
    if got is None:
        book.ob(rule, inst, None, "no single value", loc)
    elif isinstance(got, str) or isinstance(want, str):
        ok = isinstance(got, str) and isinstance(want, str)
        if not ok and not isinstance(got, str) and undecidable(got) and not got.op == "param":
            ok = None
        book.ob(rule, inst, ok, f"{'every path raises' if isinstance(got, str) else 'value is ' + show(got)[:120]}, expected {want if isinstance(want, str) else show(want)[:80]}", loc)
    else:
        ok = got is want
        if not ok:
            ok = same(got, want)
            if ok is None and got.op in ("param", "const", "phi", "or", "and"):
                ok = False
        book.ob(rule, inst, ok, f"value is {show(got)[:160]}, expected {show(want)[:80]}", loc)


def after(r, key=N):
    """The configuration table's entry after the lookup."""
    t = r.heap.get(CFG)
    if t is None:
        return None
    t = fold(t)
    if t.op == "dict":
        for k, v in t.a:
            if isc(k, key):
                return v
        return "absent" if all(isinstance(k, Term) and k.op == "const" for k, _ in t.a) else None
    x = item(t, C(key))
    return None if x.op == "item" and x.a[0] is t else x


V, D, VA, VB = par("configured"), par("default"), par("value_A"), par("value_B")
RESOLVE = lambda x: T("call", G("appletree.utils.get_file_path"), (x,), ())
OMIT = C("<OMITTED>")


def lookups(proj):
    """(name, runner(table, llh, default) -> value, transform of the default)."""
    def constant(table, llh, default, kinds):
        r = ev(proj, "Constant", "build", table, {"name": N, "default": default}, {"llh_name": llh}, kinds=kinds)
        return r, r.heap.get((SELF, "value"))

    def cset(table, llh, default, kinds):
        r = ev(proj, "Config", "_resolve_cached_config", table, {"name": N, "default": default}, {"llh_name": llh, "transform": NONE}, kinds=kinds)
        return r, None

    def themap(table, llh, default, kinds):
        r = ev(proj, "Map", "build", table, {"name": N, "default": default}, {"llh_name": llh},
               opaque=("get_file_path", "load_json", "build_point", "build_regbin"), kinds={**kinds, RESOLVE(D): "str"})
        return r, r.heap.get((SELF, "file_path"))

    def sigma(table, llh, default, kinds):
        r = ev(proj, "SigmaMap", "get_configs", table, {"name": N, "default": default, "llh_name": llh}, {"llh_name": NONE}, kinds=kinds)
        return r, None

    def sigma_arg(table, llh, default, kinds):
        r = ev(proj, "SigmaMap", "get_configs", table, {"name": N, "default": default, "llh_name": C("B")}, {"llh_name": llh}, kinds=kinds)
        return r, None
    return [("Constant.build", constant, None), ("lookup", cset, None), ("Map.build", themap, RESOLVE),
            ("SigmaMap.get_configs", sigma, None), ("SigmaMap.get_configs(llh_name)", sigma_arg, None)]


def lookup_rule(proj, book):
    for name, run_, tr in lookups(proj):
        book.step(name, one, proj, book, name, run_, tr)


def got_of(r, v):
    return final(r, v)


def one(proj, book, name, run_, tr):
    A = C("A")
    loc = None
    # configured scalar, false-like or of unknown truth
    for tag, x, kind in (("symbol", V, None), ("0", C(0), None), ("0.0", C(0.0), None), ("empty", tlist(), None), ("False", C(False), None), ("text", C(""), None)):
        if name == "Map.build" and tag in ("0", "0.0", "empty", "False"):
            continue
        kinds = {V: "str", D: "str"}
        r, v = run_({N: x}, A, D, kinds)
        judge(book, "configured", f"{name}:{tag}", got_of(r, v), x, r.func.loc)
        book.ob("kept", f"{name}:{tag}", kept(after(r), x), "configured value in the table after the lookup", r.func.loc)
    # other options configured only
    r, v = run_({"other": VB}, A, D, {D: "str"})
    want = tr(D) if tr else D
    judge(book, "default", f"{name}:default", got_of(r, v), want, r.func.loc)
    book.ob("kept", f"{name}:default_stored", None if not isinstance(after(r), Term) else stored(after(r), want), "the default is shown in the table as the value used", r.func.loc)
    if name != "Map.build":
        r, v = run_({"other": VB}, A, C(0), {})
        judge(book, "default", f"{name}:false-like_default", got_of(r, v), tr(C(0)) if tr else C(0), r.func.loc)
    r, v = run_({"other": VB}, A, OMIT, {})
    judge(book, "default", f"{name}:none", got_of(r, v), "raise", r.func.loc)
    # an option configured but without default
    r, v = run_({N: V}, A, OMIT, {V: "str"})
    judge(book, "configured", f"{name}:no_default", got_of(r, v), V, r.func.loc)
    # per likelihood
    t = tdict({"A": VA, "B": VB})
    r, v = run_({N: t}, A, D, {VA: "str", VB: "str", D: "str"})
    judge(book, "likelihood", f"{name}:own", got_of(r, v), VA, r.func.loc)
    book.ob("kept", f"{name}:table", kept(after(r), t), "per-likelihood table after the lookup", r.func.loc)
    r, v = run_({N: tdict({"B": VB, "A": VA})}, A, D, {VA: "str", VB: "str", D: "str"})
    judge(book, "likelihood", f"{name}:own_second", got_of(r, v), VA, r.func.loc)
    for x, tag in ((C(0), "0"), (tlist(), "empty")):
        if name == "Map.build":
            continue
        r, v = run_({N: tdict({"A": x, "B": VB})}, A, D, {VB: "str", D: "str"})
        judge(book, "likelihood", f"{name}:{tag}", got_of(r, v), x, r.func.loc)
    r, v = run_({N: tdict({"C": VB})}, A, D, {VB: "str", D: "str"})
    judge(book, "likelihood", f"{name}:missing", got_of(r, v), "raise", r.func.loc)
    if name != "SigmaMap.get_configs(llh_name)":
        r, v = run_({N: tdict({"C": VB})}, NONE, D, {VB: "str", D: "str"})
        judge(book, "likelihood", f"{name}:none", got_of(r, v), "raise", r.func.loc)


def kept(got, want):
    if got is None or not isinstance(got, Term):
        return False if got == "absent" else None
    if got is want:
        return True
    s = same(got, want)
    return s if s is not None else (False if got.op in ("param", "const") else None)


def global_rule(proj, book):
    f = proj.func("set_global_config")
    for tag, kind in (("float", "float"), ("int", "int"), ("list", "list"), ("str", "str"), ("bool", "bool")):
        X = par("x")
        want = RESOLVE(X) if kind == "str" else X
        for per in (False, True):
            conf = tdict({N: tdict({"A": X}) if per else X, "second": C(7)})
            r = ev(proj, None, "set_global_config", {"old": V}, {}, {"configs": conf}, opaque=("get_file_path",), kinds={X: kind})
            t = after(r)
            inst = f"{tag}{':per_likelihood' if per else ''}"
            if final(r) == "raise":
                book.ob("global", inst, False, "every path raises", f.loc)
                continue
            if per:
                got = item(t, C("A")) if isinstance(t, Term) else t
                if isinstance(got, Term) and got.op == "item" and got.a[0] is t:
                    got = None
            else:
                got = t
            book.ob("global", inst, stored(got, want, kind), f"stored value is {show(got)[:100] if isinstance(got, Term) else got}", f.loc)
            s = after(r, "second")
            book.ob("global", f"{inst}:second", stored(s, C(7)), "the next option is stored as well", f.loc)
            r = ev(proj, None, "set_global_config", {"old": V, N: D}, {}, {"configs": conf}, opaque=("get_file_path",), kinds={X: kind})
            g = after(r)
            g = item(g, C("A")) if per and isinstance(g, Term) else g
            book.ob("global", f"{inst}:again", stored(g, want), f"value set again is {show(g)[:80] if isinstance(g, Term) else g}", f.loc)
            if per:
                # a table before: what is configured now wins
                r = ev(proj, None, "set_global_config", {N: tdict({"A": VA, "B": VB})}, {}, {"configs": conf}, opaque=("get_file_path",), kinds={X: kind, VA: kind, VB: kind})
                t = after(r)
                g = item(t, C("A")) if isinstance(t, Term) else t
                g = fold(g) if isinstance(g, Term) else g
                book.ob("global", f"{inst}:table_again", None if isinstance(g, Term) and isinstance(t, Term) and g.op == "item" and g.a[0] is t else stored(g, want, kind),
                        f"value of a likelihood set again is {show(g)[:80] if isinstance(g, Term) else g}", f.loc)
                r = ev(proj, None, "set_global_config", {"old": V, N: D}, {}, {"configs": conf}, opaque=("get_file_path",), kinds={X: kind})
            s = after(r, "old")
            book.ob("global", f"{inst}:old", stored(s, V), "options set before are kept", f.loc)
    for per in (False, True):
        X = par("x")
        r = ev(proj, None, "set_global_config", {}, {}, {"configs": tdict({N: tdict({"A": X}) if per else X})}, opaque=("get_file_path",), kinds={X: "zz"})
        o = "raise" if final(r) == "raise" else "return"
        book.ob("global", f"unsupported{':per_likelihood' if per else ''}", None if o is None else o == "raise", "a value of unsupported type is refused", f.loc)


def stored(got, want, kind=None):
    if got == "absent":
        return False
    if not isinstance(got, Term):
        return None
    if got is want:
        return True
    if kind in ("list", "str", "dict") and got.op == "call" and got.a[0].op == "global" and got.a[1] and got.a[1][0] is want and \
            got.a[0].a[0] in ("builtins." + n for n in ("float", "int", "str", "bool", "tuple", "set", "frozenset", "sorted", "repr", "len")):
        return False   # another type, another order, or an error
    s = same(got, want)
    if s is None and got.op in ("param", "const"):
        return False
    if s is None and want.op == "call" and got.op == "param":
        return False
    return s


def submaps(proj, book):
    """The maps of an uncertainty map."""
    conf, dflt = tlist("m", "l", "u"), tlist("dm", "dl", "du")
    one_ = C("single")
    for llh in ("A", None):
        for form, cf in (("list", conf), ("string", one_)):
            for dform, df in (("list", dflt), ("string", C("dsingle"))):
                made = []

                def hook(e, fn, args, kw, fr, ex, made=made):
                    h = head(fn)
                    if h.endswith("config.Map"):
                        kw = dict(kw)
                        t = T("call", fn, tuple(args), tuple(sorted(kw.items())))
                        made.append((kw, t))
                        return t
                    return None
                r = ev(proj, "SigmaMap", "build", {N: cf, "other": V}, {"name": N, "default": df}, {"llh_name": llh},
                       opaque=("get_file_path", "Map.build", "required_parameter", "_update_sigma_cache"), hook=hook)
                inst = f"{llh}:{form}:default_{dform}"
                ups = calls(r, "_update_sigma_cache")
                if final(r) == "raise":
                    book.ob("submaps", inst, False, "every path raises", r.func.loc)
                    continue
                for i, s in enumerate(("median", "lower", "upper")):
                    w = cf.a[i] if form == "list" else cf
                    nm = C(f"{N}_{s}")
                    mk = [kw for kw, t in made if kw.get("name") is nm]
                    ts = {attr(t, "name"): kw.get("name") for kw, t in made}
                    up = [e for e in ups if len(e.args) >= 2 and ts.get(e.args[0], e.args[0]) is nm]
                    if not mk:
                        book.ob("submaps", f"{inst}:{s}", None, "no map of the expected name is made", r.func.loc)
                        continue
                    if llh is None:
                        got = mk[-1].get("default")
                        book.ob("submaps", f"{inst}:{s}", got is w if isinstance(got, Term) and not undecidable(got) else None,
                                f"without likelihood the map is made for {show(got)[:60] if got is not None else None}, configured {show(w)}", r.func.loc)
                    elif up:
                        e = up[-1]
                        book.ob("submaps", f"{inst}:{s}", e.args[1] is w and isc(conj(e.guard), True) or (
                            None if undecidable(e.args[1]) else False), f"configured as {show(e.args[1])[:60]}, expected {show(w)}", e.loc)
                    else:
                        book.ob("submaps", f"{inst}:{s}", None, "the configured file is not handed on in the known way", r.func.loc)
    # the table of the sub-maps
    X, Y = C("x.json"), C("y.json")
    M = "opt_median"
    for tag, table, val, want in (("absent", {}, X, tdict({"A": X})), ("other_likelihood", {M: tdict({"B": Y})}, X, tdict({"B": Y, "A": X})),
                                  ("same", {M: tdict({"A": X})}, X, tdict({"A": X})), ("conflict", {M: tdict({"A": Y})}, X, "raise"),
                                  ("text_same", {M: X}, X, X), ("text_conflict", {M: Y}, X, "raise")):
        r = ev(proj, "SigmaMap", "_update_sigma_cache", table, {"name": N, "llh_name": "A"}, {"map_name": M, "value": val}, opaque=("get_file_path",),
               hook=lambda e, fn, args, kw, fr, ex: (C("/" + args[0].a[0]) if head(fn).endswith("get_file_path") and args and args[0].op == "const" else None))
        o = "raise" if final(r) == "raise" else "return"
        if want == "raise":
            book.ob("submaps", f"table:{tag}", None if o is None else o == "raise", "conflicting values are refused", r.func.loc)
            continue
        if o == "raise":
            book.ob("submaps", f"table:{tag}", False, "every path raises", r.func.loc)
            continue
        t = after(r, M)
        g = t
        ok = None
        if isinstance(t, Term):
            if want.op == "dict":
                ok = all(entry(t, k) is v for k, v in want.a) or (None if any(entry(t, k) is None for k, v in want.a) and undecidable(t) else False)
            else:
                ok = stored(t, want)
        elif t == "absent":
            ok = False
        book.ob("submaps", f"table:{tag}", ok, f"entry is {show(t)[:100] if isinstance(t, Term) else t}", r.func.loc)


def entry(t, k):
    if t.op == "dict":
        for kk, v in t.a:
            if kk is k:
                return v
        return None
    x = item(t, k)
    return None if x.op == "item" and x.a[0] is t else x


def before(proj, book):
    r = run(proj, "Context", "__init__", opaque=opq("set_global_config", "register_all_likelihood", "register_likelihood", "update_url_base",
                                                    "get_parameter_config", "update_parameter_config", "load_json", "register_component"))
    idx_ = {}
    for i, e in enumerate(r.events):
        if e.kind == "call" and e.fn is not None:
            n = head(e.fn).split(".")[-1]
            idx_.setdefault(n, (i, e))
    s = idx_.get("set_global_config")
    if s is None:
        touched = any(contains(a, lambda x: x.op == "global" and x.a[0] == CFG[1]) for e in r.events for a in list(e.args or ()) if isinstance(a, Term))
        foreign = [e for e in r.events if e.kind == "call" and any(isinstance(a, Term) and contains(a, lambda x: isc(x, "configs")) for a in e.args or ())
                   and head(e.fn).split(".")[-1] != "get"]
        book.ob("before", "set", None if touched or foreign else False, "the instructions' configuration is not set", r.loc)
        return
    for n in ("register_all_likelihood", "register_likelihood"):
        if n in idx_:
            book.ob("before", n, s[0] < idx_[n][0], f"configuration is set {'before' if s[0] < idx_[n][0] else 'after'} {n}", s[1].loc)
    u = idx_.get("update_url_base")
    if u is not None:
        book.ob("before", "url_base", u[0] < s[0], "the search base is set before file names in the configuration are resolved", u[1].loc)
    a = arg(s[1], 0, "configs")
    ins = par("instruct")
    ok = None
    if a is not None:
        keys = [x for x in walk(a) if x.op == "const" and isinstance(x.a[0], str)]
        ok = any(isc(k, "configs") for k in keys) or (None if undecidable(a) else False)
    book.ob("before", "which", ok, f"configuration set is {show(a)[:120] if a is not None else None}", s[1].loc)
    book.ob("before", "always", isc(conj(s[1].guard), True) or None, "configuration is set unconditionally", s[1].loc)


COPIES = ("array", "asarray", "asanyarray", "copy", "ascontiguousarray", "list", "tuple")


def sets(proj, book):
    A, B = par("first"), par("second")
    f = proj.method("ConstantSet", "build")
    one_, two = tlist(A, par("first_2")), tlist(B, par("second_2"))
    for tag, names, values in (("two", ("zeta", "alpha"), (one_, two)), ("one", ("zeta",), (one_,))):
        t = tlist(tlist(*names), tlist(*values))
        for where, table, d in (("configured", {N: t}, D), ("likelihood", {N: tdict({"B": tlist(tlist("beta"), tlist(tlist(V))), "A": t})}, D), ("default", {}, t)):
            r = ev(proj, "ConstantSet", "build", table, {"name": N, "default": d}, {"llh_name": "A"})
            v = r.heap.get((SELF, "value"))
            inst = f"{tag}:{where}"
            up = [fold(raise_guard(e), r.ev) for e in raises(r)]
            if any(isc(g, True) for g in up):
                book.ob("sets", inst, False, "a set of values of equal length is refused", f.loc)
                continue
            if v is None or v.op != "dict" or not all(isinstance(k, Term) and k.op == "const" for k, _ in v.a):
                book.ob("sets", inst, None, f"the values kept are {show(v)[:120] if v is not None else None}", f.loc)
                continue
            got = {k.a[0]: x for k, x in v.a}
            book.ob("sets", inst, set(got) == set(names), f"values are kept for {sorted(got)}, configured are {sorted(names)}", f.loc)
            for n, x in zip(names, values):
                if n not in got:
                    continue
                y = got[n]
                while y.op == "call" and y.a[1] and head(y.a[0]).split(".")[-1] in COPIES and not any(k == "dtype" for k, _ in y.a[2]) and len(y.a[1]) == 1:
                    y = y.a[1][0]
                mine, other = all(occurs(y, z) for z in x.a), any(occurs(y, z) for w in values if w is not x for z in w.a)
                ok = True if y is x or y.op in ("list", "tuple") and y.a == x.a else False if other and not mine or y.op in ("list", "tuple") else None
                book.ob("sets", f"{inst}:{n}", ok, f"{n} is {show(got[n])[:120]}", f.loc)
    # a number of values per name that differs, a value missing
    for tag, t in (("missing value", tlist(tlist("zeta", "alpha"), tlist(one_))), ("missing name", tlist(tlist("zeta"), tlist(one_, two))),
                   ("unequal", tlist(tlist("zeta", "alpha"), tlist(one_, tlist(B)))), ("three", tlist(tlist("zeta"), tlist(one_), tlist(one_)))):
        r = ev(proj, "ConstantSet", "build", {N: t}, {"name": N, "default": D}, {"llh_name": "A"})
        up = [fold(raise_guard(e), r.ev) for e in raises(r)]
        up = [lengths(g) for g in up]
        ok = True if any(isc(g, True) for g in up) else False if all(isc(g, False) for g in up) and not any(e.kind == "except" for e in r.events) else None
        book.ob("sets", f"refused:{tag}", ok, f"a set with {tag}: {'refused' if ok else 'accepted' if ok is False else [show(g)[:80] for g in up]}", f.loc)


def lengths(t):
    """Numeric comparisons of literal lists of numbers."""
    def nums(x):
        return [y.a[0] for y in x.a] if x.op in ("list", "tuple") and all(isinstance(y, Term) and y.op == "const" for y in x.a) else None

    def f(x):
        if x.op == "call" and len(x.a[1]) >= 1:
            n = head(x.a[0]).split(".")[-1]
            a = nums(x.a[1][0])
            if n in ("isclose", "allclose", "array_equal") and len(x.a[1]) >= 2 and a is not None and x.a[1][1].op == "const":
                v = [C(abs(y - x.a[1][1].a[0]) < 1e-6) for y in a]
                return T("list", *v) if n == "isclose" else C(all(y.a[0] for y in v))
            if n in ("all", "any") and a is not None:
                return C({"all": all, "any": any}[n](a))
            if n in ("set", "unique") and a is not None:
                return T("list", *[C(y) for y in sorted(set(a))])
            if n == "len" and a is not None:
                return C(len(a))
        if x.op == "not" and x.a[0].op == "const":
            return C(not x.a[0].a[0])
        return x
    return fold(rewrite(t, f))


def check(proj, book):
    for f in (lookup_rule, sets, global_rule, submaps, before):
        book.step(f.__name__, f, proj, book)
