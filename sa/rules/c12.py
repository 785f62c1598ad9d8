"""C12: an uncertainty map is its median, upper and lower map at scale 0, +1 and -1, and linear in between."""

from ..help import *
from .. import sigma
from ..sigma import file_of, files
from ..world import World
from .c11 import CFG
from .c20 import tdict

META = {
    "level": "other",
    "technique": "symbolic evaluation of SigmaMap per configuration shape and per sign of the scale, compared as normal forms",
    "explain": "SigmaMap.apply, required_parameter and build are evaluated symbolically for a configuration of four files/names, of three "
               "files, and of one file.  Comparisons with the scale are decided region by region (the thresholds met in the code split the "
               "real line); in each region the value must be equal, as a polynomial in the three map values and the scale, to the "
               "specification.",
    "rules": {
        "value": "apply is median + (upper - median) s for s >= 0 and median + (median - lower) s for s <= 0, the median for a single file",
        "scale": "the scale read is the parameter declared by required_parameter: the fourth entry, or name_sigma",
        "maps": "median, lower and upper are built from the first, second and third configured file (all from the single one)",
    },
    "assumptions": ["a configuration value is a string, a list of three file names, or these and a parameter name"],
}
SIG = ("median", "lower", "upper")
WORLDS = {"list4": 4, "list3": 3, "string": None}


def shape(t, cfg, w):
    """Decide tests on the shape of the configuration value cfg in world w."""
    n = WORLDS[w]

    def f(x):
        if x.op == "item" and x.a[0].op == "call" and srcof(x.a[0]) is cfg and x.a[0].a[0].a[0] in ("builtins.list", "builtins.tuple"):
            return item(cfg, x.a[1])
        if x.op == "call" and x.a[0].op == "global" and x.a[1] and x.a[1][0] is cfg:
            fn = x.a[0].a[0].split(".")[-1]
            if fn == "isinstance" and len(x.a[1]) == 2:
                ks = [y.a[0].split(".")[-1] for y in walk(x.a[1][1]) if y.op == "global"]
                return C(("str" in ks) if n is None else any(k in ks for k in ("list", "Sequence")))
            if fn == "len" and n is not None:
                return C(n)
        if x.op == "item" and x.a[0] is cfg and n is not None and x.a[1].op == "const" and isinstance(x.a[1].a[0], int) and x.a[1].a[0] < 0:
            return item(cfg, C(n + x.a[1].a[0]))
        if x.op == "cmp" and x.a[0] in ("is", "is not") and x.a[1].op == "item" and x.a[1].a[0] is cfg and isc(x.a[2], None):
            return C(x.a[0] == "is not")
        if x.op == "cmp" and x.a[0] in ("is", "is not") and text(x.a[1]) and isc(x.a[2], None):
            return C(x.a[0] == "is not")
        return x
    return rewrite(t, f)


def text(t):
    return t.op == "fstr" or t.op == "const" and isinstance(t.a[0], str) or t.op == "bin" and t.a[0] == "+" and any(
        x.op == "const" and isinstance(x.a[0], str) for x in t.a[1:])


def pieces(t):
    """Concatenated pieces of a string term."""
    if t.op == "bin" and t.a[0] == "+":
        return pieces(t.a[1]) + pieces(t.a[2])
    if t.op == "fstr":
        out = []
        for x in t.a:
            out += pieces(x) if isinstance(x, Term) else [x]
        return out
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "builtins.str" and len(t.a[1]) == 1:
        return pieces(t.a[1][0])
    return [t]


def named(t, base, suffix):
    p = pieces(t)
    lit = lambda x: x.a[0] if isinstance(x, Term) and x.op == "const" else x if isinstance(x, str) else None
    if len(p) == 2 and p[0] is base and lit(p[1]) == suffix:
        return True
    if all(x is base or lit(x) is not None for x in p):
        return False
    return None


def check(proj, book):
    book.step("apply", apply, proj, book)
    book.step("required", required, proj, book)
    done = set()
    book.step("worlds", worlds, proj, book, done)
    book.step("needs", needs, proj, book)
    book.step("build", build, proj, book, done)
    book.floor("value", 4)
    book.floor("maps", 6)


def cfgof(r):
    c = callterms(r, "get_configs")
    return c


def unify(t, cs, cfg):
    return subst(t, {c: cfg for c in cs})


def apply(proj, book):
    r = run(proj, "SigmaMap", "apply", opaque=opq("get_configs"))
    cs = cfgof(r)
    cfg = par("$configs")
    pos, P = par("pos"), par("parameters")
    maps = {}
    for x in walk(r.ret):
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "apply" and x.a[0].a[0].op == "attr" and x.a[0].a[0].a[0] is SELF:
            k = x.a[0].a[0].a[1]
            if k in SIG:
                a = x.a[1] + tuple(v for _, v in x.a[2])
                if not a or a[0] is not pos:
                    book.ob("value", "position:" + k, elsewhere(a[0], pos) if a else None, f"the {k} map is evaluated at {show(a[0])[:80] if a else 'nothing'}, not at the position given", r.loc)
                maps[k] = x
    mv = {k: par("$" + k) for k in SIG}
    base = subst(unify(r.ret, cs, cfg), {v: mv[k] for k, v in maps.items()})
    M, Lo, Up = (mv[k] for k in SIG)
    s = par("$s")
    for w in WORLDS:
        t = shape(base, cfg, w)
        keys = []
        for x in walk(t):
            k = None
            if x.op == "item" and x.a[0] is P:
                k = x.a[1]
            elif x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get" and x.a[0].a[0] is P and x.a[1]:
                k = x.a[1][0]
            if k is not None:
                keys.append((x, k))
        if w == "string":
            one = region(subst(t, {Lo: M, Up: M}), s, 0)
            book.ob("value", "single file", same(one, M), f"with one file the map is {show(canon(one))[:160]}", r.loc)
            continue
        for x, k in keys:
            ok = (k is item(cfg, C(3)) or (None if k.op not in ("item", "const", "fstr", "bin", "param", "attr") else False)) if w == "list4" else named(
                k, attr(SELF, "name"), "_sigma")
            if ok is None and k.op == "item" and k.a[0] is cfg:
                ok = False
            book.ob("scale", w, ok, f"the scale is parameters[{show(k)[:60]}]", r.loc)
        if not keys:
            bad = not undecidable(t) and not contains(t, lambda y: y is P)
            book.ob("scale", w, False if bad else None, "no parameter is read", r.loc)
            continue
        t = subst(t, {x: s for x, _ in keys})
        for tag, v, want in regions(t, s, M, Lo, Up):
            ok = None if v is None else same(v, want)
            book.ob("value", f"{w}:{tag}", ok, f"for scale {tag} the map is {show(v)[:160] if v is not None else '?'}", r.loc)


POINTS = ("abs", "absolute", "sqrt", "square", "negative", "exp", "log", "sin", "cos", "round", "floor", "ceil", "flip", "sort", "zeros_like", "ones_like")


def elsewhere(a, pos):
    """False if a is certainly not the position at every input, else None."""
    if a.op == "const" or a.op == "param":
        return False
    n = fname(a.a[0]) if a.op == "call" else a.a[0] if a.op == "f" else None
    if n in POINTS and a.a[1] and a.a[1][0] is pos or a.op == "un" and a.a[0] == "-" and a.a[1] is pos:
        return False
    if a.op == "bin" and a.a[0] in "+-*/" and pos in a.a[1:]:
        o = [x for x in a.a[1:] if x is not pos]
        if len(o) == 1 and o[0].op == "const" and isinstance(o[0].a[0], (int, float)) and (o[0].a[0] not in (0, 1) or a.a[0] in "-" and a.a[1] is not pos):
            return False
    return None


def regions(t, s, M, Lo, Up):
    th = {0.0}
    for x in walk(t):
        if x.op == "cmp" and s in x.a[1:]:
            th |= {float(y.a[0]) for y in x.a[1:] if y.op == "const" and isinstance(y.a[0], (int, float)) and not isinstance(y.a[0], bool)}
        n = fname(x.a[0]) if x.op == "call" else x.a[0] if x.op == "f" else None
        if n in ("clip", "maximum", "minimum", "max", "min") and s in x.a[1]:
            th |= {float(y.a[0]) for y in x.a[1] if y.op == "const" and isinstance(y.a[0], (int, float)) and abs(y.a[0]) != float("inf")}
    th = sorted(th)
    pts = [("< %g" % th[0], th[0] - 1)]
    for i, a in enumerate(th):
        pts.append(("= %g" % a, a))
        pts.append((("in (%g, %g)" % (a, th[i + 1]), (a + th[i + 1]) / 2)) if i + 1 < len(th) else ("> %g" % a, a + 1))
    out = []
    up, lo = binop("+", M, binop("*", binop("-", Up, M), s)), binop("+", M, binop("*", binop("-", M, Lo), s))
    for tag, p in pts:
        v = region(t, s, p)
        if tag[0] == "=":
            v = None if v is None else subst(v, {s: C(p)})
        want = up if p >= 0 else lo
        out.append((tag, v, subst(want, {s: C(p)}) if tag[0] == "=" else want))
    for q, w, wt in ((0, "exactly 0", M), (1, "exactly 1", Up), (-1, "exactly -1", Lo)):
        v = region(t, s, q)
        out.append((w, None if v is None else subst(v, {s: C(q)}), wt))
    return out


def region(t, s, p):
    """t where comparisons (and min, max, abs, clip, sign) of the scale with constants are decided at point p."""
    def num(y):
        if y is s:
            return p
        if y.op == "un" and y.a[0] == "-" and y.a[1] is s:
            return -p
        return y.a[0] if y.op == "const" and isinstance(y.a[0], (int, float)) else None

    def f(x):
        if x.op == "cmp" and len(x.a) == 3:
            a, b = num(x.a[1]), num(x.a[2])
            if a is not None and b is not None and x.a[0] in ("<", "<=", "==", "!=", ">", ">="):
                return C({"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}[x.a[0]])
        n = fname(x.a[0]) if x.op == "call" else x.a[0] if x.op == "f" else None
        if n == "where" and len(x.a[1]) == 3 and isc(x.a[1][0], True, False):
            return x.a[1][1] if x.a[1][0].a[0] else x.a[1][2]
        if x.op == "bin" and any(isc(y, True, False) for y in x.a[1:]):
            return binop(x.a[0], *[C(int(y.a[0])) if isc(y, True, False) else y for y in x.a[1:]])
        if n in ("maximum", "minimum", "abs", "clip", "sign", "max", "min"):
            a = list(x.a[1])
            vs = [num(y) for y in a]
            if a and None not in vs:
                if n == "abs":
                    return a[0] if vs[0] >= 0 else T("un", "-", a[0])
                if n == "sign":
                    return C((vs[0] > 0) - (vs[0] < 0))
                if n == "clip" and len(a) == 3:
                    return a[1] if vs[0] < vs[1] else a[2] if vs[0] > vs[2] else a[0]
                if len(a) == 2:
                    hi = n.startswith("max")
                    return a[0] if (vs[0] >= vs[1]) == hi else a[1]
        return x
    v = canon(rewrite(canon(t), f))
    v = canon(rewrite(v, f))
    return v


def required(proj, book):
    r = run(proj, "SigmaMap", "required_parameter", opaque=opq("get_configs"))
    cs, cfg = cfgof(r), par("$configs")
    for c in cs:
        a = c.a[1] + tuple(v for _, v in c.a[2])
        ok = True if a == (par("llh_name"),) or not a else None
        if not a and any(x.arg == "llh_name" for x in r.func.node.args.args):
            ok = False
        book.ob("scale", "configs of the named likelihood", ok, f"{show(c)[:80]}", r.loc)
    base = unify(r.ret, cs, cfg)
    for w in WORLDS:
        t = shape(base, cfg, w)
        if w == "list4":
            ok = True if t is item(cfg, C(3)) else None if undecidable(t) or t.op == "phi" else False
        elif w == "list3":
            ok = named(t, attr(SELF, "name"), "_sigma") if text(t) else None if undecidable(t) or t.op == "phi" else False
        else:
            ok = True if isc(t, None) else None if undecidable(t) or t.op == "phi" else False
        book.ob("scale", "declared " + w, ok, f"for a {w} configuration the needed parameter is {show(t)[:100]}", r.loc)


def worlds(proj, book, done):
    """Which files the three maps are read from, in worlds of named files."""
    for llh in ("A", None):
        for w, (cfg, want) in sigma.CASES.items():
            for dn, d in sigma.DEFAULTS.items():
                for tag, table in (("configured", tdict({"other": C("kept"), "opt": cfg})),
                                   ("median known", tdict({"opt": cfg, "opt_median": tdict({"B": C("/Bm"), "A": C(want[0])})}) if llh else None),
                                   ("per likelihood", sigma.both(cfg, files("/Bm", "/Bl", "/Bu")) if llh else None)):
                    if table is None:
                        continue
                    o = sigma.build(proj, table, llh, d)
                    inst = f"{w}:default {dn}:{tag}:{'likelihood' if llh else 'no likelihood'}"
                    if o["refused"] is not False:
                        book.ob("maps", inst, False if o["refused"] else None, "the configuration is refused", o["loc"])
                        continue
                    got = [file_of(o, sg, llh) for sg in SIG]
                    ok = None if None in got else all(g != "error" and isc(g, x) for g, x in zip(got, want))
                    book.ob("maps", inst, ok, f"configured {list(want)}; the median, lower and upper maps are read from {[g if not isinstance(g, Term) else g.a[0] for g in got]}", o["loc"])
                    if ok:
                        done.add((w, llh))


def needs(proj, book):
    """The scale parameter of the likelihood asked for, in worlds."""
    f = proj.method("SigmaMap", "required_parameter")
    for own in ("A", "B", None):
        for w, cfg, want in (("list4", files("/m", "/l", "/u", "s"), "s"), ("list3", files("/m", "/l", "/u"), "opt_sigma"), ("string", C("/one"), None)):
            for dn, d in {**sigma.DEFAULTS, "list4": files("/dm", "/dl", "/du", "ds")}.items():
                for tag, table in (("configured", tdict({"opt": cfg})), ("per likelihood", sigma.both(cfg, files("/Bm", "/Bl", "/Bu", "Bs")))):
                    e = World(proj)
                    e.heap[CFG], e.heap[(SELF, "name")], e.heap[(SELF, "default")] = table, C("opt"), d
                    e.heap[(SELF, "llh_name")] = C(own) if own else NONE
                    for ask in ("A", None):
                        if ask is None and (own != "A" and tag == "per likelihood"):
                            continue
                        r = e.run(f, cls=proj.cls("SigmaMap"), args={"llh_name": C(ask) if ask else NONE})
                        t = r.ret
                        ok = isc(t, want) if t is not None and t.op == "const" else None
                        book.ob("scale", f"{w}:default {dn}:{tag}:built for {own}:asked for {ask}", ok, f"the needed parameter is {show(t)[:60]}, expected {want}", f.loc)


def build(proj, book, done):
    ll = par("llh_name")
    r = run(proj, "SigmaMap", "build", opaque=lambda f: f.name in ("get_configs", "get_default", "required_parameter", "get_file_path")
            or f.name == "build")
    dc = callterms(r, "get_default")
    cs = cfgof(r)
    cfg, dft = par("$configs"), par("$default")
    un = lambda t: subst(t, {**{c: cfg for c in cs}, **{c: dft for c in dc}})
    if not cs:
        book.ob("maps", "configs", None, "get_configs is not called", r.loc)
        return
    known = {ll: True}
    sets = [e for e in r.events if e.kind == "mutate" and e.fn == "setitem" and len(e.args) > 1 and e.args[1] is ll]
    builds = [e for e in r.events if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] == "build"]
    for i, sg in enumerate(SIG):
        m = r.heap.get((SELF, sg))
        if m is None or not (m.op == "call" and head(m.a[0]).split(".")[-1] == "Map"):
            book.ob("maps", sg, None, f"self.{sg} is {show(m)[:60] if m is not None else 'not set'}", r.loc)
            continue
        kw = dict(m.a[2])
        nm = kw.get("name")
        ok = named(nm, attr(SELF, "name"), "_" + sg) if nm is not None else None
        book.ob("maps", sg + ":name", None if ok is not True else True, f"named {show(nm)[:60] if nm is not None else '?'}", r.loc)
        me = kw.get("method", m.a[1][0] if m.a[1] else None)
        book.ob("maps", sg + ":method", True if me is attr(SELF, "method") else False if me is None or me.op == "const" else None,
                f"interpolated with {show(me)[:60] if me is not None else 'the default method'}", r.loc)
        for w in WORLDS:
            want = cfg if w == "string" else item(cfg, C(i))
            d = kw.get("default")
            # without a likelihood the default is what is read
            if d is not None:
                v = shape(subst(un(d), {T("cmp", "is", ll, C(None)): C(True), ll: C(None)}), cfg, w)
                v = shape(v, dft, w)
                ok = True if v is want else None if undecidable(v) or v.op == "phi" else False
                book.ob("maps", f"{sg}:{w}", ok, f"from a {w} configuration {sg} is {show(v)[:80]}", r.loc)
            mine = [e for e in sets if any(x is nm or x.op == "call" and x.a[0] is m.a[0] and dict(x.a[2]).get("name") is nm
                                           for x in walk(e.args[0]))]
            # the innermost key names the map
            mine = [e for e in sets if key_of(e.args[0]) is not None and same_name(key_of(e.args[0]), nm, m)]
            for e in mine:
                v = e.value if isinstance(e.value, Term) else e.args[2] if len(e.args) > 2 else None
                if v is None:
                    continue
                v = shape(subst(un(v), {T("cmp", "is", ll, C(None)): C(False)}), cfg, w)
                v = shape(v, dft, w)
                ok = True if v is want else None if undecidable(v) or v.op == "phi" else False
                book.ob("maps", f"{sg}:{w}:likelihood", ok, f"for a likelihood, {sg} is configured as {show(v)[:80]}", e.loc)
            if not mine and d is not None:
                v = shape(shape(subst(un(d), {T("cmp", "is", ll, C(None)): C(False)}), cfg, w), dft, w)
                if (w, "A") in done:
                    continue
                if not sets:
                    ok = True if v is want else None if undecidable(v) or v.op == "phi" else False
                    book.ob("maps", f"{sg}:{w}:likelihood", ok, f"for a likelihood, {sg} is {show(v)[:80]}", r.loc)
                else:
                    book.ob("maps", f"{sg}:{w}:likelihood", None, "the cached configuration is set under another name", r.loc)
        mb = [e for e in builds if e.fn.a[0] is m or e.fn.a[0] is attr(SELF, sg)]
        if not mb:
            some = bool(builds)
            book.ob("maps", sg + ":built", False if some and all(e.fn.a[0].op == "call" for e in builds) and len(builds) < 3 else None,
                    f"{sg} is not built", r.loc)
        for e in mb:
            a = arg(e, 0, "llh_name")
            ok = True if a is ll or a is attr(SELF, "llh_name") else False if a is None or a.op == "const" else None
            book.ob("maps", sg + ":built", ok, f"{sg} is built for {show(a)[:40] if a is not None else 'no likelihood'}", e.loc)


def key_of(t):
    """Key of the outermost subscript or setdefault of the cache."""
    if t.op == "item":
        return t.a[1]
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("setdefault", "get") and t.a[1]:
        return t.a[1][0]
    if t.op == "phi":
        ks = {key_of(x) for x in t.a[1:]} - {None}
        return ks.pop() if len(ks) == 1 else None
    if t.op == "attr":
        return None
    return None


def same_name(k, nm, m):
    if k is nm:
        return True
    if k.op == "attr" and k.a[1] == "name" and k.a[0] is m:
        return True
    return nm is not None and [show(x) if isinstance(x, Term) else x for x in pieces(k)] == [show(x) if isinstance(x, Term) else x for x in pieces(nm)]
