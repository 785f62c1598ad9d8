"""C25: whoever simulates a component of a likelihood hands over the parameters with the aliases applied."""

import ast

from ..help import *

SIMS = ("simulate", "simulate_hist", "simulate_weighted_data", "multiple_simulations", "multiple_simulations_compile")
META = {
    "level": "other",
    "technique": "must-pass-through dataflow analysis: every parameters argument of a component simulation comes through replace_alias",
    "explain": "All call sites that simulate a component of a likelihood are enumerated in the package; the parameters argument of each is "
               "traced to replace_alias of that likelihood, to the parameter of a function whose decorator applies it, or to callers for "
               "which the same holds.  The decorator and replace_alias themselves are evaluated symbolically per alias.",
    "rules": {
        "site": "the parameters of every component simulation have passed through replace_alias of the component's likelihood",
        "decorator": "the decorator replaces the bound parameters argument by replace_alias of it before the function is called",
        "replace": "replace_alias moves the value of each alias present to the replaced name and leaves the rest unchanged",
        "needed": "the needed parameters of a likelihood list the alias instead of the replaced name",
    },
    "assumptions": ["chained aliases (an alias of an alias) are not used"],
}
FILES = ("likelihood.py", "context.py", "plot.py", "profiler.py", "utils.py")


def check(proj, book):
    decs = {}
    fs = [f for f in proj.all_funcs() if f.mod.rel.split("/")[-1] in FILES]
    for f in fs:
        for d in f.node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else None
            g = proj.lookup(f.mod.name + "." + n) if n else None
            if n and n not in decs and n not in ("property", "staticmethod", "classmethod", "export"):
                try:
                    df = proj.func(n)
                except Exception:
                    continue
                decs[n] = book.step("decorator", decorator, proj, book, n, df)
    book.step("sites", sites, proj, book, fs, decs)
    book.step("replace", replace, proj, book)
    book.step("needed", needed, proj, book)
    book.floor("site", 6)


def decorator(proj, book, n, df):
    """Does the decorator apply the aliases?  True / False / None"""
    src = ast.dump(df.node)
    if "replace_alias" not in src and n != "need_replacing_alias":
        return False
    r = run(proj, None, n)
    clo = r.ret
    if clo.op != "closure":
        book.ob("decorator", n, None, f"the decorator returns {show(clo)[:80]}", r.loc)
        return None
    r.ev.events.clear()
    applied(r, clo, SELF, T("star", par("args")))
    func = par(df.node.args.args[0].arg)
    ev = r.ev.events
    call = [i for i, e in enumerate(ev) if e.kind == "call" and e.fn is func]
    if not call:
        book.ob("decorator", n, None, "the decorated function is not called", r.loc)
        return None
    ok, why = True, "the bound parameters are replaced before the call"
    for i in call:
        e = ev[i]
        world = {}
        for x in walk(conj(e.guard)):
            if x.op == "cmp" and x.a[0] in ("in", "not in") and isc(x.a[1], "parameters"):
                world[x] = C(x.a[0] == "in")
        g = subst(conj(e.guard), world)
        if isc(g, False):
            continue
        kwt = [v for v in (e.kwargs.values() if isinstance(e.kwargs, dict) else [v for _, v in e.kwargs])]
        ts = list(e.args) + kwt
        through = [x for t in ts if isinstance(t, Term) for x in walk(t) if x.op == "call" and head(x.a[0]) == ".replace_alias"]
        sets = [m for m in ev[:i] if m.kind == "mutate" and m.fn == "setitem" and len(m.args) > 1 and isc(m.args[1], "parameters")]
        good = False
        for m in sets:
            v = m.value if isinstance(m.value, Term) else (m.args[2] if len(m.args) > 2 else None)
            if v is None:
                continue
            calls_ = [x for x in walk(v) if x.op == "call" and head(x.a[0]) == ".replace_alias" and x.a[0].a[0] is SELF]
            gm = subst(conj(m.guard), {x: C(x.a[0] == "in") for x in walk(conj(m.guard))
                                       if x.op == "cmp" and x.a[0] in ("in", "not in") and isc(x.a[1], "parameters")})
            uses = [x for x in walk(m.args[0]) if x.op == "call" and head(x.a[0]).split(".")[-1] in ("bind", "bind_partial")]
            if v in calls_ and isc(gm, True):
                good = not uses or any(contains(t, lambda y: y in uses) for t in ts if isinstance(t, Term))
        if through:
            good = True
        if not good:
            rep = any(x.kind == "call" and head(x.fn) == ".replace_alias" for x in ev)
            after = [m for m in ev[i:] if m.kind == "mutate" and m.fn == "setitem"]
            ok = False if not rep or after or (sets and rep) or not sets else None
            why = "the decorated function is called with parameters not passed through replace_alias"
    book.ob("decorator", n, ok, why, r.loc)
    return ok


def receiver(t):
    """Is this the component of a likelihood?  Returns the likelihood term."""
    if t.op == "item":
        b = t.a[0]
        if b.op == "attr" and b.a[1] == "components":
            return b.a[0]
        if b.op == "item" and b.a[0].op == "attr" and b.a[0].a[1] == "likelihoods":
            return b  # likelihood[component]
        if b.op == "elem" and isinstance(b.a[1], Term):
            return comp_src(b.a[1])
        if b.op == "param" and b.a[0] == "likelihood":
            return b
    if t.op == "elem" and isinstance(t.a[1], Term):
        return comp_src(t.a[1])
    return None


def comp_src(s):
    while s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] in ("values", "items") and not s.a[1]:
        s = s.a[0].a[0]
    s = srcof(s)
    if s.op == "attr" and s.a[1] == "components":
        return s.a[0]
    return None


def decorated(f, decs):
    ns = [d.id for d in f.node.decorator_list if isinstance(d, ast.Name)]
    vs = [decs[n] for n in ns if n in decs]
    if True in vs:
        return True
    return None if None in vs else False


def sites(proj, book, fs, decs):
    """Every direct simulation of a likelihood's component."""
    todo = [f for f in fs if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SIMS
                                 for n in ast.walk(f.node))]
    runs = {}

    def events(f):
        if f not in runs:
            op = lambda g: g.cls is not None and g is not f and any(a.arg == "parameters" for a in g.node.args.args) or (
                g.name in ("replace_alias", "get_post_parameters", "get_key") or g.name in SIMS)
            runs[f] = run(proj, f.cls.name, f.name, opaque=op) if f.cls else run(proj, None, f.name, opaque=op)
        return runs[f]

    n = 0
    for f in todo:
        if f.cls is not None and f.cls.name in ("Component", "ComponentSim", "ComponentFixed", "Plugin"):
            continue
        try:
            r = events(f)
        except Exception as ex:
            book.ob("site", f.qual, None, f"not analysable: {type(ex).__name__}", f.loc)
            continue
        for e in r.events:
            if e.kind != "call" or e.fn is None or e.fn.op != "attr" or e.fn.a[1] not in SIMS:
                continue
            if e.stack and e.stack[-1] is not f and getattr(e.stack[-1], "name", None) in [g.name for g in todo]:
                continue
            ll = receiver(e.fn.a[0])
            if ll is None and f.cls is None or ll is None and f.cls.name not in ("Likelihood", "LikelihoodLit"):
                continue
            p = arg(e, None, "parameters")
            if p is None:
                kw = dict((k, v) for k, v in (e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs) if k)
                a = list(e.args)
                p = kw.get("parameters", (a[2] if len(a) > 2 else a[0] if len(a) == 1 else a[-1]) if a else None)
            n += 1
            tag = f"{f.qual}:{e.loc[1] if isinstance(e.loc, tuple) else e.loc}" if False else f"{f.qual}:{e.fn.a[1]}"
            if p is None:
                book.ob("site", tag, None, "no parameters are handed over", e.loc)
                continue
            ok, why = passed(proj, f, p, ll, decs, events, set())
            book.ob("site", tag, ok, f"parameters of {show(e.fn)[:60]} are {why}", e.loc)


def passed(proj, f, p, ll, decs, events, seen):
    q = p
    while q.op == "call" and head(q.a[0]).split(".")[-1] in ("deepcopy", "copy", "dict") and (q.a[1] or q.a[0].op == "attr"):
        q = q.a[1][0] if q.a[1] else q.a[0].a[0]
    if q.op == "call" and head(q.a[0]) == ".replace_alias":
        own = q.a[0].a[0]
        if ll is None or own is ll or own is SELF:
            return True, "passed through replace_alias"
        return None, f"passed through replace_alias of {show(own)[:40]}"
    if q.op == "dict" and any(kv[0] is NONE or kv[0] is None for kv in q.a):
        # merged: a name that only the raw parameters have stays in
        parts = [kv[1] for kv in q.a if kv[0] is NONE or kv[0] is None]
        rs = [passed(proj, f, x, ll, decs, events, seen) for x in parts]
        if any(x[0] is True for x in rs) and all(x[0] is True for x in rs):
            return True, "merged from parameters passed through replace_alias"
        raw = [x for x, v in zip(parts, rs) if v[0] is not True and any(
            contains(y, lambda z, x=x: z is x) for y, u in zip(parts, rs) if u[0] is True)]
        if raw:
            return False, f"merged with the raw {show(raw[0])[:60]}: the names replaced stay in"
        return None, "merged"
    if q.op == "phi":
        rs = [passed(proj, f, x, ll, decs, events, seen) for x in q.a[1:]]
        bad = next((x for x in rs if x[0] is False), next((x for x in rs if x[0] is None), rs[0]))
        return bad
    if q.op == "loopout" and contains(q, lambda y: y.op == "attr" and y.a[1] == "_parameter_alias"):
        return True, "replaced in place"
    if q.op == "comp" and contains(q, lambda y: y.op == "attr" and y.a[1] == "_parameter_alias"):
        return True, "replaced in place"
    if q is par("parameters"):
        d = decorated(f, decs)
        if d is not False:
            return d, "those of the decorated function"
        # helper: look at its callers
        cs = callers(proj, f, events)
        if cs is None:
            return None, f"those of {f.qual}, whose callers are not known"
        if not cs:
            return False, f"the raw parameters of {f.qual}"
        if f.name[0] != "_" and f.cls is not None and f.cls.name.startswith("Likelihood"):
            return False, f"the raw parameters of the public {f.qual}"
        res = (True, "replaced by every caller")
        for g, pp in cs:
            if (g, pp) in seen:
                continue
            x = passed(proj, g, pp, ll if ll is SELF else None, decs, events, seen | {(g, pp)})
            if x[0] is not True and res[0] is not False:
                res = x
        return res
    if contains(q, lambda y: y.op == "call" and head(y.a[0]) == ".replace_alias"):
        return None, show(q)[:100]
    if undecidable(q) and not contains(q, lambda y: y.op == "attr" and y.a[1] in ("_parameter_dict", "par_manager")):
        return None, show(q)[:100]
    return False, f"not passed through replace_alias: {show(q)[:120]}"


def callers(proj, f, events):
    out = []
    for g in proj.all_funcs():
        if g is f or not any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or isinstance(
                n.func, ast.Name) and n.func.id == f.name) for n in ast.walk(g.node)):
            continue
        try:
            r = events(g)
        except Exception:
            return None
        names = [a.arg for a in f.node.args.args]
        if f.cls is not None and names and names[0] == "self":
            names = names[1:]
        for e in r.events:
            if e.kind == "call" and e.fn is not None and head(e.fn).split(".")[-1] == f.name:
                i = names.index("parameters") if "parameters" in names else None
                p = arg(e, i, "parameters")
                if p is None:
                    return None
                out.append((g, p))
    return out


def replace(proj, book):
    r = run(proj, "Likelihood", "replace_alias")
    al = attr(SELF, "_parameter_alias")
    t = r.ret
    if t.op == "comp" and t.a[0] == "dict" and isinstance(t.a[3], Term):
        kv = t.a[1]
        el = T("elem", t.a[2], t.a[3])
        ok = None
        if srcof(t.a[3]) is al:
            ok = False  # every parameter that is not an alias is lost
        elif srcof(t.a[3]) is par("parameters") and not t.a[4] and not undecidable(t):
            ok = False  # an entry of the replaced name itself and the alias end up under one key: the later one wins
        book.ob("replace", "replace_alias", ok, f"the result is {show(t)[:160]}", r.loc)
        return
    while t.op == "call" and head(t.a[0]).split(".")[-1] in ("deepcopy", "copy", "dict") and (t.a[1] or t.a[0].op == "attr"):
        t = t.a[1][0] if t.a[1] else t.a[0].a[0]
    if t.op != "loopout":
        book.ob("replace", "replace_alias", False if t is par("parameters") else None, f"the result is {show(t)[:160]}", r.loc)
        return
    lid, name, init, new = t.a
    srcs = {x.a[1] for x in walk(new) if x.op == "elem" and x.a[0] == lid and isinstance(x.a[1], Term)}
    if len(srcs) != 1 or srcof(next(iter(srcs))) is not al:
        book.ob("replace", "replace_alias", None, f"loop over {[show(s)[:60] for s in srcs]}", r.loc)
        return
    el = T("elem", lid, next(iter(srcs)))
    K, V = el, item(al, el)
    lv = next((x for x in walk(new) if x.op == "loopvar" and x.a[0] == lid), None)
    if lv is None:
        book.ob("replace", "replace_alias", False, "each alias starts from scratch", r.loc)
        return
    i0 = init
    while i0.op == "call" and head(i0.a[0]).split(".")[-1] in ("deepcopy", "copy", "dict") and (i0.a[1] or i0.a[0].op == "attr"):
        i0 = i0.a[1][0] if i0.a[1] else i0.a[0].a[0]
    book.ob("replace", "start", True if i0 is par("parameters") else False if i0.op == "dict" and not i0.a else None,
            f"the result starts from {show(init)[:80]}", r.loc)
    for present in (True, False):
        m = {}
        for x in walk(new):
            if x.op == "cmp" and x.a[0] in ("in", "not in") and (x.a[2] is lv or srcof(x.a[2]) in (lv, par("parameters"))):
                if x.a[1] is K:
                    m[x] = C((x.a[0] == "in") == present)
        v = subst(new, m)
        if not present:
            ok = True if v is lv else None if v.op == "phi" else False
            # pop with default would store the default
            book.ob("replace", "absent", ok, f"without the alias the parameters become {show(v)[:120]}", r.loc)
            continue
        got = effect(v, lv, K, V)
        if got is None:
            book.ob("replace", "present", None, f"with the alias the parameters become {show(v)[:160]}", r.loc)
            continue
        st, rm = got
        ok = K in rm and V in st and st[V] in (item(lv, K), T("item", lv, K)) and V not in rm and set(st) == {V} and set(rm) == {K}
        book.ob("replace", "present", ok, f"with the alias, set {[(show(k)[:30], show(x)[:40]) for k, x in st.items()]}, removed {[show(k)[:30] for k in rm]}", r.loc)


def effect(t, lv, K, V):
    st, rm = {}, []
    while t is not lv:
        if t.op == "setitem":
            st.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        elif t.op in ("pop", "delitem"):
            rm.append(t.a[1])
            t = t.a[0]
        else:
            return None
    return st, rm


def by_sets(book, t, al, role, loc):
    """The renaming written with set operations: every name that is the source of an alias is taken out and its
    alias put in.  Evaluated for one alias in the four worlds (name needed or not, alias needed or not)."""
    from ..help import subst, rewrite
    # one pass of the loop, or the whole as a chain of set operations
    if t.op == "loopout":
        lid, name, init, new = t.a
        lv = [x for x in walk(new) if x.op == "loopvar" and x.a[0] == lid]
        if len(set(lv)) > 1:
            return False
        start = lv[0] if lv else T("loopvar", lid, name)
        body = new
    else:
        start, body = None, t

    def members(x):
        """What a set term contains besides the start: (adds, removes) in order, or None."""
        if x is start or start is None and not contains(x, lambda y: y is al):
            return []
        if x.op == "bin" and x.a[0] in ("|", "-", "&"):
            a = members(x.a[1])
            b = content(x.a[2])
            if a is None or b is None:
                return None
            return a + [(x.a[0], b)]
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("union", "difference") and len(x.a[1]) == 1:
            a, b = members(x.a[0].a[0]), content(x.a[1][0])
            if a is None or b is None:
                return None
            return a + [("|" if x.a[0].a[1] == "union" else "-", b)]
        if x.op == "call" and x.a[0] in (G("builtins.set"),) and len(x.a[1]) == 1:
            return members(x.a[1][0])
        return None

    def content(x):
        if x.op in ("set", "list", "tuple"):
            rs = [role(y) for y in x.a]
            return None if None in rs else ("one", tuple(rs))
        while x.op == "call" and x.a[0] in (G("builtins.set"), G("builtins.list"), G("builtins.tuple"), G("builtins.frozenset")) and len(x.a[1]) == 1:
            x = x.a[1][0]
        if x is al or x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0] is al and x.a[0].a[1] == "keys":
            return "all", ("alias",)
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0] is al and x.a[0].a[1] == "values":
            return "all", ("name",)
        return None

    def cases(x, name_in, alias_in):
        def f(y):
            if y.op == "cmp" and y.a[0] in ("in", "not in") and role(y.a[1]) and (y.a[2] is start or members(y.a[2]) == []):
                v = name_in if role(y.a[1]) == "name" else alias_in
                return C(v == (y.a[0] == "in"))
            return y
        return rewrite(x, f)
    res = []
    for name_in in (True, False):
        for alias_in in (True, False):
            b = cases(body, name_in, alias_in)
            if b.op == "phi":
                return False
            ops = members(b)
            if ops is None:
                return False
            n, a = name_in, alias_in
            for o, (_, rs) in ops:
                if o == "&":
                    return False
                if "name" in rs:
                    n = o == "|"
                if "alias" in rs:
                    a = o == "|"
            res.append(((name_in, alias_in), (n, a), ((False, True) if name_in else (False, alias_in))))
    bad = [(w, g) for w, g, x in res if g != x]
    book.ob("needed", "register_component", not bad, "a needed name is replaced by its alias and nothing else changes"
            if not bad else f"with (name needed, alias needed) = {bad[0][0]} they become {bad[0][1]}", loc)
    return True


def needed(proj, book):
    r = run(proj, "Likelihood", "register_component")
    al = attr(SELF, "_parameter_alias")
    adds = [e for e in r.events if e.kind == "mutate" and e.fn == "add"]
    rems = [e for e in r.events if e.kind == "mutate" and e.fn in ("remove", "discard")]
    def role(t):
        if t.op == "elem" and isinstance(t.a[1], Term) and srcof(t.a[1]) is al:
            return "alias"
        if t.op == "item" and t.a[0] is al and t.a[1].op == "elem":
            return "name"
        return None
    ra, rr = [role(e.args[1]) for e in adds if len(e.args) > 1], [role(e.args[1]) for e in rems if len(e.args) > 1]
    if not adds or not rems or None in ra + rr:
        np_ = r.heap.get((SELF, "needed_parameters"))
        touched = np_ is not None and contains(np_, lambda y: y is al)
        if touched and by_sets(book, np_, al, role, r.loc):
            return
        book.ob("needed", "register_component", None if touched or adds or rems else False,
                "the needed parameters are not renamed alias by alias" if not touched else f"needed parameters become {show(np_)[:100]}", r.loc)
        return
    book.ob("needed", "added", set(ra) == {"alias"}, f"added to the needed parameters: {ra}", adds[0].loc)
    book.ob("needed", "removed", set(rr) == {"name"}, f"removed from the needed parameters: {rr}", rems[0].loc)
    for e in adds + rems:
        g = [x for x in walk(conj(e.guard)) if x.op == "cmp" and x.a[0] in ("in", "not in") and role(x.a[1])]
        gs = [(x.a[0], role(x.a[1])) for x in g]
        ok = True if ("in", "name") in gs or (e.fn == "discard" and not gs) else False if gs and all(
            a == ("in", "alias") or a == ("not in", "name") for a in gs) else None
        if e.fn == "remove" and ("not in", "name") in gs:
            ok = False
        book.ob("needed", e.fn + ":when", ok, f"{e.fn} when {gs}", e.loc)
