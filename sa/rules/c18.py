"""C18: taking a name twice is an error, and the earlier holder of the name stays."""

import ast

from ..help import *
from ..world import World
from ..terms import show
from .c20 import tdict, tlist, outcome

META = {
    "level": "other",
    "technique": "typestate analysis of the registries: every registering function evaluated with the name free and taken, forced and not, and the order of test and store on each path",
    "explain": "Each registering function is evaluated over all paths with a concrete registry that holds, or does not hold, the name.  With the name "
               "taken (and not forced) no path may return and no store into the registry may happen before the error; with the name free, "
               "or forced, the new object must be stored under it and the others kept.",
    "rules": {
        "refuse": "with the name taken no path returns normally",
        "keep": "with the name taken nothing is stored before the error",
        "accept": "with the name free (or forced) the object is stored under the name and earlier entries stay",
        "cache": "the table of compiled simulations refuses a second entry and is only filled through the refusing operation",
        "conflict": "two plugins of a component with different defaults of one option, or one option twice in a plugin, are refused; equal ones accepted",
        "forward": "the registration helpers pass the modules, classes and the force flag on unchanged",
    },
    "assumptions": ["dir(), hasattr() and __dict__ of a module agree on the names it has"],
}


def check(proj, book):
    for f in (registries, extensions, cache, conflicts, twice, forwards):
        book.step(f.__name__, f, proj, book)
    book.floor("refuse", 4)


def world(g, facts):
    m = {}
    for x in walk(g):
        for p, v in facts:
            if x not in m and p(x):
                m[x] = C(v)
    return subst(g, m) if m else g


def early_stores(r, on, facts=()):
    """Stores selected by `on` that can be reached before the error."""
    out = []
    rs = [i for i, e in enumerate(r.events) if e.kind in ("raise", "assert") and isc(world(raise_guard(e), facts), True)]
    last = rs[0] if rs else len(r.events)
    for e in r.events[:last]:
        if on(e) and feasible(world(guard_of(e), facts)):
            prior = [world(raise_guard(x), facts) for x in r.events[:r.events.index(e)] if x.kind in ("raise", "assert")]
            if prior and implied(world(guard_of(e), facts), disj(prior)):
                continue
            out.append(e)
    return out


def registries(proj, book):
    OLD, CLS = par("old"), par("component_cls")
    for cls, name, attr_, key, heap, extra, op in (
            ("Context", "register_likelihood", "likelihoods", "likelihood_name", {}, {}, ()),
            ("Likelihood", "register_component", "components", "component_name", {"_parameter_alias": tdict({}), "name": C("llh")}, {}, ()),
            ("LikelihoodLit", "register_component", "components", None, {"_parameter_alias": tdict({}), "name": C("llh")}, {}, ())):
        f = proj.method(cls, name)
        if f is None:
            book.ob("refuse", f"{cls}.{name}", None, "not found")
            continue
        for taken in (True, False):
            e = World(proj, opaque=opq(*op) if op else None)
            e.heap[(SELF, attr_)] = tdict({"A": OLD}) if not (key is None and not taken) else tdict({})
            for k, v in heap.items():
                e.heap[(SELF, k)] = v
            args = {}
            if key is not None:
                args[key] = C("A" if taken else "B")
            elif f.node.args.vararg is not None:
                args[f.node.args.vararg.arg] = T("tuple", CLS, C("A" if taken else "B"))
            r = e.run(f, cls=proj.cls(cls), args=args)
            new = "B" if not taken else "A"
            o = outcome(r)
            inst = f"{cls}.{name}"
            loc = f.loc
            if taken:
                book.ob("refuse", inst, None if o is None else o == "raise", f"with the name taken {'a path returns' if o == 'return' else 'no path returns'}", loc)

                def on(x):
                    return x.kind == "mutate" and x.fn in ("setitem", "update", "__setitem__", "clear", "pop") and x.args and contains(
                        x.args[0], lambda y: y is OLD) or x.kind == "setattr" and x.fn == attr_ and x.term is SELF
                es = early_stores(r, on)
                book.ob("keep", inst, not es if o == "raise" else None, f"{len(es)} stores into the registry before the error", es[0].loc if es else loc)
            else:
                book.ob("accept", inst, None if o is None else o == "return", "with the name free a path returns", loc)
                t = r.heap.get((SELF, attr_))
                if t is not None:
                    a, b = entry_of(t, "A"), entry_of(t, new)
                    if key is not None:
                        book.ob("accept", f"{inst}:others", True if a is OLD else (None if a is None else False), f"the earlier entry is {show(a)[:60] if a is not None else 'gone'}", loc)
                        book.ob("accept", f"{inst}:new", b is not None if t.op == "dict" else None, f"the new entry is {show(b)[:60] if b is not None else 'missing'}", loc)


def entry_of(t, k):
    if t.op == "dict":
        for kk, v in t.a:
            if isc(kk, k):
                return v
        return None
    if t.op == "phi":
        a, b = entry_of(t.a[1], k), entry_of(t.a[2], k)
        return a if a is b else None
    x = item(t, C(k))
    return None if x.op == "item" and x.a[0] is t else x


def facts_for(exists, force, sub=True, base=False, same_=False, names=()):
    def ex(x):
        if x.op == "call" and head(x.a[0]) == "builtins.hasattr" and len(x.a[1]) == 2 and x.a[1][0] in names:
            return True
        return False

    def all_(c):
        # __all__ is written by hand: classes registered before are not in it
        return contains(c, lambda y: y in names) and contains(c, lambda y: isc(y, "__all__") or y.op == "attr" and y.a[1] == "__all__")

    def inn(x):
        return x.op == "cmp" and x.a[0] == "in" and contains(x.a[2], lambda y: y in names) and not all_(x.a[2])

    def notin(x):
        return x.op == "cmp" and x.a[0] == "not in" and contains(x.a[2], lambda y: y in names) and not all_(x.a[2])

    def got(x):
        # getattr(module, name, None) is None
        return x.op == "cmp" and x.a[0] == "is" and x.a[2] is NONE and x.a[1].op == "call" and head(x.a[1].a[0]) == "builtins.getattr" and x.a[1].a[1][0] in names

    def gotn(x):
        return x.op == "cmp" and x.a[0] == "is not" and x.a[2] is NONE and x.a[1].op == "call" and head(x.a[1].a[0]) == "builtins.getattr" and x.a[1].a[1][0] in names

    def other(ops):
        # the class that has the name already is another class
        return lambda x: x.op == "cmp" and x.a[0] in ops and par("subclass") in x.a[1:] and any(y.op == "call" and head(y.a[0]) == "builtins.getattr" and y.a[1][0] in names for y in x.a[1:])
    return [(lambda x: x.op == "cmp" and x.a[0] == "in" and all_(x.a[2]), False), (lambda x: x.op == "cmp" and x.a[0] == "not in" and all_(x.a[2]), True),
            (other(("is", "==")), False), (other(("is not", "!=")), True), (ex, exists), (inn, exists), (notin, not exists), (got, not exists), (gotn, exists),
            (lambda x: x is par("force"), force),
            (lambda x: x.op == "call" and head(x.a[0]) == "builtins.getattr" and contains(x, lambda y: isc(y, "__is_base") or y.op == "const" and "__is_base" in str(y.a[0])), base),
            (lambda x: x.op == "call" and head(x.a[0]) == "builtins.issubclass", sub),
            (lambda x: x.op == "cmp" and x.a[0] in ("==", "is") and par("subclass") in x.a[1:] and par("base") in x.a[1:], same_),
            (lambda x: x.op == "cmp" and x.a[0] in ("!=", "is not") and par("subclass") in x.a[1:] and par("base") in x.a[1:], not same_)]


def stores_on(r, mod, val, facts):
    """setattr events of val on mod that happen in the world: (certain, possible)."""
    cert, poss = [], []
    for e in r.events:
        if e.kind == "setattr" and (e.term is mod or e.args and e.args[0] is mod):
            g = world(guard_of(e), facts)
            if isc(g, False) or not feasible(g):
                continue
            (cert if isc(g, True) and (val is None or e.value is val) else poss).append(e)
        elif e.kind == "call" and e.fn is not None and head(e.fn) in ("builtins.setattr",) and e.args and e.args[0] is mod:
            g = world(guard_of(e), facts)
            if feasible(g):
                (cert if isc(g, True) and (val is None or e.args[-1] is val) else poss).append(e)
    return cert, poss


def extensions(proj, book):
    for fn, modp, valp in (("_add_extension", "module", "subclass"), ("add_extensions", "module1", "module2")):
        f = proj.func(fn)
        r = run(proj, None, fn, opaque=opq("_add_extension") if fn == "add_extensions" else None)
        pn = [a.arg for a in f.node.args.args]
        mod, val = par(pn[0]), par(pn[1])
        if fn == "_add_extension" and pn[:4] != ["module", "subclass", "base", "force"] or fn == "add_extensions" and "force" not in pn:
            book.ob("refuse", fn, None, "parameters not recognised", f.loc)
            continue
        for exists in (True, False):
            for force in (True, False):
                facts = facts_for(exists, force, names=(mod,))
                o = outcome(r, facts)
                cert, poss = stores_on(r, mod, val, facts)
                inst = f"{fn}:{'taken' if exists else 'free'}:{'forced' if force else 'unforced'}"
                if exists and not force:
                    book.ob("refuse", inst, None if o is None else o == "raise", f"{'a path returns' if o == 'return' else 'no path returns'}", f.loc)
                    es = [e for e in cert + poss if e in early_stores(r, lambda e: True, facts)]
                    book.ob("keep", inst, not es if o == "raise" else None, "the name is overwritten before the error" if es else "nothing stored before the error", es[0].loc if es else f.loc)
                else:
                    book.ob("accept", inst, None if o is None else o == "return", f"{'no path returns' if o == 'raise' else 'a path returns'}", f.loc)
                    book.ob("accept", f"{inst}:stored", True if cert else (None if poss else False), f"{len(cert)} certain stores", f.loc)
        if fn == "_add_extension":
            for tag, kw in (("base", {"base": True}), ("unrelated", {"sub": False}), ("same", {"same_": True})):
                facts = facts_for(True, False, names=(mod,), **kw)
                cert, poss = stores_on(r, mod, val, facts)
                o = outcome(r, facts)
                book.ob("accept", f"{fn}:{tag}", None if o is None else o == "return" and not cert, f"{tag} classes are skipped", f.loc)
        else:
            es = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).endswith("._add_extension")]
            if not es:
                book.ob("forward", fn, None, "classes are not added in the known way", f.loc)
            for e in es:
                m, fo = arg(e, 0, "module"), arg(e, 3, "force", C(False))
                book.ob("forward", f"{fn}:module", m is mod, f"classes are added to {show(m)[:60] if m is not None else None}", e.loc)
                ok = fo is par("force")
                book.ob("forward", f"{fn}:force", ok or (None if undecidable(fo) and not fo.op == "const" else False), f"force passed is {show(fo)[:60]}", e.loc)


def forwards(proj, book):
    for m in ("appletree.plugin", "appletree.component"):
        mod = proj.modules.get(m)
        if mod is None:
            continue
        for n, fs in mod.funcs.items():
            f = fs[0] if isinstance(fs, (list, tuple)) else fs
            r = World(proj, opaque=opq("add_extensions", "_add_extension")).run(f)
            for e in r.events:
                if e.kind != "call" or e.fn is None or head(e.fn).split(".")[-1] not in ("add_extensions", "_add_extension"):
                    continue
                ps = [a.arg for a in f.node.args.args]
                b = head(e.fn).split(".")[-1]
                base = arg(e, 2, "base")
                want = "Plugin" if m.endswith("plugin") else "Component"
                book.ob("forward", f"{n}:base", head(base).split(".")[-1] == want if base is not None and base.op == "global" else None, f"base class is {show(base)[:60] if base is not None else None}", e.loc)
                if "force" in ps:
                    fo = arg(e, 3, "force", C(False))
                    book.ob("forward", f"{n}:force", fo is par("force") or (False if fo.op == "const" else None), f"force passed is {show(fo)[:40]}", e.loc)
                if len(ps) >= 2:
                    a0, a1 = arg(e, 0, "module1" if b == "add_extensions" else "module"), arg(e, 1, "module2" if b == "add_extensions" else "subclass")
                    book.ob("forward", f"{n}:order", (a0 is par(ps[0]) and a1 is par(ps[1])) or (False if a0 is par(ps[1]) and a1 is par(ps[0]) else None), "target and source in order", e.loc)


def cache_class(proj):
    m = proj.modules.get("appletree.share")
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_cached_functions" for t in s.targets):
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                return s.value.func.id
            if isinstance(s.value, (ast.Dict,)):
                return "dict"
    return None


def cache(proj, book):
    TAB = G("appletree.share._cached_functions")
    cn = cache_class(proj)
    refuses = None
    if cn == "dict":
        refuses = False
    elif cn and proj.cls(cn):
        f = next((k.methods["__setitem__"] for k in proj.cls(cn).mro() if "__setitem__" in k.methods), None)
        if f is None:
            refuses = False
        else:
            f = f[0] if isinstance(f, (list, tuple)) else f
            pn = [a.arg for a in f.node.args.args]
            r = run(proj, cn, "__setitem__")
            k, v = par(pn[1]), par(pn[2])

            def there(x):
                return x.op == "cmp" and x.a[0] == "in" and x.a[1] is k and (x.a[2] is SELF or contains(x.a[2], lambda y: y is SELF))

            def nothere(x):
                return x.op == "cmp" and x.a[0] == "not in" and x.a[1] is k and (x.a[2] is SELF or contains(x.a[2], lambda y: y is SELF))
            for taken in (True, False):
                facts = [(there, taken), (nothere, not taken)]
                o = outcome(r, facts)
                st = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).endswith(".__setitem__") and feasible(world(guard_of(e), facts))]
                if taken:
                    refuses = None if o is None else o == "raise"
                    book.ob("cache", "table:taken", refuses, f"a second entry is {'refused' if refuses else 'accepted'}", f.loc)
                    es = early_stores(r, lambda e: e in st, facts)
                    book.ob("keep", "table", not es if o == "raise" else None, "stored before the error" if es else "nothing stored before the error", f.loc)
                else:
                    ok = any(isc(world(guard_of(e), facts), True) and v in e.args and k in e.args for e in st)
                    book.ob("cache", "table:free", ok or (None if st or calls(r, "update", "setdefault") else False), "a first entry is stored", f.loc)
    # filling the table
    f = proj.method("ComponentSim", "flush_source_code")
    own = attr(SELF, "llh_name")
    r = run(proj, "ComponentSim", "flush_source_code", rec=1)
    fills = []
    for e in r.events:
        if e.kind == "mutate" and e.args and (e.args[0] is TAB or contains(e.args[0], lambda y: y is TAB)) and len(e.args) > 1:
            fills.append((e.fn, e.args[1], e))
        elif e.kind == "call" and e.fn is not None and (e.fn.op == "attr" and e.fn.a[0] is TAB or e.fn.op == "global" and e.fn.a[0].startswith(TAB.a[0] + ".")):
            n = e.fn.a[1] if e.fn.op == "attr" else e.fn.a[0].split(".")[-1]
            if n in ("setdefault", "update", "__setitem__"):
                fills.append((n, e.args[0] if e.args else None, e))
    fills = [(n, k, e) for n, k, e in fills if n in ("setitem", "setdefault", "update", "__setitem__") and (
        k is own or isinstance(k, Term) and k.op == "dict" and any(isinstance(x, tuple) and x[0] is own for x in k.a))]

    def taken(x):
        return x.op == "cmp" and x.a[0] == "in" and x.a[1] is own and (x.a[2] is TAB or contains(x.a[2], lambda y: y is TAB))

    def free(x):
        return x.op == "cmp" and x.a[0] == "not in" and x.a[1] is own and (x.a[2] is TAB or contains(x.a[2], lambda y: y is TAB))
    facts = [(taken, True), (free, False)]
    def only(g):
        if g.op == "and":
            return conj(tuple(only(x) for x in g.a))
        return g if contains(g, lambda y: y is own or y is TAB) or isc(g, False) else C(True)
    explicit = [e for e in raises(r) if contains(raise_guard(e), lambda y: y is TAB) and isc(only(world(raise_guard(e), facts)), True)]
    if explicit:
        book.ob("cache", "fill", True, "an existing entry raises", explicit[0].loc)
        return
    if not fills:
        book.ob("cache", "fill", None, "no operation filling the table recognised", f.loc)
        return
    for n, k, e in fills:
        g = world(guard_of(e), facts)
        if n in ("setitem", "__setitem__"):
            sure = isc(g, True) or not contains(g, lambda y: y is own or y is TAB)
            ok = False if not feasible(g) else refuses if sure else None
            book.ob("cache", "fill", ok, f"the entry of a likelihood compiled before is {'refused' if ok else 'kept or replaced without error'}", e.loc)
        else:
            book.ob("cache", "fill", False if feasible(g) else None, f"the table is filled by {n}, which does not refuse an existing entry", e.loc)


def conflicts(proj, book):
    OLD, NEW, C1, C2 = (par(x) for x in ("OLD", "NEW", "C1", "C2"))
    f = proj.method("ComponentSim", "register")
    pn = f.node.args.args[1].arg

    def distinct(x):
        return x.op == "cmp" and x.a[0] in ("in", "==", "is") and OLD in walk(x) and NEW in walk(x) and not same_inside(x)

    def ndistinct(x):
        return x.op == "cmp" and x.a[0] in ("not in", "!=", "is not") and OLD in walk(x) and NEW in walk(x) and not same_inside(x)

    def same_inside(x):
        # membership of OLD in a list holding OLD itself
        return x.a[0] in ("in", "not in") and isinstance(x.a[2], Term) and x.a[2].op in ("list", "tuple", "set") and any(y is x.a[1] for y in x.a[2].a)

    def seq(x):
        return x.op == "call" and head(x.a[0]) == "builtins.isinstance" and x.a[1] and x.a[1][0] is NEW
    for tag, o2, d1, d2, prov, want in (
            ("different_defaults", "o", "a", "b", "y", "raise"), ("number_defaults", "o", 1.0, 2.0, "y", "raise"), ("falsy_default", "o", 0, 1, "y", "raise"),
            ("falsy_default2", "o", 1, 0, "y", "raise"),
            ("equal_defaults", "o", "a", "a", "y", "return"), ("other_option", "p", "a", "b", "y", "return"), ("replaced_plugin", "o", "a", "b", "x", "return")):
        e = World(proj, kinds={NEW: "type"})
        e.heap[(SELF, "_plugin_class_registry")] = tdict({"x": OLD})
        for p, n, cf, o, d in ((OLD, "x", C1, "o", d1), (NEW, prov, C2, o2, d2)):
            e.heap[(p, "provides")] = T("tuple", C(n))
            e.heap[(p, "takes_config")] = tdict({o: cf})
            e.heap[(cf, "default")] = C(d)
            e.heap[(cf, "name")] = C(o)
        r = e.run(f, cls=proj.cls("ComponentSim"), args={pn: NEW})
        o = outcome(r, [(distinct, False), (ndistinct, True), (seq, False)])
        ok = None if o is None else o == want
        if ok is False and want == "raise" and any(x.kind == "raise" and not isc(world(raise_guard(x), [(distinct, False), (ndistinct, True), (seq, False)]), False) for x in r.events):
            ok = None
        book.ob("conflict", tag, ok, f"{'no path returns' if o == 'raise' else 'a path returns' if o else 'undetermined'}, expected {want}", f.loc)


def twice(proj, book):
    C1, C2, C3, PL = (par(x) for x in ("C1", "C2", "C3", "plugin_class"))
    f = proj.func("takes_config")
    va = f.node.args.vararg
    if va is None:
        book.ob("conflict", "takes_config", None, "options are not given as separate arguments", f.loc)
        return

    def inst_(x):
        return x.op == "call" and head(x.a[0]) == "builtins.isinstance"

    def has(x):
        return x.op == "call" and head(x.a[0]) == "builtins.hasattr"
    cfg = (C1, C2, C3)
    compares = any(m in k.methods for c in ("Config", "Constant", "Map", "SigmaMap", "ConstantSet") if proj.cls(c) for k in proj.cls(c).mro() for m in ("__eq__", "__hash__"))

    def among(x, op):
        """A given option object looked for among other option objects: the objects differ."""
        if x.op != "cmp" or x.a[0] != op or x.a[1] not in cfg:
            return False
        c = x.a[2]
        return c.op in ("list", "tuple") and c.a and all(y in cfg and y is not x.a[1] for y in c.a)

    def other(x):
        return among(x, "in")

    def nother(x):
        return among(x, "not in")
    for tag, confs, inherited, want in (("one_decorator", (("o", C1), ("o", C2)), {}, "raise"), ("two_decorators", (("o", C1),), {"o": C3}, "raise"),
                                        ("second_of_two", (("p", C1), ("o", C2)), {"o": C3}, "raise"),
                                        ("separate", (("o", C1), ("p", C2)), {"q": C3}, "return"), ("first", (("o", C1), ("p", C2)), None, "return")):
        e = World(proj)
        r = e.run(f, args={va.arg: T("tuple", *[c for n, c in confs])})
        r.func, r.ev = f, e
        if r.ret is None or r.ret.op != "closure":
            book.ob("conflict", f"takes_config:{tag}", None, "not a decorator in the known way", f.loc)
            continue
        for n, c in confs:
            e.heap[(c, "name")] = C(n)
        if inherited is not None:
            e.heap[(PL, "takes_config")] = tdict(inherited)
            e.heap[(C3, "name")] = C(next(iter(inherited), "none"))
        n0 = len(e.events)
        applied(r, r.ret, PL)
        evs = e.events[n0:]
        facts = [(inst_, True), (has, inherited is not None)] + ([] if compares else [(other, False), (nother, True)])
        up = any(x.kind in ("raise", "assert") and isc(world(raise_guard(x), facts), True) for x in evs)
        maybe = any(x.kind in ("raise", "assert") and not isc(world(raise_guard(x), facts), False) for x in evs)
        o = "raise" if up else None if maybe else "return"
        book.ob("conflict", f"takes_config:{tag}", None if o is None else o == want, f"{'an error' if up else 'accepted'}, expected {want}", f.loc)
        if want == "return" and o == "return":
            t = e.heap.get((PL, "takes_config"))
            if t is not None:
                d = world(t, facts)
                for _ in range(3):
                    d = d.a[1][0] if d.op == "call" and d.a[1] else d
                names = {k.a[0] for k, v in (x for x in d.a if isinstance(x, tuple)) if isinstance(k, Term) and k.op == "const"} if d.op == "dict" else None
                ex = {n for n, c in confs} | set(inherited or ())
                book.ob("conflict", f"takes_config:{tag}:kept", None if names is None else names == ex, f"options of the plugin are {sorted(names) if names else names}, expected {sorted(ex)}", f.loc)
