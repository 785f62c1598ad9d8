"""C29: the needed parameters are exactly those the simulation, its maps and the rates read."""

from ..help import *
from ..world import World, obj, record, texts, names, known, elements

META = {
    "level": "other",
    "technique": "abstract interpretation of the bookkeeping of parameter names in a generic world of plugins, maps, components and likelihoods",
    "explain": "The functions that collect parameter names are evaluated on named plugins (one of them used twice), maps with and without a parameter, "
               "components and likelihoods with stale contents; the set that results must be the union of exactly what these declare.",
    "rules": {
        "sim": "a simulated component needs its rate, the parameters of every plugin of its workflow and of their maps, asked for its likelihood, and nothing else",
        "fixed": "a fixed component needs its rate",
        "llh": "a likelihood needs what its components need once they are deduced, with aliased names replaced",
        "context": "a context needs what its likelihoods need, and refuses fit parameters nobody needs",
        "map": "a map with uncertainty needs the parameter its configuration names, or <name>_sigma; other options need none",
    },
    "assumptions": ["plugins and maps are treated alike by the loops (the world has two plugins, one repeated, and three options)"],
}
LLH = C("the_llh")


def world(proj, cls, meth, heap=(), args=None, methods=None, opaque=None, kinds=None):
    f = proj.method(cls, meth)
    w = World(proj, methods=methods or {}, opaque=opaque, kinds=kinds)
    for (o, k), v in dict(heap).items():
        w.heap[(o, k)] = v
    r = w.run(f, cls=proj.cls(cls), args=args or {})
    r.func, r.loc, r.ev = f, f.loc, w
    return r


def exactly(book, rule, inst, t, want, loc, what):
    got = names(t)
    e = elements(t) if t is not None and got is None else None
    if t is None:
        ok = None
    elif e is not None and all(x.op in ("const", "object") for x in e):
        ok = False   # something that is no name
    elif got is None:
        ok = None
    else:
        ok = got == sorted(want)
    d = f"{what}: {got if got is not None else show(t)[:200] if t is not None else None}, expected {sorted(want)}"
    book.ob(rule, inst, ok, d, loc)


def workflow(rate, stale=True):
    """Two plugins, the first used twice, with options that need a parameter, another and none."""
    heap, methods = {}, {}
    A, B = obj("PluginA"), obj("PluginB")
    opts = {}
    for n, v in (("map_a", C("sigma_a")), ("const_a", NONE), ("map_b", C("sigma_b"))):
        o = opts[n] = obj(n)

        def needs(w, args, kw, v=v):
            a = args[0] if args else dict(kw).get("llh_name", NONE)
            if v is NONE or a is LLH:
                return v
            return C(v.a[0] + " of another likelihood")
        methods[(o, "required_parameter")] = needs
    for p, n, pars, on in ((A, "PluginA", ("p", "q"), ("map_a", "const_a")), (B, "PluginB", ("q", "r"), ("map_b",))):
        heap[(p, "__name__")] = C(n)
        heap[(p, "parameters")] = T("tuple", *[C(x) for x in pars])
        heap[(p, "takes_config")] = record(**{k: opts[k] for k in on})
        heap[(p, "provides")] = texts("out_" + n)
        heap[(p, "depends_on")] = texts("in_" + n)
    heap[(SELF, "rate_name")] = C(rate)
    heap[(SELF, "llh_name")] = LLH
    heap[(SELF, "needed_parameters")] = T("set", C("stale"))
    deps = T("list", *[record(plugin=p, provides=texts("out_" + n), depends_on=texts("in_" + n))
                       for p, n in ((A, "PluginA"), (B, "PluginB"), (A, "PluginA"))])
    return heap, methods, deps


def sim(proj, book):
    for rate in ("the_rate", ""):
        heap, methods, deps = workflow(rate)
        f = proj.method("ComponentSim", "dependencies_simplify")
        a = [x.arg for x in f.node.args.args if x.arg != "self"]
        if len(a) != 1:
            book.ob("sim", "arguments", None, f"dependencies_simplify takes {a}", f.loc)
            return
        r = world(proj, "ComponentSim", "dependencies_simplify", heap, {a[0]: deps}, methods)
        t = r.heap.get((SELF, "needed_parameters"))
        want = {"p", "q", "r", "sigma_a", "sigma_b"} | ({rate} if rate else set())
        exactly(book, "sim", "rate" if rate else "no_rate", t, want, r.loc, "a component with" + (" a rate" if rate else "out a rate") + " needs")


def fixed(proj, book):
    r = world(proj, "ComponentFixed", "deduce", {(SELF, "rate_name"): C("the_rate"), (SELF, "needed_parameters"): T("set")},
              opaque=opq("implement_binning", "load_data"))
    exactly(book, "fixed", "rate", r.heap.get((SELF, "needed_parameters")), {"the_rate"}, r.loc, "a fixed component needs")


def likelihood(proj, book):
    COMP = obj("component")
    for name, alias, before, want in (
            ("plain", {}, {"other"}, {"other", "p", "q", "c_rate"}),
            ("alias", {"alias_q": "q", "alias_z": "z"}, {"other"}, {"other", "p", "alias_q", "c_rate"}),
            ("again", {"alias_q": "q"}, {"alias_q", "other"}, {"other", "p", "alias_q", "c_rate"})):
        cls_ = obj("component class")

        def build(w, args, kw):
            w.heap[(COMP, "needed_parameters")] = T("set")
            return COMP

        def deduce(w, args, kw):
            r = w.heap.get((COMP, "rate_name"), C(""))
            w.heap[(COMP, "needed_parameters")] = T("set", C("p"), C("q"), *([r] if not isc(r, "") else []))
            return NONE
        heap = {(SELF, "name"): LLH, (SELF, "components"): T("dict"), (SELF, "_parameter_alias"): record(**{k: C(v) for k, v in alias.items()}),
                (SELF, "needed_parameters"): T("set", *[C(x) for x in sorted(before)]), (SELF, "_bins_on"): texts("cs1", "cs2")}
        r = world(proj, "Likelihood", "register_component", heap, {"component_cls": cls_, "component_name": C("c")},
                  {cls_: build, (COMP, "deduce"): deduce, (COMP, "compile"): lambda w, a, k: NONE})
        exactly(book, "llh", name, r.heap.get((SELF, "needed_parameters")), want, r.loc, f"a likelihood with alias {alias} needs")


def unions(t):
    def f(x):
        if x.op == "bin" and x.a[0] == "|" and all(y.op == "set" for y in x.a[1:]):
            return T("set", *dict.fromkeys(x.a[1].a + x.a[2].a))
        return x
    return rewrite(t, f)


def context(proj, book):
    L1, L2 = obj("likelihood 1"), obj("likelihood 2")

    def registers(w, args, kw):
        w.heap[(L1, "needed_parameters")] = T("set", C("p"), C("c_rate"))
        return NONE
    heap = {(SELF, "likelihoods"): record(l1=L1, l2=L2), (SELF, "needed_parameters"): T("set", C("other")),
            (L1, "needed_parameters"): T("set"), (L2, "needed_parameters"): T("set", C("not registered here"))}
    r = world(proj, "Context", "register_component", heap,
              {"likelihood_name": C("l1"), "component_cls": obj("class"), "component_name": C("c")},
              {(L1, "register_component"): registers})
    got = r.heap.get((SELF, "needed_parameters"))
    if got is not None:
        # what the component itself needs is listed under the names before the aliases of its likelihood
        own = T("set", C("p before the alias"))
        got = unions(subst(got, {attr(idx(o, C("c")), "needed_parameters"): own for o in (L1, idx(attr(L1, "components"), C("c")))} |
                           {attr(idx(attr(L1, "components"), C("c")), "needed_parameters"): own}))
    exactly(book, "context", "register", got, {"other", "p", "c_rate"}, r.loc, "after a component was registered the context needs")
    # only needed parameters may be provided
    M = obj("parameter manager")
    for name, prov, bad in (("all", ("p", "q"), False), ("fewer", ("p",), False), ("unneeded", ("p", "x"), True), ("only unneeded", ("x",), True),
                            ("more", ("p", "q", "x"), True)):
        r = world(proj, "Context", "_sanity_check", {(SELF, "needed_parameters"): T("set", C("p"), C("q")), (SELF, "par_manager"): M},
                  methods={(M, "get_all_parameter"): lambda w, a, k, prov=prov: record(**{p: C(1.0) for p in prov})})
        rs = [conj(e.guard) for e in r.events if e.kind == "raise"]
        g = disj(tuple(rs)) if rs else FALSE
        ok = None if g.op != "const" else bool(g.a[0]) == bad
        book.ob("context", f"check:{name}", ok, f"needed p, q; provided {list(prov)}: " + ("refused" if isc(g, True) else "accepted" if isc(g, False) else show(g)[:120]), r.loc)
    # a fit asks
    r = run(proj, "Context", "fitting", opaque=opq("_sanity_check", "pre_fitting", "sample_init"))
    ask = [i for i, e in enumerate(r.events) if e.kind == "call" and head(e.fn) == "._sanity_check"]
    do = [i for i, e in enumerate(r.events) if e.kind == "call" and head(e.fn).split(".")[-1] == "run_mcmc"]
    ok = None
    if do:
        ok = bool(ask) and ask[0] < do[0] and any(isc(conj(r.events[i].guard), True) or r.events[i].guard == r.events[do[0]].guard for i in ask if i < do[0])
        if ask and not ok and ask[0] < do[0]:
            ok = None
    book.ob("context", "check:fit", ok, "a fit checks the parameters provided before it samples", r.loc)
    # names copied for the likelihoods
    par_config = record(v=obj("config of v"), w=obj("config of w"), c_rate=obj("config of c_rate"))
    lk = record(l1=record(copy_parameters=record(copy_v=C("v")), components=record(c=record())),
                l2=record(copy_parameters=record(copy_rate=C("c_rate")), components=record(d=record())))
    f = proj.method("Context", "update_parameter_config")
    a = [x.arg for x in f.node.args.args if x.arg != "self"]
    if len(a) == 1:
        r = world(proj, "Context", "update_parameter_config", {(SELF, "par_config"): par_config}, {a[0]: lk})
        exactly(book, "context", "copied", r.ret, {"copy_v", "copy_rate"}, r.loc, "copies v -> copy_v and c_rate -> copy_rate need")
        t = r.heap.get((SELF, "par_config"))
        exactly(book, "context", "configured", t, {"w", "c_rate", "copy_v", "copy_rate"}, r.loc,
                "fit parameters configured after v (unused by then) and c_rate (the rate of a component) were copied")
        if t is not None and t.op == "dict" and known(t):
            d = {k.a[0]: v for k, v in t.a}
            for k, v in (("copy_v", "v"), ("copy_rate", "c_rate")):
                if k in d:
                    w = d[k]
                    book.ob("context", f"copied:{k}", w is obj(f"config of {v}") if w.op == "object" else None, f"{k} is configured as {show(w)[:80]}", r.loc)


def maps(proj, book):
    for n in ("Config",):
        r = run(proj, n, "required_parameter")
        book.ob("map", n, isc(r.ret, None) or (None if undecidable(r.ret) else False), f"an option needs {show(r.ret)[:80]}", r.loc)
    f = proj.method("SigmaMap", "required_parameter")
    FM = [obj(x) for x in ("median", "lower", "upper")]
    for name, cfg, want in (("default", T("list", *FM), "the_map_sigma"), ("named", T("list", *FM, C("my_sigma")), "my_sigma"), ("single", C("file.json"), None)):
        asked = []

        def configs(w, args, kw, cfg=cfg):
            return cfg
        w = World(proj, methods={(SELF, "get_configs"): configs}, opaque=opq("get_configs"), kinds={cfg: "str" if cfg.op == "const" else "list"})
        w.heap[(SELF, "name")] = C("the_map")
        hooked = {}

        def hook(ev, fn, args, kw, fr, ex, cfg=cfg, hooked=hooked):
            if head(fn) == ".get_configs":
                hooked["arg"] = args[0] if args else dict(kw).get("llh_name")
                return cfg
        w.hook = hook
        r = w.run(f, cls=proj.cls("SigmaMap"), args={"llh_name": LLH})
        t = r.ret
        ok = isc(t, want) if t.op == "const" else None
        book.ob("map", f"SigmaMap:{name}", ok, f"needs {show(t)[:80]}, expected {want}", f.loc)
        if name == "default":
            a = hooked.get("arg")
            book.ob("map", "SigmaMap:likelihood", None if not hooked else a is LLH or (False if a is None or a.op == "const" else None), "the configuration is that of the likelihood asked for", f.loc)


def check(proj, book):
    for f in (sim, fixed, likelihood, context, maps):
        book.step(f.__name__, f, proj, book)
    book.floor("sim", 2)
    book.floor("llh", 3)
    book.floor("context", 6)
