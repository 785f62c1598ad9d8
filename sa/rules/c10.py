"""C10: each likelihood simulates, reports and is plotted with its own configuration."""

import ast

from ..help import *
from ..world import World
from ..report import Book
from ..terms import show
from .. import sigma
from ..sigma import files
from ..world import obj, record
from . import c11
from .c20 import tdict, tlist

META = {
    "level": "other",
    "technique": "ownership and aliasing analysis of configuration objects and registries, with the likelihood name traced from the likelihood to every lookup",
    "explain": "The objects a plugin instance keeps for its options are shown to be copies of the shared class-level ones, taken after these were built for "
               "that instance's likelihood; lineage, plots and compiled simulations are shown to read these copies; the likelihood name is traced "
               "through likelihood, component, generated code and parameter lookup; and no container that several objects share (class attributes, "
               "argument defaults) is modified in place.",
    "rules": {
        "own": "each plugin instance keeps its own copy of every option",
        "built": "the copy is of the option built for the instance's likelihood",
        "lineage": "lineage is that of the instance's own options, of the component's own instances",
        "plot": "plots show the instance's own maps",
        "name": "the likelihood name reaches components, plugins, parameter lookup and the compiled simulation unchanged",
        "shared": "no container shared through a class or an argument default is modified in place",
        "stale": "an option object built before for another likelihood, as class-level ones are, takes nothing over from that one",
        "submaps": "the maps of an uncertainty map are its own, built for its likelihood; the entries of other likelihoods stay, conflicting ones are refused",
        "reads": "simulations read options from the instance, not from the class",
    },
    "assumptions": ["copy.deepcopy copies option objects completely (no option class defines __deepcopy__)"],
}
TAB = G("appletree.share._cached_functions")
CA, CB = par("option_a"), par("option_b")
LLH = par("llh_name")


def plugin_eval(proj, name, heap, args=None):
    f = proj.method("Plugin", name)
    e = World(proj, opaque=opq("sanity_check"))
    e.heap[(SELF, "takes_config")] = tdict({"a": CA, "b": CB})
    e.heap[(CA, "name")], e.heap[(CB, "name")] = C("a"), C("b")
    for k, v in heap.items():
        e.heap[(SELF, k)] = v
    r = e.run(f, cls=proj.cls("Plugin"), args=args or {})
    r.func, r.loc, r.ev = f, f.loc, e
    return r


def instances(proj, book):
    f = proj.method("Plugin", "__init__")
    pn = [a.arg for a in f.node.args.args]
    if len(pn) < 2:
        book.ob("own", "init", None, "constructor without likelihood argument", f.loc)
        return
    llh = par(pn[1])
    r = plugin_eval(proj, "__init__", {}, {pn[1]: llh})
    for n, c in (("a", CA), ("b", CB)):
        st = [(i, e) for i, e in enumerate(r.events) if e.kind == "setattr" and e.args and e.args[0] is SELF and e.value is not None and occurs(e.value, c) and e.value.op != "attr"]
        st += [(i, e) for i, e in enumerate(r.events) if e.kind == "call" and e.fn is not None and head(e.fn) == "builtins.setattr" and e.args and e.args[0] is SELF and occurs(e.args[-1], c)]
        v = r.heap.get((SELF, n))
        if v is None and st:
            v = st[-1][1].value if st[-1][1].value is not None else st[-1][1].args[-1]
        kind = None if v is None else copied(v, c)
        if v is None:
            alias = [k for k, x in r.heap.items() if k[0] is SELF and isinstance(x, Term) and occurs(x, c) and k[1] != "takes_config"]
            book.ob("own", n, None if alias else False, "the instance keeps no object of its own for the option", f.loc)
            continue
        book.ob("own", n, {"deep": True, "same": False}.get(kind), f"the instance keeps {show(v)[:80]}", st[-1][1].loc if st else f.loc)
        bs = [(i, e) for i, e in enumerate(r.events) if e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[1] == "build" and (e.fn.a[0] is c or e.fn.a[0] is v)]
        if not bs:
            other = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).endswith("build")]
            book.ob("built", n, None if other else False, "the option is never built by the constructor", f.loc)
            continue
        i, e = bs[-1]
        a = arg(e, 0, "llh_name")
        own = a is llh or a is attr(SELF, "llh_name") and r.heap.get((SELF, "llh_name")) is llh
        book.ob("built", f"{n}:likelihood", own or (False if a is None or a.op in ("const", "param") or a.op == "attr" and (a.a[1] == "llh_name" or a.a[1].startswith("__")) else None), f"built for {show(a)[:60] if a is not None else 'no likelihood'}", e.loc)
        order = e.fn.a[0] is v or not st or any(j < st[-1][0] for j, _ in bs)
        book.ob("built", f"{n}:order", order, "built before it is copied" if order else "copied before it is built for this likelihood", e.loc)
    v = r.heap.get((SELF, "llh_name"))
    book.ob("name", "plugin", v is llh or (None if v is None or undecidable(v) and v.op != "param" else False), f"the plugin keeps likelihood {show(v)[:40] if v is not None else None}", f.loc)


def copied(v, c):
    """'deep' | 'same' | None: how v relates to the shared object c."""
    if v is c:
        return "same"
    if v.op == "call":
        h = head(v.a[0])
        if h.endswith("copy.deepcopy") and v.a[1] and v.a[1][0] is c:
            return "deep"
    if v.op == "phi":
        a, b = copied(v.a[1], c), copied(v.a[2], c)
        return "same" if "same" in (a, b) else a if a == b else None
    return None


def lineage(proj, book):
    IA, IB = par("own_a"), par("own_b")
    r = plugin_eval(proj, "lineage", {"a": IA, "b": IB})
    t = r.ret
    d = item(t, C("takes_config")) if t is not None else None
    if d is None or d.op == "item":
        book.ob("lineage", "plugin", None, "lineage without the options in the known place", r.loc)
    else:
        for n, c, own in (("a", CA, IA), ("b", CB, IB)):
            x = item(d, C(n))
            if x.op == "item" and x.a[0] is d:
                x = d
            mine, shared = occurs(x, own), contains(x, lambda y: y.op == "attr" and y.a[0] is c and y.a[1] != "name")
            book.ob("lineage", f"plugin:{n}", True if mine and not shared else False if shared else None,
                    f"lineage of the option is taken from {'the instance' if mine else 'the class' if shared else show(x)[:60]}", r.loc)
    r = run(proj, "ComponentSim", "lineage")
    L = [x for x in walk(r.ret) if x.op == "attr" and x.a[1] == "lineage"]
    if not L:
        book.ob("lineage", "component", None, "lineage of the plugins not found", r.loc)
    for x in L:
        b = x.a[0]
        ok = None
        if b.op == "item" and b.a[0].op == "item" and b.a[0].a[0] is TAB:
            ok = b.a[0].a[1] is attr(SELF, "llh_name") or (False if not undecidable(b.a[0].a[1]) else None)
        elif contains(b, lambda y: y.op == "attr" and y.a[1] in ("_plugin_class_registry", "takes_config")):
            ok = False
        book.ob("lineage", "component", ok, f"plugin lineage taken from {show(b)[:100]}", r.loc)


def plot(proj, book):
    f = proj.func("_collect_maps", required=False) if "required" in proj.func.__code__.co_varnames else None
    try:
        f = f or proj.func("_collect_maps")
    except Exception:
        book.ob("plot", "collect", None, "no function collecting the maps")
        return
    r = run(proj, None, "_collect_maps")
    n = 0
    for e in r.events:
        vs = [e.value] if e.kind == "mutate" and e.fn == "setitem" and e.value is not None else list(e.args[1:]) if e.kind == "mutate" and e.fn in (
            "append", "add", "setdefault", "update") else []
        for v in vs:
            for x in ([v] if v.op != "tuple" else v.a):
                if x.op not in ("call", "attr", "item", "elem") or x.op == "attr" and x.a[1] in ("name", "file_path"):
                    continue
                own = contains(x, lambda y: y.op == "item" and y.a[0].op == "item" and y.a[0].a[0] is TAB)
                cls = contains(x, lambda y: y.op == "attr" and y.a[1] == "takes_config") and x.op == "item"
                if not own and not cls:
                    continue
                n += 1
                if own:
                    k = [y.a[0].a[1] for y in walk(x) if y.op == "item" and y.a[0].op == "item" and y.a[0].a[0] is TAB][0]
                    ok = k.op == "attr" and k.a[1] in ("llh_name", "name") or k.op == "elem" or (None if undecidable(k) else False)
                    comp = [y for y in walk(x) if y.op == "attr" and y.a[1] == "llh_name"]
                    book.ob("plot", f"{n}", True if ok else ok, f"map of the compiled instance of {show(k)[:60]}", e.loc)
                else:
                    book.ob("plot", f"{n}", False, f"map shown is the one shared by all likelihoods: {show(x)[:80]}", e.loc)
    if not n:
        book.ob("plot", "collect", None, "maps are not collected in the known way", f.loc)


def names(proj, book):
    own = attr(SELF, "llh_name")
    # component
    f = proj.method("Component", "__init__")
    pn = [a.arg for a in f.node.args.args]
    if "llh_name" in pn:
        r = run(proj, "Component", "__init__", opaque=opq("set_binning"), args={"llh_name": C("L"), "name": C("N")})
        v = r.heap.get((SELF, "llh_name"))
        book.ob("name", "component", isc(v, "L") if v is not None and v.op == "const" else None if v is not None else False, f"component keeps likelihood {show(v)[:60] if v is not None else None}", f.loc)
    # likelihood -> component
    r = run(proj, "Likelihood", "register_component")
    ev = [e for e in r.events if e.kind == "call" and e.fn is par("component_cls")]
    for e in ev:
        a = arg(e, 1, "llh_name")
        book.ob("name", "likelihood", False if a is None else a is attr(SELF, "name") or (False if not undecidable(a) else None), f"components get likelihood name {show(a)[:60] if a is not None else None}", e.loc)
    if not ev:
        book.ob("name", "likelihood", None, "construction of components not recognised", r.loc)
    # needed parameters
    r = run(proj, "ComponentSim", "dependencies_simplify")
    ev = calls(r, "required_parameter")
    for e in ev:
        a = arg(e, 0, "llh_name")
        book.ob("name", "parameters", False if a is None or a is NONE else a is own or (False if not undecidable(a) else None), f"needed parameters asked for likelihood {show(a)[:60] if a is not None else None}", e.loc)
    if not ev:
        book.ob("name", "parameters", None, "lookup of needed parameters not recognised", r.loc)
    # copies of components
    r = run(proj, "ComponentSim", "new_component")
    for i, e in enumerate(e for e in r.events if e.kind == "call" and e.fn is not None and (head(e.fn) == ".__class__" or head(e.fn).endswith("ComponentSim"))):
        a = arg(e, 1, "llh_name")
        book.ob("name", f"copy:{i}", False if a is None else a is par("llh_name") or (False if a.op in ("attr", "const") else None), f"copies get likelihood name {show(a)[:60] if a is not None else None}", e.loc)
    # generated code and compiled function
    from . import c06
    b = Book("C10", proj)
    b.step("code", c06.code_rule, proj, b, None)
    b.step("compile", c06.compile_rule, proj, b)
    n = 0
    for o in b.obs:
        if o.instance.endswith(":likelihood") or o.rule == "compile":
            n += 1
            book.ob("name", f"code:{o.instance}", {"discharged": True, "violated": False}.get(o.verdict), o.detail, o.loc)
    if not n:
        book.ob("name", "code", None, "generated code not analysable")
    # the namespace the simulation is compiled in
    f = proj.cls("ComponentSim").setters.get("code")
    n = 0
    for r, e, g in scoped(proj, f):
        n += 1
        ok, k = None, None
        base = g
        while base is not None and base.op == "setitem":
            base = base.a[0]
        if base is None or base is TAB or module_scope(base):
            ok = False
        elif any_entry(g):
            ok = False
        else:
            x = next((y for y in walk(g) if y.op == "item" and contains(y.a[0], lambda z: z is TAB)), None)
            if x is not None:
                k = x.a[1]
            else:
                st = [m for m in r.events if m.kind == "mutate" and m.fn == "setitem" and m.args[0] is TAB and m.value is g]
                gt = [m for m in r.events if m.kind == "getitem" and contains(m.args[0], lambda z: z is TAB)]
                if st and (gt or g.op != "dict"):
                    k = gt[-1].args[1] if gt else st[-1].args[1]
                elif st:
                    k = st[-1].args[1]
                elif g.op == "dict":
                    ok = False
            if k is not None:
                ok = k is own or (False if not undecidable(k) else None)
        book.ob("name", "namespace", ok, f"compiled in the table entry of {show(k)[:60] if k is not None else show(g)[:60] if g is not None else None}", e.loc)
    if not n:
        book.ob("name", "namespace", None, "compilation not recognised")


def module_scope(g):
    """The namespace of the module itself, which all likelihoods share."""
    return g.op == "call" and head(g.a[0]) in ("builtins.globals", "builtins.vars") and not g.a[1]


def any_entry(g, tab=TAB):
    """An entry of the table taken whatever its name is."""
    names = [show(tab) + "." + n for n in ("values", "items", "popitem")] if tab.op == "global" else []

    def f(x):
        return x.op == "call" and (x.a[0].op == "attr" and x.a[0].a[0] is tab and x.a[0].a[1] in ("values", "items", "popitem")
                                   or x.a[0].op == "global" and x.a[0].a[0] in names) or x.op in ("values", "items") and x.a[0] is tab
    return contains(g, f)


def recompiled(proj, book):
    """Options replaced per likelihood before a new compilation are computed from that likelihood's own value."""
    r = run(proj, "ComponentSim", "multiple_simulations_compile")
    own = attr(SELF, "llh_name")
    for i, e in enumerate(e for e in r.events if e.kind == "mutate" and e.fn == "setitem" and e.value is not None
                          and e.args[0].op == "item" and e.args[0].a[0] is G("appletree.share._cached_configs")):
        tab, k = e.args[0], e.args[1]
        read = {x.a[1] for x in walk(e.value) if x.op == "item" and x.a[0] is tab}
        if k is not own:
            ok = None if undecidable(k) else False
        elif any_entry(e.value, tab):
            ok = False
        else:
            ok = read <= {own} or (None if any(undecidable(x) for x in read) else False)
        book.ob("name", f"recompiled:{i}", ok, f"option of {show(k)[:50]} becomes {show(e.value)[:160]}", e.loc)


def scoped(proj, setter):
    """(run, event, namespace) of code execution in the functions that install simulation code."""
    out = []
    for f in [setter] + [proj.method("ComponentSim", n) for n in ("compile", "flush_source_code")]:
        if out or f is None:
            continue
        e = World(proj)
        r = e.run(f, cls=proj.cls("ComponentSim"))
        for ev in r.events:
            if ev.kind == "call" and ev.fn is not None and head(ev.fn) == "builtins.exec":
                out.append((r, ev, ev.args[1] if len(ev.args) > 1 else None))
            elif ev.kind == "setattr" and ev.value is not None and ev.value.op == "partial" and ev.value.a[0] is G("builtins.exec"):
                xs = ev.value.a[1]
                xs = xs.a if isinstance(xs, Term) else xs
                out.append((r, ev, xs[1] if len(xs) > 1 else None))
    return out


MUT = {"append", "add", "update", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "setdefault", "sort", "reverse",
       "difference_update", "intersection_update"}
MUTABLE_CALLS = {"dict", "list", "set", "defaultdict", "OrderedDict", "Counter", "deque"}


def mutable(x):
    return isinstance(x, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(x, ast.Call) and (
        isinstance(x.func, ast.Name) and x.func.id in MUTABLE_CALLS or isinstance(x.func, ast.Attribute) and x.func.attr in MUTABLE_CALLS)


def mutations(fn):
    """(root expression source, node) of in-place modifications in a function body."""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            yield n.func.value, n
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(u, ast.Subscript):
                        yield u.value, n
        elif isinstance(n, ast.AugAssign):
            yield (n.target.value if isinstance(n.target, ast.Subscript) else n.target), n


def root(x):
    while isinstance(x, ast.Subscript):
        x = x.value
    return x


def shared(proj, book):
    nc = nd = 0
    for m in proj.modules.values():
        for cname, c in m.classes.items():
            c = c[0] if isinstance(c, (list, tuple)) else c
            mro = c.mro()
            assigned = set()
            for k in mro:
                i = k.methods.get("__init__")
                i = i[0] if isinstance(i, (list, tuple)) else i
                if i is not None:
                    for n in ast.walk(i.node):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
                        for t in ts:
                            for u in (t.elts if isinstance(t, ast.Tuple) else [t]):
                                if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == "self":
                                    assigned.add(u.attr)
            bases = {n: (k, v) for k in reversed(mro) for n, v in k.attrs.items() if v is not None and mutable(v)}
            if not bases:
                continue
            for mn, f in c.methods.items():
                f = f[0] if isinstance(f, (list, tuple)) else f
                local = set()
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                local.add((t.attr, n.lineno))
                for x, n in mutations(f.node):
                    x = root(x)
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls", cname) and x.attr in bases:
                        own = x.value.id == "self" and (x.attr in assigned or any(a == x.attr and l < n.lineno for a, l in local))
                        nc += 1
                        book.ob("shared", f"{cname}.{mn}:{x.attr}", True if own else False, f"{x.attr} {'is set per instance' if own else 'is shared by all instances of the class and modified in place'}",
                                (m.rel, n.lineno, f.qual))
        for f in functions(m):
            args = f.node.args
            pos = args.posonlyargs + args.args
            dflt = list(zip([a.arg for a in pos[len(pos) - len(args.defaults):]], args.defaults)) + [
                (a.arg, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]
            for p, d in dflt:
                if not mutable(d):
                    continue
                reb = [n.lineno for n in f.node.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in n.targets)]
                hit = [n for x, n in mutations(f.node) if isinstance(root(x), ast.Name) and root(x).id == p and not any(l < n.lineno for l in reb)]
                nd += 1
                cond = [x for x in ast.walk(f.node) if isinstance(x, ast.If) and any(
                    isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in y.targets) for b in x.body + x.orelse for y in ast.walk(b))]
                if hit and any(not never(x.test, p) for x in cond):
                    continue
                loc = (m.rel, hit[0].lineno if hit else f.node.lineno, f.qual)
                book.ob("shared", f"{f.qual.split('.', 1)[-1]}:{p}", not hit, f"default of {p} is {'modified in place, later calls see it' if hit else 'not modified in place'}", loc)
    book.info["class_containers_modified"] = nc
    book.info["mutable_defaults"] = nd


def never(t, p):
    """The test `p is None`, which no default container passes."""
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == p and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is) \
        and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None


def functions(m):
    out = []
    for f in m.funcs.values():
        out += f if isinstance(f, (list, tuple)) else [f]
    for c in m.classes.values():
        c = c[0] if isinstance(c, (list, tuple)) else c
        for f in c.methods.values():
            out += f if isinstance(f, (list, tuple)) else [f]
    return out


def reads(proj, book):
    """Simulation code of plugins does not look at class-level options."""
    from ..plug import plugins
    n = 0
    for c in plugins(proj):
        for mn, f in c.methods.items():
            f = f[0] if isinstance(f, (list, tuple)) else f
            if mn in ("__init__",):
                continue
            n += 1
            bad = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == "takes_config"]
            book.ob("reads", f"{c.name}.{mn}", not bad, "reads the options shared by all likelihoods" if bad else "reads options of the instance only", (f.loc[0], bad[0].lineno if bad else f.loc[1], f.qual))
    book.floor("reads", 1)


def stale(proj, book):
    """The option object carries what building it for B left; it is now built for (or asked about) A."""
    VA, VB, D = par("value_A"), par("value_B"), C("/default")
    tabs = (("table", tdict({"opt": tdict({"B": VB, "A": VA}), "other": C(1)}), VA), ("one value", tdict({"opt": VA, "other": C(1)}), VA))
    base = {"name": "opt", "default": D, "llh_name": "B", "required_parameter": NONE}
    for tag, table, want in tabs:
        r = c11.ev(proj, "Constant", "build", table, {**base, "value": VB}, {"llh_name": "A"}, kinds={VA: "float", VB: "float"})
        c11.judge(book, "stale", f"Constant:{tag}", c11.got_of(r, r.heap.get((SELF, "value"))), want, r.func.loc)
        keeps(book, r, f"Constant:{tag}")
        r = c11.ev(proj, "Map", "build", table, {**base, "file_path": VB, "map": obj("map of B"), "method": "IDW"}, {"llh_name": "A"},
                   opaque=("get_file_path", "load_json", "build_point", "build_regbin"), kinds={VA: "str", VB: "str"})
        c11.judge(book, "stale", f"Map:{tag}", c11.got_of(r, r.heap.get((SELF, "file_path"))), want, r.func.loc)
        keeps(book, r, f"Map:{tag}")
        for ask, own in (("A", "B"), (None, "A")):
            r = c11.ev(proj, "SigmaMap", "get_configs", table, {**base, "llh_name": own}, {"llh_name": ask}, kinds={VA: "str", VB: "str"})
            c11.judge(book, "stale", f"SigmaMap.get_configs:{tag}:{ask}", c11.got_of(r, None), want, r.func.loc)
        # option sets
        s = lambda x: tlist(tlist("mu", "sd"), tlist(tlist(x), tlist(x)))
        t = tdict({"opt": tdict({"B": s(VB), "A": s(VA)})}) if tag == "table" else tdict({"opt": s(VA)})
        r = c11.ev(proj, "ConstantSet", "build", t, {**base, "value": record(mu=VB, sd=VB), "set_volume": C(5)}, {"llh_name": "A"})
        v = r.heap.get((SELF, "value"))
        ok = None
        if v is not None:
            a, b = occurs(v, VA), occurs(v, VB)
            ok = False if b and not a and not undecidable_shape(v) else True if a and not b else None
        book.ob("stale", f"ConstantSet:{tag}", ok, f"the values kept are {show(v)[:120] if v is not None else None}", r.func.loc)
        keeps(book, r, f"ConstantSet:{tag}")
        x = c11.fold(r.heap.get((SELF, "set_volume"))) if r.heap.get((SELF, "set_volume")) is not None else None
        book.ob("stale", f"ConstantSet:{tag}:volume", None if x is None or x.op != "const" else x.a[0] == 1, f"number of values {show(x)[:60] if x is not None else None}", r.func.loc)


def undecidable_shape(v):
    return contains(v, lambda x: x.op in ("phi", "unknown", "loopvar"))


def keeps(book, r, inst):
    """A likelihood name the object keeps is that of the likelihood it was built for last."""
    v = r.heap.get((SELF, "llh_name"))
    if not any(e.kind == "setattr" and e.args and e.args[0] is SELF and (e.fn == "llh_name" or len(e.args) > 1 and isc(e.args[1], "llh_name")) for e in r.events) and isc(v, "B"):
        return   # this kind of option keeps none
    ok = None if v is None or v.op != "const" else v.a[0] == "A"
    book.ob("stale", inst + ":likelihood", ok, f"likelihood kept is {show(v)[:40] if v is not None else None}", r.func.loc)


def submaps(proj, book):
    B = tdict({"B": C("/Bm")})
    OLD = {"llh_name": C("B"), "median": obj("B's median"), "lower": obj("B's lower"), "upper": obj("B's upper")}
    for w, (cfg, want) in sigma.CASES.items():
        for dn, d in sigma.DEFAULTS.items():
            for tag, old in (("fresh", {}), ("others", {"opt_median": B, "opt_lower": tdict({"B": C("/Bl")}), "opt_upper": tdict({"B": C("/Bu")})})):
                table = tdict({"opt": tdict({"B": files("/Bm", "/Bl", "/Bu", "Bs"), "A": cfg}), **old})
                for hn, heap in (("new", {}), ("used", OLD)):
                    o = sigma.build(proj, table, "A", d, heap)
                    inst = f"{w}:default {dn}:{tag}:{hn}"
                    if o["refused"] is not False:
                        book.ob("submaps", inst, False if o["refused"] else None, "the configuration is refused", o["loc"])
                        continue
                    ms = [o["maps"].get(s) for s in sigma.SIG]
                    ns = [m[1].get("name") if m else None for m in ms]
                    known = all(n is not None and n.op == "const" for n in ns)
                    book.ob("submaps", inst + ":names", (len({n.a[0] for n in ns} | {"opt"}) == 4) if known else None,
                            f"the maps are configured under {[n.a[0] for n in ns] if known else '?'}", o["loc"])
                    for s, m in zip(sigma.SIG, ms):
                        if m is None or m[2] is None:
                            book.ob("submaps", f"{inst}:{s}", None, "the map made is not known", o["loc"])
                            continue
                        a = [x for x in m[2]]
                        ok = bool(a) and all(x is not None and isc(x, "A") for x in a)
                        if not ok and any(x is not None and x.op not in ("const",) for x in a):
                            ok = None
                        if not a and any(e.kind == "call" and head(e.fn).endswith("build") and e.fn.a[0] not in o["made"] for e in o["events"]):
                            ok = None
                        book.ob("submaps", f"{inst}:{s}", ok, f"the {s} map is built for {[show(x) if x is not None else 'no likelihood' for x in a] or 'nothing'}", o["loc"])
                        if tag == "others" and known:
                            x = sigma.entry(o["table"], m[1]["name"].a[0], "B")
                            book.ob("submaps", f"{inst}:{s}:others", None if x is None else isinstance(x, Term) and isc(x, "/B" + s[0]), f"the other likelihood's {s} map is configured as {show(x)[:40] if isinstance(x, Term) else x}", o["loc"])
    for s, i in zip(sigma.SIG, range(3)):
        for tag, x, bad in (("same", tdict({"A": C("mlu"[i])}), False), ("different", tdict({"A": C("/else")}), True), ("for all", C("/" + "mlu"[i]), False),
                            ("different for all", C("/else"), True)):
            cfg = files(*("mlu" if tag == "same" else ("/m", "/l", "/u")))
            o = sigma.build(proj, tdict({"opt": cfg, "opt_" + s: x}), "A", files("/dm", "/dl", "/du"))
            book.ob("submaps", f"conflict:{s}:{tag}", None if o["refused"] is None else o["refused"] == bad,
                    f"the {s} map configured by itself {'differs' if bad else 'is the same'}: {'refused' if o['refused'] else 'accepted'}", o["loc"])


def in_turn(proj, book):
    """Two likelihoods built one after the other from differently configured maps: neither refused, each from its own files."""
    A, B = files("/Am", "/Al", "/Au", "As"), files("/Bm", "/Bl", "/Bu", "Bs")
    for tag, x, y in (("lists", A, B), ("list_then_string", A, C("/Bone")), ("string_then_list", C("/Aone"), B), ("three_then_four", files("/Am", "/Al", "/Au"), B)):
        opt = tdict({"A": x, "B": y})
        one = sigma.build(proj, tdict({"opt": opt}), "A", files("/dm", "/dl", "/du"))
        if one["refused"] is not False or not isinstance(one["table"], Term) or one["table"].op != "dict":
            book.ob("submaps", f"in_turn:{tag}", None, "the table after the first build is not known", one["loc"])
            continue
        two = sigma.build(proj, one["table"], "B", files("/dm", "/dl", "/du"))
        book.ob("submaps", f"in_turn:{tag}:accepted", None if two["refused"] is None else not two["refused"],
                "the second likelihood's map is " + ("refused after the first one was built" if two["refused"] else "accepted"), two["loc"])
        if two["refused"] is not False:
            continue
        for llh, o, c in (("A", one, x), ("B", two, y)):
            for i, sg in enumerate(sigma.SIG):
                o_ = dict(o, table=two["table"])
                got = sigma.file_of(o_, sg, llh)
                want = c if c.op == "const" else c.a[i]
                book.ob("submaps", f"in_turn:{tag}:{llh}:{sg}", None if got is None else got is want,
                        f"likelihood {llh} reads its {sg} map from {got if not isinstance(got, Term) else show(got)}, configured is {show(want)}", o["loc"])


def check(proj, book):
    for f in (stale, submaps, in_turn, instances, lineage, plot, names, recompiled, shared, reads):
        book.step(f.__name__, f, proj, book)
    book.floor("own", 2)
    book.floor("name", 4)
