"""C04: depends_on / provides / parameters / takes_config are exactly what a plugin's simulate uses."""

import ast

from ..help import *
from ..world import World
from ..plug import Iface, plugins
from ..terms import show

META = {
    "level": "other",
    "technique": "interface conformance by effect analysis: reads, arguments and results of every plugin simulation against its declarations",
    "explain": "The declarations of every plugin class are evaluated from its class body, decorators and bases; its simulate method is evaluated "
               "over all paths (helpers inlined) and the key, inputs, outputs, parameter reads and option accesses are compared with them.  "
               "The sanity check at construction is evaluated on matching and mismatching signatures.",
    "rules": {
        "inputs": "simulate takes self, key, parameters and then depends_on, in this order and nothing else without a default",
        "outputs": "every path returns the key and one value per declared output",
        "order": "a returned variable that carries the name of a declared output is returned in its position",
        "roles": "outputs with a known composition (sum of electrons and photons, x and y of a polar position) are in their position",
        "efficiency": "an efficiency combines every input it declares",
        "reads": "only declared parameters are read",
        "read": "every declared parameter is read",
        "options": "only declared options (and class members) are accessed on self",
        "used": "every declared option is used",
        "access": "an option is used according to its type: constants by value, maps by apply, uncertainty maps with the parameters",
        "sanity": "a plugin with a mismatching signature is rejected when it is made, a matching one is not",
    },
    "assumptions": ["attributes of plugins are those of the class body, the options and the likelihood name set by Plugin.__init__"],
}
INST = {"llh_name", "takes_config"}


def check(proj, book):
    ps = plugins(proj)
    for c in ps:
        book.step(c.qual, one, proj, book, c)
    book.step("sanity", sanity, proj, book)
    book.info["plugins"] = [c.qual for c in ps]
    book.floor("inputs", 30)
    book.floor("outputs", 30)


def one(proj, book, c):
    i = Iface(c)
    f = c.find_method("simulate")
    nm = c.qual.split(".", 2)[-1]
    if not all(isinstance(x, (list, tuple)) for x in (i.depends_on, i.provides, i.parameters)):
        book.ob("inputs", nm, None, "the declarations are not literal", c.loc)
        return
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    want = ["self", "key", "parameters"] + list(i.depends_on)
    if a.vararg and len(ps) <= len(want) and ps == want[: len(ps)]:
        ok = None
    else:
        extra = ps[len(want):]
        nd = len(a.defaults)
        ok = ps[1: len(want)] == want[1:] and len(extra) <= nd and not [
            k for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    book.ob("inputs", nm, ok, f"simulate({', '.join(ps)}) with depends_on {list(i.depends_on)}", f.loc)
    ev = World(proj)
    r = ev.run(f, cls=c)
    slf = par(ps[0])
    # -- outputs
    bad = und = None
    for g, t, loc in rets(r):
        if t.op in ("tuple", "list"):
            if any(x.op == "star" for x in t.a):
                und = f"returns {show(t)[:100]}"
            elif len(t.a) != 1 + len(i.provides):
                bad = f"returns {len(t.a) - 1} values for {len(i.provides)} declared outputs"
        elif t.op == "noreturn":
            continue
        elif t.op in ("const", "param") or t.op == "bin":
            bad = f"returns {show(t)[:60]}"
        else:
            und = f"returns {show(t)[:100]}"
    if "eff" in i.provides and not bad:
        k = list(i.provides).index("eff") + 1
        for g, t, loc in rets(r):
            if t.op in ("tuple", "list") and len(t.a) > k:
                s = set(walk(t.a[k]))
                lost = [d for d in i.depends_on if par(d) not in s]
                book.ob("efficiency", nm, not lost, f"the efficiency combines {list(i.depends_on)}" + (f" without {lost}" if lost else ""), loc)
    book.ob("outputs", nm, False if bad else None if und else True, bad or und or
            f"returns the key and {len(i.provides)} values", f.loc)
    if not bad:
        book.step("order", naming, proj, book, c, f, i, nm)
        book.step("roles", roles, book, r, i, nm, f)
    # -- reads of parameters
    P = par("parameters")
    # a helper called with a name computed in a finite way is inlined; what is left is collected here
    terms_ = [x for e in r.events for x in list(e.args or ()) + list(e.guard) + (
        [v for v in (e.kwargs.values() if isinstance(e.kwargs, dict) else [v for _, v in e.kwargs or ()])]) + [e.value, e.term, e.fn]
        if isinstance(x, Term)] + [x for g, t, l in rets(r) for x in (g, t)] + [x for x in r.heap.values() if isinstance(x, Term)]
    seen = set()
    nodes = [x for t in terms_ for x in walk(t, seen)]
    reads, escapes, selfs, selfesc = {}, [], {}, []
    for x in nodes:
        if x.op == "item" and x.a[0] is P:
            k = x.a[1]
            reads.setdefault(k.a[0] if k.op == "const" else None, x)
        elif x.op == "call":
            fn = x.a[0]
            if fn.op == "attr" and fn.a[0] is P and fn.a[1] in ("get", "pop", "__getitem__") and x.a[1]:
                k = x.a[1][0]
                reads.setdefault(k.a[0] if k.op == "const" else None, x)
            vals = list(x.a[1]) + [v for _, v in x.a[2]]
            if P in vals and not (fn.op == "attr" and fn.a[1] == "apply"):
                escapes.append(x)
            if slf in vals:
                selfesc.append(x)
        elif x.op == "attr" and x.a[0] is slf:
            selfs.setdefault(x.a[1], x)
        elif x.op in ("star", "comp", "elem", "loopout") and any(y is P for y in x.a):
            escapes.append(x)
    # syntactic reads, wherever they are (closures that were not applied)
    fs = {f} | {g for g in ev.inlined if hasattr(g, "node")}
    strs = {n.value for g in fs for n in ast.walk(g.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    attrs = {n.attr for g in fs for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "parameters" and isinstance(
                n.slice, ast.Constant) and isinstance(n.ctx, ast.Load):
            reads.setdefault(n.slice.value, None)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0] and isinstance(n.ctx, ast.Load):
            selfs.setdefault(n.attr, None)
    extra = sorted(k for k in reads if k is not None and k not in i.parameters)
    # names computed at run time
    ok = not extra
    if ok and (None in reads or escapes):
        ok = None
    book.ob("reads", nm, ok, f"parameters read but not declared: {extra}" if extra else
            f"parameters read: {sorted(k for k in reads if k)}" + (", and others by computed name" if ok is None else ""), f.loc)
    missing = [p for p in i.parameters if p not in reads]
    dyn = None in reads or escapes or selfesc
    ok = True if not missing else None if dyn or all(p in strs for p in missing) else False
    book.ob("read", nm, ok, f"declared parameters {list(i.parameters)}" + (f", never read: {missing}" if missing else ""), f.loc)
    # -- options
    if i.configs is None:
        book.ob("options", nm, None, "the options are not literal", c.loc)
        return
    cf = {o.name: o for o in i.configs}
    known = set(cf) | INST
    other = sorted(a for a in selfs if a not in known and c.find_method(a) is None and c.find_attr(a)[1] is None and not (
        a.startswith("__") and a.endswith("__")))
    book.ob("options", nm, not other, f"accessed on self without declaration: {other}" if other else f"options accessed: {sorted(set(selfs) & set(cf))}", f.loc)
    unused = [n for n in cf if n not in selfs]
    ok = True if not unused else None if selfesc or all(n in attrs or n in strs for n in unused) else False
    book.ob("used", nm, ok, f"declared options {sorted(cf)}" + (f", never used: {unused}" if unused else ""), f.loc)
    # -- type of access
    for n, o in cf.items():
        A = attr(slf, n)
        for x in nodes:
            if x.op == "attr" and x.a[0] is A:
                if o.kind in ("Map", "SigmaMap") and x.a[1] in ("value",) or o.kind == "Constant" and x.a[1] in ("apply",):
                    book.ob("access", f"{nm}.{n}", False, f"{o.kind} {n} is used by .{x.a[1]}", f.loc)
            if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[0] is A and x.a[0].a[1] == "apply":
                m = proj.cls(o.kind).find_method("apply")
                need = len(m.params) - 1 if m else 1 if o.kind == "Map" else None
                n_ = len(x.a[1]) + len(x.a[2])
                if any(y.op == "star" for y in x.a[1]) or need is None or m and m.node.args.vararg:
                    book.ob("access", f"{nm}.{n}", None, show(x)[:100], f.loc)
                    continue
                good = n_ == need and (o.kind != "SigmaMap" or (len(x.a[1]) > 1 and x.a[1][1] is P) or dict(x.a[2]).get("parameters") is P)
                if o.kind == "SigmaMap" and not good and n_ == need:
                    good = None
                book.ob("access", f"{nm}.{n}", good, f"{o.kind} {n} applied with {n_} arguments", f.loc)
            if x.op in ("bin", "cmp") and A in x.a:
                book.ob("access", f"{nm}.{n}", False if o.kind == "Constant" else None, f"the option object {n} itself is computed with", f.loc)
            if x.op == "call" and o.kind in ("Constant", "ConstantSet") and A in x.a[1] and x.a[0].op == "global":
                num = head(x.a[0]).split(".")[0] in ("jax", "numpy") and not any(
                    m.startswith("__") and "arr" in m or m in ("__float__", "__int__", "__index__") for k in proj.cls(o.kind).mro() for m in k.methods)
                book.ob("access", f"{nm}.{n}", False if num else None, f"the option object {n} itself is passed to {head(x.a[0])}", f.loc)
    book.ob("access", nm, True, "options used according to their type", f.loc)


def names_of(proj, c, f, depth=0):
    """[[name or None per returned element] per return statement] of a function."""
    out = []
    own = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
            own |= set(ast.walk(n))
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Return) or n.value is None or n in own:
            continue
        v = n.value
        if isinstance(v, ast.Name):
            # the tuple was put together before
            ass = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
            v = ass[0].value if len(ass) == 1 else v
        if isinstance(v, (ast.Tuple, ast.List)):
            out.append(([e.id if isinstance(e, ast.Name) else None for e in v.elts], n.lineno))
        elif isinstance(v, ast.Call) and depth < 3 and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "self":
            g = c.find_method(v.func.attr)
            if g:
                out += names_of(proj, c, g, depth + 1)
    return out


def naming(proj, book, c, f, i, nm):
    n = 0
    for ns, line in names_of(proj, c, f):
        if len(ns) != 1 + len(i.provides):
            continue
        for k, x in enumerate(ns[1:]):
            if x in i.provides and x != i.provides[k]:
                # also bound to something of the right name?
                book.ob("order", f"{nm}:{i.provides[k]}", False, f"output {i.provides[k]} is the variable {x}", (f.mod.rel, line, f.qual))
            elif x is not None and x in i.depends_on and x not in i.provides and i.provides[k] not in i.depends_on and len(i.provides) > 1 and any(
                    y == i.provides[k] for y in ns):
                book.ob("order", f"{nm}:{i.provides[k]}", False, f"output {i.provides[k]} is the input {x}", (f.mod.rel, line, f.qual))
            n += 1
    book.ob("order", nm, True if n else None, f"{n} returned variables against {list(i.provides)}", f.loc)


ROLES = {"x": "cos", "y": "sin"}


def roles(book, r, i, nm, f):
    """Outputs whose composition tells them apart."""
    for g, t, loc in rets(r):
        if t.op not in ("tuple", "list") or len(t.a) != 1 + len(i.provides):
            continue
        out = dict(zip(i.provides, t.a[1:]))
        fns = {k: {fname(y.a[0]) or head(y.a[0]).split(".")[-1] for y in walk(v) if y.op == "call"} | {
            y.a[0] for y in walk(v) if y.op == "f"} for k, v in out.items()}
        if "x" in out and "y" in out and {"cos", "sin"} & (fns["x"] | fns["y"]):
            ok = "cos" in fns["x"] and "sin" in fns["y"]
            sw = "sin" in fns["x"] and "cos" in fns["y"] and "cos" not in fns["x"]
            book.ob("roles", f"{nm}:xy", True if ok else None if sw else None, "x from the cosine, y from the sine", loc)
        for k, v in out.items():
            src = k[4:] if k.startswith("rec_") else None
            if src in i.depends_on:
                book.ob("roles", f"{nm}:{k}", any(y is par(src) for y in walk(v)), f"{k} is computed from {src}", loc)
        q = [d for d in i.depends_on if d in ("Nq", "num_quanta")]
        if q and "num_photon" in out and "num_electron" in out:
            # every quantum is an electron or a photon: photons are what is left of the quanta
            has = {k: any(y is par(q[0]) for y in walk(canon(out[k]))) for k in ("num_photon", "num_electron")}
            book.ob("roles", f"{nm}:num_photon", True if has["num_photon"] else False if has["num_electron"] else None,
                    f"of {q[0]}, photons are what electrons leave", loc)
        for k, v in out.items():
            if k in i.depends_on or k.startswith("rec_"):
                continue
            # an output that is literally another plugin input passed through
            ins = [d for d in i.depends_on if v is par(d)]
            if ins:
                book.ob("roles", f"{nm}:{k}", True if k in (ins[0], "energy") or len(i.provides) == 1 else None, f"{k} is the input {ins[0]}", loc)


def sanity(proj, book):
    def world(ps, deps):
        def hook(ev, fn, args, kw, fr, ex):
            h = head(fn).split(".")[-1]
            if h in ("getfullargspec", "getargspec"):
                l = T("list", *[C(x) for x in ps])
                return T("tuple", l, NONE, NONE, NONE, T("list"), NONE, T("dict"))
            return None
        f = proj.method("Plugin", "sanity_check")
        ev = World(proj)
        ev.hook = hook
        ev.heap[(SELF, "depends_on")] = T("list", *[C(x) for x in deps])
        return ev.run(f, cls=proj.cls("Plugin"))

    good = [(["self", "key", "parameters", "a"], ["a"]), (["self", "key", "parameters", "a", "b", "c"], ["a", "b", "c"])]
    bad = [(["self", "rng", "parameters", "a"], ["a"], "key"), (["self", "key", "params", "a"], ["a"], "parameters"),
           (["self", "parameters", "key", "a"], ["a"], "swapped"),
           (["self", "key", "parameters", "b", "a"], ["a", "b"], "order"), (["self", "key", "parameters", "a", "c", "b"], ["a", "b", "c"], "tail"),
           (["self", "key", "parameters", "b"], ["a"], "name"), (["self", "key", "parameters", "z", "b"], ["a", "b"], "first"),
           (["self", "key", "parameters", "a", "b"], ["a"], "undeclared"), (["self", "key", "parameters", "a"], ["a", "b"], "missing")]
    f = proj.method("Plugin", "sanity_check")
    for ps, deps in good:
        r = world(ps, deps)
        rs = [e for e in raises(r) if not isc(guard_of(e), False)]
        hit = [e for e in rs if isc(guard_of(e), True)]
        book.ob("sanity", f"accepts:{len(deps)}", True if not rs else False if hit else None, f"simulate({', '.join(ps)}) for {deps}", f.loc)
    for ps, deps, why in bad:
        r = world(ps, deps)
        rs = [e for e in raises(r) if not isc(guard_of(e), False)]
        hit = [e for e in rs if isc(guard_of(e), True)]
        # reached end without raising for certain
        done = [g for g, t, l in rets(r) if t.op != "noreturn" and isc(g, True)]
        if why == "missing" and not hit:
            book.ob("sanity", "rejects:" + why, None, "an argument too few may be found by its index", f.loc)
            continue
        book.ob("sanity", "rejects:" + why, True if hit else False if not rs and (done or not r.exits) or done and not rs else None, f"simulate({', '.join(ps)}) for {deps}", f.loc)
    # the check is made at construction
    g = proj.method("Plugin", "__init__")
    r = run(proj, "Plugin", "__init__", opaque=opq("sanity_check", "build"))
    cs = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).split(".")[-1] == "sanity_check"]
    ok = True if any(not [x for x in e.guard if contains(x, lambda y: y.op == "param" and y.a[0] != "self")] for e in cs) else False if not cs and not any(
        h.name == "sanity_check" for h in r.ev.inlined if hasattr(h, "name")) else None
    book.ob("sanity", "made", ok, "the signature is checked when a plugin is made", g.loc)
