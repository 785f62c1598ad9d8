"""C03: one sorted order of the fitted parameters; no draw in hash order."""

import ast

from ..help import *
from ..world import World

META = {
    "level": "other",
    "technique": "order analysis: every ordered use of the fitted names is evaluated to its source term and classified as sorted, "
                 "configuration-ordered or hash-ordered",
    "explain": "parameter_fit and every consumer of an ordered list of fitted parameters (vector of start values, dimension and names "
               "of the sampler, stored names, naming of samples) are evaluated through all inlined properties; the source of each "
               "sequence must be sorted() of the fitted set.  Every random draw inside a loop must iterate over a source that is not a set.",
    "rules": {
        "sorted": "parameter_fit is the ascending sort of the fitted names",
        "vector": "the fit vector lists the values in exactly that order",
        "sampler": "dimension, names and start points given to the sampler follow it",
        "stored": "the names stored in the backend are that list",
        "samples": "samples are named by the sampler's own names (or that list)",
        "draws": "no random draw happens in an iteration whose order depends on hash seeds",
    },
    "assumptions": ["dicts iterate in insertion order; sets of strings iterate in an order that depends on the hash seed"],
}


def set_attrs(proj):
    """Attribute names assigned a set somewhere in the package."""
    out = {}

    def isset(v):
        return isinstance(v, (ast.Set, ast.SetComp)) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "frozenset"))
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        out.setdefault(t.attr, []).append(isset(n.value))
    return {k for k, v in out.items() if any(v)}


WRAP = ("builtins.list", "builtins.tuple", "builtins.iter", "numpy.array", "numpy.asarray", "builtins.reversed",
        "builtins.enumerate")


class Orders:
    def __init__(self, proj):
        self.sets = set_attrs(proj)

    def order(self, t):
        """('sorted', base) | ('hash', base) | ('dict', base) | ('reverse', base) | (None, t)"""
        if t.op == "call" and t.a[0].op == "global":
            n, a, kw = t.a[0].a[0], t.a[1], dict(t.a[2])
            if n in ("builtins.sorted", "numpy.sort", "numpy.unique") and a:
                if "reverse" in kw and not isc(kw["reverse"], False):
                    return ("reverse" if isc(kw["reverse"], True) else None), elems(a[0])
                k = kw.get("key")
                if k is not None and not (k.op == "const" and k.a[0] is None) and not (
                        k.op == "global" and k.a[0] in ("builtins.str",)):
                    return "key", elems(a[0])
                return "sorted", elems(a[0])
            if n in ("builtins.set", "builtins.frozenset"):
                return "hash", elems(t)
            if n == "builtins.reversed" and a:
                o, b = self.order(a[0])
                return ("reverse" if o == "sorted" else o), b
            if n in WRAP and a:
                return self.order(a[0])
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("keys", "copy", "values", "items", "tolist") and not t.a[1]:
            return self.order(t.a[0].a[0])
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("union", "difference", "intersection"):
            return "hash", t
        if t.op == "comp":
            if t.a[0] == "set":
                return "hash", elems(t)
            if isinstance(t.a[3], Term):
                o, b = self.order(t.a[3])
                if t.a[0] in ("list", "gen") and t.a[1] is T("elem", t.a[2], t.a[3]):
                    return o, elems(t)
                return (o if o in ("hash", "dict") else None), t
        if t.op == "set":
            return "hash", t
        if t.op == "attr":
            if t.a[1] in self.sets:
                return "hash", t
            if t.a[1] in ("par_config", "_parameter_dict"):
                return "dict", t
        if t.op == "bin" and t.a[0] in ("-", "|", "&"):
            if "hash" in (self.order(t.a[1])[0], self.order(t.a[2])[0]):
                return "hash", t
        if t.op == "phi":
            a, b = self.order(t.a[1]), self.order(t.a[2])
            return (a[0] if a[0] == b[0] else None), t
        if t.op in ("zip",):
            os = {self.order(x)[0] for x in t.a}
            return ("hash" if "hash" in os else None), t
        return None, t


def elems(t):
    """Canonical set of elements of a names term."""
    while True:
        n = srcof(t)
        if n.op == "comp" and n.a[0] in ("list", "set", "gen") and not n.a[4] and n.a[1] is T("elem", n.a[2], n.a[3]) and isinstance(n.a[3], Term):
            n = n.a[3]
        if n is t:
            return t
        t = n


def is_fit(b):
    """Does a base term denote the fitted names?"""
    if b.op == "attr" and b.a[1] in ("_parameter_fit", "parameter_fit"):
        return True
    if b.op == "comp" and b.a[1] is T("elem", b.a[2], b.a[3]):
        el = b.a[1]
        g = conj(b.a[4])
        pts = [x for x in walk(g) if x.op == "item" and isc(x.a[1], "prior_type")]
        if pts and all(isc(subst(g, {p: C(t) for p in pts}), t != "fixed") for t in ("norm", "twohalfnorm", "free", "uniform", "fixed")):
            return True
        if g in (T("cmp", "in", el, x) for x in [y for y in walk(g) if y.op == "attr" and y.a[1] == "_parameter_fit"]):
            return True
    return None


def verdict(O, t):
    """Is names term t the ascending list of fitted names?"""
    if t.op == "attr" and t.a[1] == "parameter_fit":
        return True
    o, b = O.order(t)
    f = is_fit(b)
    if o == "sorted":
        return True if f else None
    if o in ("reverse", "key", "hash", "dict"):
        return False
    return None


def vec_verdict(O, t):
    """Is t the vector of values in that order?"""
    if t.op == "attr" and t.a[1] == "parameter_fit_array":
        return True
    while t.op == "call" and head(t.a[0]) in ("numpy.array", "numpy.asarray", "builtins.list") and t.a[1]:
        t = t.a[1][0]
    t = fuse(t)
    if t.op == "phi":
        vs = [vec_verdict(O, t.a[1]), vec_verdict(O, t.a[2])]
        return False if False in vs else True if vs == [True, True] else None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("get_parameter", "__getitem__") and t.a[1]:
        return verdict(O, t.a[1][0])
    if t.op == "comp" and t.a[0] == "list" and isinstance(t.a[3], Term) and not t.a[4]:
        el = T("elem", t.a[2], t.a[3])
        if t.a[1].op == "item" and t.a[1].a[1] is el:
            return verdict(O, t.a[3])
        return None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "values":
        return False if O.order(t.a[0].a[0])[0] in ("dict", "hash") else None
    if t.op == "comp":
        return False if O.order(t.a[3])[0] in ("hash", "dict") else None
    return None


def check(proj, book):
    O = Orders(proj)
    book.step("sorted", names, proj, book, O)
    book.step("sampler", sampler, proj, book, O)
    book.step("stored", stored, proj, book, O)
    book.step("samples", samples, proj, book, O)
    book.step("draws", draws, proj, book, O)
    book.floor("sorted", 1)
    book.floor("sampler", 2)
    book.floor("draws", 2)


def names(proj, book, O):
    r = run(proj, "Parameter", "parameter_fit")
    o, b = O.order(r.ret)
    book.ob("sorted", "parameter_fit", verdict(O, r.ret), f"parameter_fit is {show(r.ret)[:160]} ({o} order)", r.loc)
    r = run(proj, "Parameter", "parameter_fit_array")
    book.ob("vector", "parameter_fit_array", vec_verdict(O, r.ret), f"the fit vector is {show(r.ret)[:200]}", r.loc)


def sampler(proj, book, O):
    for m in ("pre_fitting", "fitting", "continue_fitting"):
        r = run(proj, "Context", m, opaque=opq("_set_backend", "_dump_meta", "_sanity_check", "sample_init"))
        for e in r.events:
            if e.kind != "call":
                continue
            n = head(e.fn).split(".")[-1]
            if n == "EnsembleSampler":
                pn = arg(e, 9, "parameter_names")
                book.ob("sampler", f"{m}:names", verdict(O, pn) if pn is not None else False,
                        f"the sampler's parameter names are {show(pn)[:120] if pn is not None else 'not given'}", e.loc)
                nd = arg(e, 1, "ndim")
                ok = None
                if nd is not None and nd.op == "call" and head(nd.a[0]) == "builtins.len" and nd.a[1]:
                    x = nd.a[1][0]
                    if is_fit(elems(x)) or vec_verdict(O, x) is not None or (
                            x.op == "attr" and x.a[1] == "parameter_fit") or verdict(O, x) is not None:
                        ok = True
                    if elems(x).op == "attr" and elems(x).a[1] in ("_parameter_dict", "par_config", "_parameter_fixed"):
                        ok = False
                book.ob("sampler", f"{m}:ndim", ok, f"dimension is {show(nd)[:120] if nd is not None else '?'}", e.loc)
            if n == "run_mcmc" and m == "fitting":
                p0 = arg(e, 0, "initial_state")
                while p0 is not None and p0.op == "call" and head(p0.a[0]) in ("numpy.array", "numpy.asarray", "numpy.vstack", "numpy.stack", "builtins.list") and p0.a[1]:
                    p0 = p0.a[1][0]
                ok = vec_verdict(O, p0.a[1]) if p0 is not None and p0.op == "comp" else None
                book.ob("sampler", f"{m}:start", ok, f"start points are {show(p0)[:200] if p0 is not None else '?'}", e.loc)


def stored(proj, book, O):
    r = run(proj, "Context", "_dump_meta", opaque=opq("get_post_parameters"))
    for e in r.events:
        v = None
        if e.kind == "mutate" and len(e.args) == 2 and isc(e.args[1], "parameter_fit"):
            v = e.value
        elif e.kind == "call" and head(e.fn).split(".")[-1] in ("create", "modify") and e.args and isc(e.args[0], "parameter_fit"):
            v = arg(e, 1, "data")
        if v is not None:
            book.ob("stored", "parameter_fit", verdict(O, v), f"the stored order is {show(v)[:120]}", e.loc)


def samples(proj, book, O):
    r = run(proj, "Context", "get_post_parameters")
    n = 0
    for x in walk(r.ret):
        names = None
        if x.op == "call" and head(x.a[0]).split(".")[-1] == "ndarray_to_list_of_dicts" and len(x.a[1]) == 2:
            names = x.a[1][1]
        elif x.op == "call" and x.a[0] is G("builtins.zip") and len(x.a[1]) == 2:
            names = x.a[1][0]
        elif x.op == "zip" and len(x.a) == 2:
            names = x.a[0]
        if names is None:
            continue
        n += 1
        own = names.op == "attr" and names.a[1] == "parameter_names" and names.a[0].op == "attr" and names.a[0].a[1] == "sampler"
        own = own or srcof(names) is attr(SELF, "sampler", "parameter_names")
        book.ob("samples", f"get_post_parameters:{n}", True if own else verdict(O, names), f"samples are named by {show(names)[:120]}", r.loc)


DRAWS = ("numpy.random.", "random.")


def draws(proj, book, O):
    cls = proj.cls("Parameter")
    seen = set()
    for f in proj.all_funcs():
        src = ast.unparse(f.node)
        if "random" not in src and "rvs" not in src and f.cls is not cls:
            continue
        if f.mod.name.endswith("randgen") and f.cls is None:
            continue
        try:
            r = World(proj, opaque=opq("errors_to_two_half_norm_sigmas")).run(f, cls=f.cls)
        except RecursionError:
            continue
        for e in r.events:
            if e.kind != "call" or e.fn is None or e.fn.op != "global" or not e.fn.a[0].startswith(DRAWS) or e.fn.a[0].endswith(".seed"):
                continue
            for lid, s in e.loops or ():
                if not isinstance(s, Term):
                    continue
                o, b = O.order(s)
                k = (e.loc[0], e.loc[1], o)
                if k in seen:
                    continue
                seen.add(k)
                if o is None and contains(s, lambda x: x.op in ("unknown",)):
                    o = "?"
                book.ob("draws", f"{e.loc[2].split('.')[-1]}:{e.fn.a[0].split('.')[-1]}:{len(seen)}", o != "hash",
                        f"{e.fn.a[0]} is drawn in a loop over {show(s)[:80]} ({o or 'deterministic'} order)", e.loc)
