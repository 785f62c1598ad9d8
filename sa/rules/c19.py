"""C19: objects the caller passes in are not modified."""

import ast

from ..help import *
from ..own import Owner

META = {
    "level": "other",
    "technique": "interprocedural ownership and mutation-effect analysis",
    "explain": "Every function of the package is interpreted over origins (which parameter, or which attribute of self, an object or its contents "
               "come from); in-place modifications are recorded per origin and propagated through calls with summaries computed to a fixpoint.  "
               "No public function may modify a parameter or its contents, no method may modify an attribute that a public method filled with an "
               "object of its caller, and no shared table may be modified below entries that alias such an object.",
    "rules": {
        "kept": "a public function does not modify its arguments or their contents",
        "stored": "an attribute that holds an object of the caller is never modified in place",
        "table": "no shared table entry that is modified in place aliases an object of the caller",
        "post": "the parameter set a posterior summary returns is not part of the context",
    },
    "assumptions": ["functions of other packages modify only what their documentation says (sort, shuffle, out=, inplace=)",
                    "classes, modules and option objects handed to registration are not data"],
}
# registration works on classes, modules and options; two helpers document that they fill the list they get
EXEMPT = {("dependencies_deduce", "dependencies"), ("build_point", "data"), ("build_regbin", "data"), ("register", "plugin_class"), ("takes_config", "configs"),
          ("add_deps_to_graph_tree", "_seen"), ("add_plugins_to_graph_tree", "_seen"), ("add_deps_to_graph_tree", "graph_tree"), ("add_plugins_to_graph_tree", "graph_tree")}
NODATA = {"module", "module1", "module2", "plugin_class", "plugin", "component_cls", "subclass", "klass", "f", "func"}


def public(f):
    return not f.name.startswith("_") or f.name in ("__init__", "__call__") or f.is_setter()


def params(f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if f.cls is not None and not f.is_static():
        ps = ps[1:]
    return ps + [x.arg for x in a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]


def container(f, p):
    """The parameter is used as a container in the function."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("items", "keys", "values", "get", "update", "copy"):
            return True
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == p:
            return True
    return False


def strip(o):
    o = o.lstrip("?")
    o = o[:-5] if o.endswith("@list") else o
    return o.rstrip("*")


def check(proj, book):
    own = Owner(proj)
    book.step("kept", kept, proj, book, own)
    book.step("stored", stored, proj, book, own)
    book.step("table", table, proj, book, own)
    book.step("post", post, proj, book, own)
    book.floor("kept", 100)


def kept(proj, book, own):
    n = 0
    for f in own.funcs:
        if not public(f):
            continue
        s = own.summary(f)
        nm = f.qual.split(".", 1)[-1]
        for p in params(f):
            n += 1
            hits = [s.muts[o] for o in (p, p + "*") if o in s.muts]
            if not hits or p in NODATA or (f.name, p) in EXEMPT:
                book.ob("kept", f"{nm}:{p}", True, "not modified", f.loc)
                continue
            sure = [h for h in hits if h[2]]
            loc, what, _ = (sure or hits)[0]
            book.ob("kept", f"{nm}:{p}", False if sure else None, f"{p} is modified: {what}", loc)
    book.info["parameters"] = n
    book.info["functions"] = len(own.funcs)


def families(proj):
    """Classes grouped by inheritance."""
    seen, out = set(), []
    cs = list(proj.all_classes())
    for c in cs:
        if c.qual in seen:
            continue
        fam, todo = [], [c]
        while todo:
            x = todo.pop()
            if x.qual in seen:
                continue
            seen.add(x.qual)
            fam.append(x)
            todo += [y for y in cs if y.qual not in seen and (y in x.mro() or x in y.mro())]
        out.append(fam)
    return out


def stored(proj, book, own):
    n = 0
    for fam in families(proj):
        ms = [f for c in fam for f in list(c.methods.values()) + list(c.setters.values())]
        alias, muts = {}, {}
        for f in ms:
            s = own.summary(f)
            if public(f):
                for a, v in s.stores.items():
                    for o in v.own:
                        b = strip(o)
                        if b in params(f) and b not in NODATA and (f.name, b) not in EXEMPT and container_any(f, b, o):
                            alias.setdefault(("self." + a, False), []).append((f, b, o))
                    for o in v.inner:
                        b = strip(o)
                        if b in params(f) and b not in NODATA and (f.name, b) not in EXEMPT:
                            alias.setdefault(("self." + a, True), []).append((f, b, o))
            for o, (loc, what, d) in s.muts.items():
                if o.startswith("self."):
                    muts.setdefault((strip(o), o.endswith("*")), []).append((loc, what, d, f))
        for k, xs in sorted(alias.items(), key=lambda z: z[0]):
            hit = muts.get(k, [])
            for f, p, o in xs:
                n += 1
                nm = f.qual.split(".", 1)[-1]
                direct = [h for h in hit]
                sure = [h for h in direct if h[2]] if not o.startswith("?") else []
                # contents of a container that the object filled itself are its own
                if k[1] and not strict(o, p):
                    sure = []
                    direct = []
                if not direct:
                    book.ob("stored", f"{nm}:{p}:{k[0]}", True, f"{k[0]} holds {p} and is not modified in place", f.loc)
                else:
                    loc, what, _, g = (sure or direct)[0]
                    book.ob("stored", f"{nm}:{p}:{k[0]}", False if sure else None, f"{k[0]} holds {p} of the caller and is modified: {what}", loc)
    book.info["attributes_holding_arguments"] = n


def strict(o, p):
    return o.lstrip("?") == p + "*"


def container_any(f, p, o):
    return True


def table(proj, book, own):
    muts = {}
    for f in own.funcs:
        for o, (loc, what, d) in own.summary(f).muts.items():
            if o.startswith("G:") and o[-1] in "+*":
                muts.setdefault((o[2:-1], o[-1]), []).append((loc, what, d))
    n = 0
    for f in own.funcs:
        if not public(f):
            continue
        for g, v in own.summary(f).gstores.items():
            for p in params(f):
                if not container(f, p):
                    continue
                n += 1
                nm = f.qual.split(".", 1)[-1]
                worst = None
                for lvl, os in (("+", v.own), ("*", v.inner)):
                    al = [o for o in os if o.lstrip("?") in (p, p + "*")]
                    hit = [h for h in muts.get((g, lvl), []) if h[2]]
                    if al and hit:
                        ver = None if al[0].startswith("?") else False
                        if worst is None or worst[0] is None:
                            worst = (ver, hit[0])
                if worst is not None:
                    book.ob("table", f"{nm}:{p}:{g.rsplit('.', 1)[-1]}", worst[0], f"entries of {g} alias {p} of the caller and are modified: {worst[1][1]}", worst[1][0])
                else:
                    book.ob("table", f"{nm}:{p}:{g.rsplit('.', 1)[-1]}", True, "entries that are modified are copies", f.loc)
    book.info["tables"] = n


def post(proj, book, own):
    f = proj.method("Context", "get_post_parameters")
    v = own.summary(f).ret
    bad = [o for o in v.own if o.lstrip("?").startswith("self.") or o.lstrip("?").startswith("G:")]
    sure = [o for o in bad if not o.startswith("?")]
    # names of attributes of attributes: anything reached through self
    book.ob("post", "get_post_parameters", True if not bad else False if sure else None, "the returned set is a copy" if not bad else f"the returned set may be {bad[0]}", f.loc)
