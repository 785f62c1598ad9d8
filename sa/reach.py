"""Call graph by name and per-function effects (stores to attributes and module-level state)."""

import ast

from .own import MUT, BUILTIN
from .proj import Class, Func

DUNDER = ("__call__", "__init__")


class Graph:
    def __init__(self, proj):
        self.proj = proj
        self.funcs = list(proj.all_funcs())
        self.byname, self.props = {}, {}
        for f in self.funcs:
            if f.cls is not None and not f.is_setter():
                (self.props if f.is_property() else self.byname).setdefault(f.name, []).append(f)
        self.edges = {id(f): self.refs(f) for f in self.funcs}

    def resolve(self, d):
        r = self.proj.lookup(d) if d else None
        if isinstance(r, list):
            return [x for x in r if isinstance(x, Func)]
        if isinstance(r, Class):
            m = r.find_method("__init__")
            return [m] if m is not None else []
        return []

    def refs(self, f):
        """(callee, node, call) for every reference to a package function."""
        out = []
        calls = {id(n.func): n for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        loc = locals_of(f)
        me = f.params[0] if f.cls is not None and f.params and not f.is_static() else None
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
                continue
            c = calls.get(id(n))
            r = root(n)
            if isinstance(n, ast.Name):
                if n.id in loc:
                    continue
                out += [(g, n, c) for g in self.resolve(f.dotted(n))]
                continue
            if isinstance(r, ast.Name) and r.id not in loc and r.id != me:
                d = f.dotted(n)
                g = self.resolve(d)
                if g:
                    out += [(x, n, c) for x in g]
                    continue
                if self.known_module(f, r):
                    continue
            if isinstance(n.value, ast.Name) and n.value.id == me:
                ms = []
                m = f.cls.find_method(n.attr)
                if m is not None:
                    ms.append(m)
                for k in self.proj.all_classes():
                    if k is not f.cls and f.cls in k.mro() and n.attr in k.methods:
                        ms.append(k.methods[n.attr])
                out += [(m, n, c) for m in ms]
                if ms:
                    continue
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and f.cls is not None:
                m = f.cls.find_method(n.attr, after=f.cls)
                if m is not None:
                    out.append((m, n, c))
                continue
            out += [(m, n, c) for m in self.props.get(n.attr, [])]
            if c is not None:
                out += [(m, n, c) for m in self.byname.get(n.attr, [])]
        return out

    def known_module(self, f, r):
        d = f.dotted(r)
        return bool(d) and d != r.id or r.id in BUILTIN

    def reach(self, roots, edge=None):
        """{function id: (function, parent)} reachable from roots."""
        seen = {}
        todo = [(f, None) for f in roots]
        while todo:
            f, p = todo.pop()
            if id(f) in seen:
                continue
            seen[id(f)] = (f, p)
            for g, n, c in self.edges[id(f)] if id(f) in self.edges else []:
                if id(g) not in seen and (edge is None or edge(f, g, n, c)):
                    todo.append((g, f))
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            out.append(f.qual.split(".", 1)[-1])
            f = seen[id(f)][1]
        return " <- ".join(out)


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
        n = n.func if isinstance(n, ast.Call) else n.value
    return n


def locals_of(f):
    """Names bound in the function (parameters, assignments), imports left out."""
    out = set()
    glob = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Global):
            glob |= set(n.names)
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
            out.add(n.name)
    return out - glob


class Effect:
    def __init__(self, target, node, value, aug, what):
        self.target, self.node, self.value, self.aug, self.what = target, node, value, aug, what


def effects(f):
    """Stores of f to attributes of self or module-level state: target is ("self", attr) or ("global", dotted) or ("param", name)."""
    loc = locals_of(f)
    me = f.params[0] if f.cls is not None and f.params and not f.is_static() else None
    glob = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
    nonl = set()
    a = f.node.args
    pos = a.posonlyargs + a.args
    dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    dflt.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    shared = {k for k, v in dflt.items() if isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call)}

    def tgt(n):
        """State that an in-place change of expression n touches."""
        while True:
            if isinstance(n, ast.Subscript):
                n = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("setdefault", "get", "__getitem__"):
                n = n.func.value
            elif isinstance(n, ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id == me:
                    return ("self", n.attr)
                d = f.dotted(n) if isinstance(root(n), ast.Name) and root(n).id not in loc and root(n).id != me else None
                if d and "." in d:
                    return ("global", f.mod.proj.canon(d))
                n = n.value
            else:
                break
        if isinstance(n, ast.Name):
            if n.id in shared:
                return ("default", n.id)
            if n.id in loc and n.id not in busy:
                # a local name of a shared object
                busy.add(n.id)
                try:
                    for st in ast.walk(f.node):
                        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets) and isinstance(st.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                            t = tgt(st.value)
                            if t is not None and not (isinstance(st.value, ast.Call) and not isinstance(st.value.func, ast.Attribute)):
                                return t
                finally:
                    busy.discard(n.id)
            if n.id in loc or n.id == me or n.id in BUILTIN:
                return None
            d = f.dotted(n)
            return ("global", f.mod.proj.canon(d if "." in d else f.mod.name + "." + d))
        return None

    out = []
    busy = set()

    def put(t, node, value, aug, what):
        if t is not None:
            out.append(Effect(t, node, value, aug, what))

    def target(t, st, value, aug):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [value] * len(t.elts)
            for x, v in zip(t.elts, vs):
                target(x, st, v, aug)
        elif isinstance(t, ast.Starred):
            target(t.value, st, value, aug)
        elif isinstance(t, ast.Name):
            if t.id in glob:
                put(("global", f.mod.name + "." + t.id), st, [value], aug, f"{t.id} is assigned")
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == me:
                put(("self", t.attr), st, [value], aug, f"self.{t.attr} is assigned")
            else:
                put(tgt(t.value), st, [value], aug, f"{ast.unparse(t)[:40]} is assigned")
        elif isinstance(t, ast.Subscript):
            put(tgt(t.value), st, [value, t.slice], aug, f"{ast.unparse(t)[:40]} is assigned")

    for st in ast.walk(f.node):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                target(t, st, st.value, False)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            target(st.target, st, st.value, False)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name) and st.target.id in loc and st.target.id not in glob:
                # x = self.array; x += ... works in place
                t = tgt(st.target)
                if t is not None and (t[0] == "default" or t[0] == "self" and filled(f, t[1])):
                    put(t, st, [st.value], True, f"{st.target.id} += ... changes it in place")
            target(st.target, st, st.value, True)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    put(tgt(t.value) if isinstance(t, ast.Subscript) or not (isinstance(t.value, ast.Name) and t.value.id == me) else ("self", t.attr), st, [], True, f"{ast.unparse(t)[:40]} is deleted")
        elif isinstance(st, ast.Call):
            fn = st.func
            if isinstance(fn, ast.Attribute) and fn.attr in MUT:
                put(tgt(fn.value), st, list(st.args) + [k.value for k in st.keywords], True, f"{ast.unparse(fn)[:40]}(...)")
            elif isinstance(fn, ast.Name) and fn.id in ("setattr", "delattr") and st.args:
                x = st.args[0]
                if isinstance(x, ast.Name) and x.id == me:
                    k = st.args[1].value if len(st.args) > 1 and isinstance(st.args[1], ast.Constant) else "?"
                    put(("self", k), st, list(st.args[2:]), False, f"setattr(self, {k})")
                else:
                    put(tgt(x), st, list(st.args[1:]), False, "setattr(...)")
    return out


def filled(f, a):
    """The attribute holds an array or another container."""
    for c in f.cls.mro() if f.cls is not None else ():
        for m in list(c.methods.values()):
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and m.params and t.value.id == m.params[0] for t in n.targets):
                    v = n.value
                    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                        return True
                    if isinstance(v, ast.Call):
                        d = m.dotted(v.func) or ""
                        if d.startswith("numpy.") or d in ("list", "dict", "set", "collections.OrderedDict", "collections.defaultdict", "collections.Counter"):
                            return True
    return False


def parents(f):
    out = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def sources(f, exprs, at, par=None):
    """Parameters, attributes of self and module-level names the expressions may take their value from (reaching assignments followed)."""
    par = par or parents(f)
    loc = locals_of(f)
    me = f.params[0] if f.cls is not None and f.params and not f.is_static() else None
    a = f.node.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]} - {me}
    out, seen = set(), set()

    def expr(e, at):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                out.add(("self", n.attr))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == me and isinstance(n.args[1], ast.Constant):
                out.add(("self", n.args[1].value))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                name(n.id, at)

    def name(x, at):
        if x == me:
            return
        if x not in loc:
            d = f.dotted(ast.Name(id=x, ctx=ast.Load()))
            if d and x not in BUILTIN:
                out.add(("global", f.mod.proj.canon(d if "." in d else f.mod.name + "." + d)))
            return
        if (x, id(at)) in seen:
            return
        seen.add((x, id(at)))
        # walk back to the assignments that reach this place
        n = at
        while n is not None and n is not f.node:
            p = par.get(id(n))
            for field in ("body", "orelse", "finalbody", "handlers"):
                blk = getattr(p, field, None)
                if isinstance(blk, list) and any(y is n for y in blk):
                    i = next(i for i, y in enumerate(blk) if y is n)
                    for y in reversed(blk[:i]):
                        if binds(y, x):
                            if isinstance(y, (ast.Assign, ast.AnnAssign)):
                                if x not in {z.id for z in ast.walk(y.value) if isinstance(z, ast.Name)} or True:
                                    expr(y.value, y)
                                return
                            inside(y, x)
                            if isinstance(y, ast.If) and y.orelse and all(any(binds(z, x) for z in b) or ends(b) for b in (y.body, y.orelse)):
                                return
            if isinstance(p, (ast.For, ast.While)):
                inside(p, x)
            n = p
        if x in ps:
            out.add(("param", x))
        else:
            for y in ast.walk(f.node):
                if isinstance(y, (ast.comprehension,)) and x in {z.id for z in ast.walk(y.target) if isinstance(z, ast.Name)}:
                    expr(y.iter, at)

    def inside(st, x):
        for y in ast.walk(st):
            if isinstance(y, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and binds(y, x):
                expr(y.value, y)
                if isinstance(y, ast.AugAssign):
                    pass
            elif isinstance(y, ast.For) and x in {z.id for z in ast.walk(y.target) if isinstance(z, ast.Name)}:
                expr(y.iter, y)
            elif isinstance(y, ast.withitem) and y.optional_vars is not None and x in {z.id for z in ast.walk(y.optional_vars) if isinstance(z, ast.Name)}:
                expr(y.context_expr, st)
            elif isinstance(y, ast.NamedExpr) and y.target.id == x:
                expr(y.value, st)

    def binds(st, x):
        return any(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in ast.walk(st))

    def ends(b):
        return any(isinstance(y, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for y in b)

    st = at
    while st is not None and not isinstance(st, ast.stmt):
        st = par.get(id(st))
    for e in exprs:
        expr(e, st)
    return out
