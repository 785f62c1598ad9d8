"""Ownership analysis: which functions modify objects their caller handed in.

A value is abstracted to the origins of the object itself (``own``) and of everything reachable from it
(``inner``).  Origins are parameters ("p" the object, "p*" its contents) and attributes of self ("self.a",
"self.a*").  An origin prefixed with "?" is only possible (a slice may be a copy or a view).
Statements are processed in order with strong updates of names; branches join, loops run twice.
Calls into the package are resolved (by name for receivers of unknown class) and use summaries
computed to a fixpoint.
"""

import ast

from .proj import Class, Func


class V:
    __slots__ = ("own", "inner", "elts", "kids")

    def __init__(self, own=(), inner=(), elts=None, kids=None):
        self.own, self.inner, self.elts = frozenset(own), frozenset(inner), elts
        # origins of the direct contents, when they are known apart from everything reachable
        self.kids = self.inner if kids is None else frozenset(kids)

    def __or__(self, o):
        if self is NIL or o is NIL:
            return o if self is NIL else self
        e = None
        if self.elts is not None and o.elts is not None and len(self.elts) == len(o.elts):
            e = tuple(x | y for x, y in zip(self.elts, o.elts))
        return V(self.own | o.own, self.inner | o.inner, e, self.kids | o.kids)

    def all(self):
        return self.own | self.inner

    def __eq__(self, o):
        return isinstance(o, V) and self.own == o.own and self.inner == o.inner and self.elts == o.elts and self.kids == o.kids

    def __hash__(self):
        return hash((self.own, self.inner))


NIL = V()
MUT = {"append", "add", "update", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "setdefault", "sort", "reverse", "difference_update", "intersection_update",
       "symmetric_difference_update", "fill", "resize", "itemset", "setflags", "partition", "move_to_end", "appendleft", "popleft"}
ITEM = {"get", "pop", "setdefault", "popitem", "__getitem__", "popleft"}
SHALLOW_M = {"copy", "items", "values", "union", "__copy__"}
SHALLOW = {"builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed", "builtins.zip", "builtins.enumerate",
           "builtins.map", "builtins.filter", "copy.copy", "collections.OrderedDict", "immutabledict.immutabledict", "collections.deque", "itertools.chain"}
SAME = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.asanyarray", "typing.cast", "builtins.iter", "numpy.ascontiguousarray",
        "builtins.vars", "numpy.swapaxes", "numpy.broadcast_to"}
VIEW_M = {"ravel", "reshape", "view", "squeeze", "transpose", "swapaxes", "__iter__"}
OUTFIRST = {"numpy.random.shuffle", "random.shuffle", "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "heapq.heappush", "heapq.heappop", "heapq.heapify", "numpy.put_along_axis",
            "bisect.insort", "operator.setitem", "operator.delitem", "builtins.delattr"}
BUILTIN = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def maybe(v):
    return V({o if o.startswith("?") else "?" + o for o in v.own}, v.inner, None, v.kids)


def child(v):
    """An element of a container."""
    return V(v.kids, v.inner - {o for o in v.kids if o.endswith("+")})


class Summary:
    def __init__(self):
        self.muts = {}  # origin -> (loc, what, definite)
        self.ret = NIL
        self.stores = {}  # attr -> V
        self.gstores = {}  # module level container -> V of what is put into it

    def state(self):
        return (tuple(sorted((k, v[2]) for k, v in self.muts.items())), self.ret, tuple(sorted(self.stores.items(), key=lambda x: x[0])), tuple(sorted(self.gstores.items(), key=lambda x: x[0])))


class Owner:
    def __init__(self, proj):
        self.proj = proj
        self.sums = {}
        self.byname = {}
        self.funcs = []
        for f in proj.all_funcs():
            self.funcs.append(f)
            self.sums[id(f)] = Summary()
            if f.cls is not None and not f.is_setter():
                self.byname.setdefault(f.name, []).append(f)
        for _ in range(12):
            before = {k: s.state() for k, s in self.sums.items()}
            for f in self.funcs:
                self.sums[id(f)] = Walk(self, f).go()
            if before == {k: s.state() for k, s in self.sums.items()}:
                break

    def summary(self, f):
        return self.sums[id(f)]


class Walk:
    def __init__(self, own, f):
        self.o, self.f, self.s = own, f, Summary()
        self.mod = f.mod
        self.loopvars = set()

    def go(self):
        a = self.f.node.args
        env = {}
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.selfname = ps[0] if self.f.cls is not None and ps and not self.f.is_static() else None
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p != self.selfname:
                env[p] = V({p}, {p + "*"})
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = V((), {x.arg + "*"})
        self.block(self.f.node.body, env)
        return self.s

    # -- recording
    def mutate(self, v, node, what, definite=True, inner=False):
        for o in (v.inner if inner else v.own):
            d = definite and not o.startswith("?")
            o = o.lstrip("?")
            if o.endswith("@list"):
                o = o[:-5]
            old = self.s.muts.get(o)
            if old is None or d and not old[2]:
                self.s.muts[o] = ((self.mod.rel, node.lineno, self.f.qual), what, d)

    # -- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)
        return env

    def join(self, env, *others):
        for k in {k for o in others for k in o} | set(env):
            vs = [o[k] for o in others if k in o]
            v = NIL
            for x in vs:
                v = v | x
            if vs:
                env[k] = v
        return env

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = self.expr(st.value, env)
            for t in st.targets:
                self.assign(t, v, env, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.expr(st.value, env), env, st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.expr(st.value, env)
            t = st.target
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value, env)
                self.mutate(b, st, f"{ast.unparse(t.value)[:40]}[...] is assigned")
                if self.container(t, st) is True:
                    self.mutate(self.expr(t, env), st, f"{ast.unparse(t)[:40]} is modified in place")
            else:
                cur = self.expr(t, env)
                kind = self.container(t, st)
                if kind is not False:
                    self.mutate(cur, st, f"{ast.unparse(t)[:40]} is modified in place", definite=kind is True)
                if isinstance(t, ast.Name):
                    env[t.id] = V(cur.own if kind is not False else (), cur.inner | v.inner)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.expr(t.value, env), st, f"an entry of {ast.unparse(t.value)[:40]} is deleted")
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, ast.Expr):
            self.expr(st.value, env)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.s.ret = self.s.ret | self.expr(st.value, env)
        elif isinstance(st, ast.If):
            self.expr(st.test, env)
            a, b = dict(env), dict(env)
            self.narrow(st.test, a, b)
            self.block(st.body, a)
            self.block(st.orelse, b)
            ta, tb = self.ends(st.body), self.ends(st.orelse)
            outs = [x for x, e in ((a, ta), (b, tb)) if not e] or [a, b]
            env.clear()
            self.join(env, *outs)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.expr(st.iter, env)
            self.loopvars |= {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            for _ in range(2):
                e = dict(env)
                self.assign(st.target, child(it), e)
                self.block(st.body, e)
                self.join(env, dict(env), e)
            self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            for _ in range(2):
                self.expr(st.test, env)
                e = dict(env)
                self.block(st.body, e)
                self.join(env, dict(env), e)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for w in st.items:
                v = self.expr(w.context_expr, env)
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v, env)
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            e0 = dict(env)
            self.block(st.body, env)
            outs = [dict(env)]
            for h in st.handlers:
                e = dict(e0)
                self.join(e, dict(e), dict(env))
                self.block(h.body, e)
                if not self.ends(h.body):
                    outs.append(e)
            self.block(st.orelse, env)
            outs[0] = dict(env)
            env.clear()
            self.join(env, *outs)
            self.block(st.finalbody, env)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e = dict(env)
            a = st.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                e[x.arg] = NIL
            keep = self.s.ret
            self.block(st.body, e)
            inner = self.s.ret
            self.s.ret = keep
            env[st.name] = V((), inner.all())
        elif isinstance(st, ast.Match):
            self.expr(st.subject, env)
            outs = [dict(env)]
            for c in st.cases:
                e = dict(env)
                self.block(c.body, e)
                outs.append(e)
            env.clear()
            self.join(env, *outs)
        elif isinstance(st, (ast.Raise, ast.Assert)):
            for n in ast.iter_child_nodes(st):
                if isinstance(n, ast.expr):
                    self.expr(n, env)

    def ends(self, body):
        return any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for x in body)

    def narrow(self, test, a, b):
        """A name that is None, a string or a number is not a container of the caller."""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            e = a if isinstance(test.ops[0], (ast.Is, ast.Eq)) else b
            e[test.left.id] = NIL
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.narrow(test.operand, b, a)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            ks = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            if all(isinstance(k, ast.Name) and k.id in ("str", "int", "float", "bool", "tuple", "bytes", "type") for k in ks):
                v = a.get(test.args[0].id)
                if v is not None:
                    a[test.args[0].id] = V((), v.inner if any(k.id == "tuple" for k in ks) else ())
            elif all(isinstance(k, ast.Name) and k.id in ("str", "int", "float", "bool", "tuple", "bytes", "type", "list") for k in ks):
                v = a.get(test.args[0].id)
                if v is not None:
                    a[test.args[0].id] = V({o if o.endswith("@list") else o + "@list" for o in v.own}, {o if o.endswith("@list") else o + "@list" for o in v.inner})
            elif any(isinstance(k, ast.Name) and k.id == "dict" for k in ks):
                # no dict: nor is what was derived from it without changing its type
                v = b.get(test.args[0].id)
                if v is not None:
                    m = lambda os: {o + "@list" if o in v.own or o in v.inner else o for o in os}
                    for n, x in list(b.items()):
                        if isinstance(x, V) and (x.own | x.inner) & (v.own | v.inner):
                            b[n] = V(m(x.own), m(x.inner), None, m(x.kids))

    def container(self, t, st):
        """Whether an augmented assignment to t works in place: True, False or None (unknown)."""
        if isinstance(st.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)):
            return True
        if isinstance(st.value, (ast.Tuple, ast.JoinedStr)) or isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
            return None if isinstance(st.value, ast.Tuple) else False
        if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id in ("set", "list", "dict"):
            return True
        if not isinstance(t, ast.Name):
            return None
        a = self.f.node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        ann = {x.arg: x.annotation for x in pos + a.kwonlyargs}.get(t.id)
        if ann is not None:
            s = ast.unparse(ann)
            if any(w in s for w in ("List", "list", "Dict", "dict", "Set", "set", "ndarray", "DataFrame")):
                return True
            if s in ("int", "float", "str", "bool", "complex"):
                return False
        if isinstance(d.get(t.id), ast.Constant) and isinstance(d[t.id].value, (int, float, str)) and d[t.id].value is not None:
            return False
        if self.f.is_jitted():
            return False
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == t.id and isinstance(n.slice, (ast.Slice, ast.Tuple, ast.Compare)):
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == t.id and n.attr in MUT | {"T", "shape", "keys", "values", "items"}:
                return True
        return None

    def assign(self, t, v, env, src=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, V((), v.inner), env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + src.elts):
                vs = [self.expr(s, env) for s in src.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env)
            elif v.elts is not None and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.assign(x, y, env)
            else:
                for x in t.elts:
                    self.assign(x, V(v.inner, v.inner), env)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, env)
            self.mutate(b, t, f"{ast.unparse(t.value)[:40]}[...] is assigned")
            self.grow(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                env["self." + t.attr] = v
                old = self.s.stores.get(t.attr, NIL)
                self.s.stores[t.attr] = old | v
            else:
                b = self.expr(t.value, env)
                self.mutate(b, t, f"attribute {t.attr} of {ast.unparse(t.value)[:40]} is assigned", definite=False)

    def grow(self, node, v, env, contents=False):
        """The object v (or the contents of v) is put into the container node."""
        kids, al = (v.kids, v.inner) if contents else (v.own, v.all())
        k = node.id if isinstance(node, ast.Name) else "self." + node.attr if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == self.selfname else None
        g = self.glob(node, env)
        if g is not None:
            self.s.gstores[g] = self.s.gstores.get(g, NIL) | V(kids, al)
            return
        if k in env:
            env[k] = V(env[k].own, env[k].inner | al, None, env[k].kids | kids)
        if k is not None and k.startswith("self."):
            self.s.stores[k[5:]] = self.s.stores.get(k[5:], NIL) | V((), al)

    # -- expressions
    def expr(self, n, env):
        if n is None or isinstance(n, (ast.Constant, ast.JoinedStr, ast.Compare)):
            for c in ast.iter_child_nodes(n) if n is not None else ():
                if isinstance(c, ast.expr):
                    self.expr(c, env)
            return NIL
        if isinstance(n, ast.Name):
            if n.id not in env:
                g = self.glob(n, env)
                if g is not None:
                    return V({"G:" + g}, {"G:" + g + "+", "G:" + g + "*"}, None, {"G:" + g + "+"})
            return env.get(n.id, NIL)
        if isinstance(n, ast.NamedExpr):
            v = self.expr(n.value, env)
            env[n.target.id] = v
            return v
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.selfname:
                k = "self." + n.attr
                if k in env:
                    return env[k]
                c = self.f.cls
                m = c.find_method(n.attr)
                if m is not None and m.is_property():
                    return self.call_summary([m], n, None, [], {}, [], [], env, True)
                if m is not None:
                    return NIL
                return V({k}, {k + "*"})
            g = self.glob(n, env)
            if g is not None:
                return V({"G:" + g}, {"G:" + g + "+", "G:" + g + "*"}, None, {"G:" + g + "+"})
            b = self.expr(n.value, env)
            return V(b.inner, b.inner)
        if isinstance(n, ast.Subscript):
            b = self.expr(n.value, env)
            self.expr(n.slice, env)
            v = child(b)
            s = n.slice
            if b.elts is not None and isinstance(s, ast.Constant) and isinstance(s.value, int) and -len(b.elts) <= s.value < len(b.elts):
                return b.elts[s.value]
            lit = b.own and all(o.startswith("G:") for o in b.own) or isinstance(s, ast.Constant) or isinstance(s, ast.JoinedStr) or isinstance(s, ast.Name) and s.id in self.loopvars or isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant)
            return v if lit else maybe(v)
        if isinstance(n, ast.Slice):
            for c in (n.lower, n.upper, n.step):
                self.expr(c, env)
            return NIL
        if isinstance(n, (ast.BoolOp,)):
            v = NIL
            for x in n.values:
                v = v | self.expr(x, env)
            return v
        if isinstance(n, ast.IfExp):
            self.expr(n.test, env)
            a, b = dict(env), dict(env)
            self.narrow(n.test, a, b)
            return self.expr(n.body, a) | self.expr(n.orelse, b)
        if isinstance(n, ast.BinOp):
            a, b = self.expr(n.left, env), self.expr(n.right, env)
            return V((), a.inner | b.inner) if isinstance(n.op, (ast.Add, ast.BitOr)) else NIL
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            i, vs, ks = set(), [], set()
            for x in n.elts:
                v = self.expr(x.value if isinstance(x, ast.Starred) else x, env)
                i |= v.inner if isinstance(x, ast.Starred) else v.all()
                ks |= v.kids if isinstance(x, ast.Starred) else v.own
                vs.append(v)
            return V((), i, tuple(vs) if isinstance(n, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.elts) else None, ks)
        if isinstance(n, ast.Dict):
            i, ks = set(), set()
            for k, x in zip(n.keys, n.values):
                v = self.expr(x, env)
                self.expr(k, env)
                i |= v.inner if k is None else v.all()
                ks |= v.kids if k is None else v.own
            return V((), i, None, ks)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                it = self.expr(g.iter, e)
                self.loopvars |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                self.assign(g.target, child(it), e)
                for c in g.ifs:
                    self.expr(c, e)
            if isinstance(n, ast.DictComp):
                self.expr(n.key, e)
                v = self.expr(n.value, e)
            else:
                v = self.expr(n.elt, e)
            return V((), v.all(), None, v.own)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for x in n.args.args + n.args.kwonlyargs:
                e[x.arg] = NIL
            v = self.expr(n.body, e)
            return V((), v.all())
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.expr(n.value, env)
            self.s.ret = self.s.ret | V((), v.all())
            return NIL
        if isinstance(n, ast.Starred):
            return self.expr(n.value, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return NIL

    def call(self, n, env):
        args, stars = [], []
        for x in n.args:
            v = self.expr(x, env)
            (stars if isinstance(x, ast.Starred) else args).append(v)
        kws, dstars = {}, []
        for k in n.keywords:
            v = self.expr(k.value, env)
            if k.arg is None:
                dstars.append(v)
            else:
                kws[k.arg] = v
        if "out" in kws:
            self.mutate(kws["out"], n, "is written as output of a numpy function")
        fn = n.func
        inplace = any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords)
        # method of something
        if isinstance(fn, ast.Attribute):
            recv = fn.value
            if isinstance(recv, ast.Name) and recv.id == self.selfname:
                m = self.f.cls.find_method(fn.attr)
                ms = [m] if m is not None else []
                for c in self.o.proj.all_classes():
                    if c is not self.f.cls and self.f.cls in c.mro() and fn.attr in c.methods:
                        ms.append(c.methods[fn.attr])
                if ms:
                    return self.call_summary(ms, n, None, args, kws, stars, dstars, env, True)
                k = "self." + fn.attr
                if k in env or fn.attr in self.attr_names():
                    return NIL
                return NIL
            if isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == "super":
                m = self.f.cls.find_method(fn.attr, after=self.f.cls) if self.f.cls is not None else None
                if m is not None:
                    return self.call_summary([m], n, None, args, kws, stars, dstars, env, True)
                return NIL
            d = self.f.dotted(fn) if not (isinstance(self.root(fn), ast.Name) and self.root(fn).id in env) else None
            if d is not None and not (isinstance(self.root(fn), ast.Name) and self.root(fn).id == self.selfname):
                r = self.resolve(d)
                if r is not None:
                    return self.call_summary(r, n, None, args, kws, stars, dstars, env, False)
                got = self.known(d, n, args, kws, stars, dstars)
                if got is not None:
                    return got
            b = self.expr(recv, env)
            if inplace:
                self.mutate(b, n, f"{ast.unparse(recv)[:40]}.{fn.attr}(inplace=True)")
            if fn.attr in MUT:
                self.mutate(b, n, f"{ast.unparse(recv)[:40]}.{fn.attr}(...)")
                if fn.attr not in ITEM or fn.attr == "setdefault":
                    for v in args + list(kws.values()) + dstars:
                        self.grow(recv, V((), v.inner, None, v.kids) if fn.attr in ("update", "extend") else V((), v.all(), None, v.own), env, True)
                return child(b) if fn.attr in ITEM else NIL
            if fn.attr in ITEM:
                v = child(b)
                for x in args[1:]:
                    v = v | x
                return v
            if fn.attr in SHALLOW_M:
                return V((), b.inner, None, b.kids)
            if fn.attr in VIEW_M:
                return maybe(b)
            if fn.attr == "keys":
                return NIL
            # package methods of that name
            ms = self.o.byname.get(fn.attr, [])
            if ms and fn.attr not in ("format", "join", "split", "apply", "index", "count"):
                return self.call_summary(ms, n, b, args, kws, stars, dstars, env, False)
            if ms:
                return self.call_summary(ms, n, b, args, kws, stars, dstars, env, False)
            return NIL
        if isinstance(fn, ast.Name) and fn.id not in env:
            d = self.f.dotted(fn)
            if d == fn.id and fn.id in BUILTIN:
                d = "builtins." + d
            r = self.resolve(d) if d else None
            if r is not None:
                return self.call_summary(r, n, None, args, kws, stars, dstars, env, False)
            got = self.known(d or "", n, args, kws, stars, dstars)
            return got if got is not None else NIL
        self.expr(fn, env)
        v = NIL
        if isinstance(fn, ast.Name):
            v = V((), env[fn.id].inner)
        return v

    def glob(self, node, env):
        """Dotted name of a module level mutable container."""
        if not isinstance(node, (ast.Name, ast.Attribute)):
            return None
        r = self.root(node)
        if not isinstance(r, ast.Name) or r.id in env or r.id == self.selfname:
            return None
        d = self.o.proj.canon(self.f.dotted(node))
        if not d or "." not in d:
            return None
        m, _, x = d.rpartition(".")
        m = self.o.proj.modules.get(m)
        return d if m is not None and x in m.consts and any(isinstance(e, (ast.Call, ast.Dict, ast.List, ast.Set)) for e in m.consts[x]) else None

    def attr_names(self):
        return set()

    def root(self, n):
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            n = n.value
        return n

    def resolve(self, d):
        r = self.o.proj.lookup(d)
        if isinstance(r, list):
            return [f for f in r if isinstance(f, Func)] or None
        if isinstance(r, Class):
            i = r.find_method("__init__")
            return [i] if i is not None else []
        return None

    def known(self, d, n, args, kws, stars, dstars):
        if d in OUTFIRST and args:
            self.mutate(args[0], n, f"{d}(...)")
            return NIL
        if d == "builtins.setattr" and args:
            self.mutate(args[0], n, "setattr(...)", definite=False)
            return NIL
        if d in SHALLOW:
            i, ks = set(), set()
            for v in args + stars + dstars:
                i |= v.inner
                ks |= v.kids
            for v in kws.values():
                i |= v.all() if d in ("builtins.dict", "collections.OrderedDict") else v.inner
                ks |= v.own if d in ("builtins.dict", "collections.OrderedDict") else v.kids
            return V((), i, None, ks)
        if d in SAME and args:
            return maybe(args[-1] if d == "typing.cast" else args[0]) if d != "typing.cast" else args[-1]
        if d in ("builtins.getattr", "builtins.next") and args:
            return V(args[0].inner, args[0].inner)
        if d == "functools.partial":
            i = set()
            for v in args + list(kws.values()):
                i |= v.all()
            return V((), i)
        return None

    def call_summary(self, ms, n, recv, args, kws, stars, dstars, env, onself):
        ret = NIL
        for m in ms:
            s = self.o.summary(m)
            a = m.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if m.cls is not None and not m.is_static():
                ps = ps[1:]
            bind = {}
            for p, v in zip(ps, args):
                bind[p] = v
            for k, v in kws.items():
                bind[k] = v
            rest = V((), ())
            for v in stars + dstars:
                rest = rest | V(v.inner, v.inner)
            if stars or dstars:
                for p in ps + [x.arg for x in a.kwonlyargs]:
                    if p not in bind:
                        bind[p] = maybe(rest)
            if a.kwarg is not None:
                i = set(rest.inner)
                for k, v in kws.items():
                    if k not in ps:
                        i |= v.all()
                bind[a.kwarg.arg] = V((), i)
            if a.vararg is not None:
                i = set(rest.inner)
                for v in args[len(ps):]:
                    i |= v.all()
                bind[a.vararg.arg] = V((), i)

            back = []

            def tr(o):
                q = o.startswith("?")
                b = o.lstrip("?")
                tag = "@list" if b.endswith("@list") else ""
                b = b[:-5] if tag else b
                if b.startswith("G:"):
                    return frozenset({o})
                star = b.endswith("*")
                b = b.rstrip("*")
                if b.startswith("self."):
                    if not onself:
                        if back and recv is not None:
                            return frozenset(recv.inner if len(ms) == 1 else ("?" + x.lstrip("?") for x in recv.inner))
                        return frozenset()
                    v = env.get(b)
                    r = (v.inner if star else v.own) if v is not None else frozenset({b + ("*" if star else "")})
                else:
                    v = bind.get(b)
                    if v is None:
                        return frozenset()
                    r = v.inner if star else v.own
                if tag:
                    r = frozenset(x if x.endswith("@list") else x + tag for x in r)
                return frozenset("?" + x.lstrip("?") for x in r) if q else r

            def trv(v):
                return V({y for o in v.own for y in tr(o)}, {y for o in v.inner for y in tr(o)}, tuple(trv(x) for x in v.elts) if v.elts is not None else None,
                         {y for o in v.kids for y in tr(o)})

            for o, (loc, what, d) in s.muts.items():
                v = V(tr(o))
                if v.own:
                    self.mutate(v, n, f"{m.name}(): {what}" if not what.startswith(m.name) else what, definite=d and len(ms) == 1)
            for k, v in s.stores.items():
                if onself:
                    x = V({y for o in v.own for y in tr(o)}, {y for o in v.inner for y in tr(o)})
                    self.s.stores[k] = self.s.stores.get(k, NIL) | x if x.all() else self.s.stores.get(k, NIL)
                    if "self." + k in env and len(ms) == 1 and (x.all() or not v.all()):
                        env["self." + k] = env["self." + k] | x
            for k, v in s.gstores.items():
                x = trv(v)
                if x.all():
                    self.s.gstores[k] = self.s.gstores.get(k, NIL) | x
            back.append(1)
            ret = ret | trv(s.ret)
            if m.name == "__init__" and not onself:
                i = set()
                for v in list(bind.values()):
                    i |= v.all()
                ret = ret | V((), i)
        return ret
