"""Gated value-flow graph construction (one pass abstract interpretation per function).

Every function is evaluated once over *all* its paths: joins become gated phi nodes, loops become
comprehension / fold / opaque fix-point nodes, calls to project functions are replaced by the
callee's graph (context sensitive, bounded depth).  There is no path enumeration, no solver and no
execution; the result is a hash-consed value-numbering graph and an ordered effect log.
"""

import ast

from .proj import Class, Func, Module, AnalysisBroken
from .terms import (T, Term, C, G, NONE, TRUE, FALSE, conj, disj, neg, phi, cmpt, binop, item, isc, fresh,
                    walk, occurs, subst, contains, cval)

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update", "add", "discard", "setdefault", "sort",
            "reverse", "popitem", "difference_update", "intersection_update", "__setitem__", "fill", "resize",
            "itemset", "put", "appendleft", "popleft"}
KINDS = {"list": ("list", "Sequence", "Iterable"), "dict": ("dict", "Mapping"), "tuple": ("tuple", "Sequence", "Iterable"),
         "set": ("set",), "str": ("str",), "int": ("int", "Number", "Integral"), "float": ("float", "Number"),
         "bool": ("bool", "int", "Number"), "NoneType": ("NoneType",)}
ALLKINDS = {"list", "dict", "tuple", "set", "str", "int", "float", "bool", "NoneType", "Sequence", "Mapping", "Number",
            "Iterable", "Integral", "ndarray", "bytes", "frozenset"}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class Event:
    __slots__ = ("kind", "fn", "args", "kwargs", "value", "guard", "loops", "loc", "stack", "term", "extra")

    def __init__(self, kind, **k):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return f"<{self.kind} {self.fn!r} {self.args!r} {self.value!r} @{self.loc}>"


def updated(b, i, v):
    """Container b after b[i] = v."""
    if b.op == "dict" and i.op == "const" and all(isinstance(x, tuple) and isinstance(x[0], Term) and x[0].op == "const" for x in b.a):
        d = dict(b.a)
        d[i] = v
        return T("dict", *d.items())
    return T("setitem", b, i, v)


class Frame:
    def __init__(self, func, env, parent=None):
        self.func, self.env, self.parent = func, env, parent
        self.mod = func.mod
        self.exits = []  # (guard_extra, term, heap)
        self.raises = []
        self.loopctx = []
        self.globals = set()
        self.nonlocals = set()
        self.base = ()


class Result:
    def __init__(self, ret, exits, events, frame, ev):
        self.ret, self.exits, self.events, self.frame, self.ev = ret, exits, events, frame, ev
        self.heap = ev.heap
        self.env = frame.env

    def calls(self, pred):
        return [e for e in self.events if e.kind == "call" and pred(e.fn)]


class Eval:
    def __init__(self, proj, opaque=None, max_depth=9, inline_init=False, inline_props=True, variants=None,
                 rec=0, kinds=None):
        self.rec = rec
        self.kinds = kinds or {}  # term -> name of its builtin type (the world analysed)
        self.proj = proj
        self.opaque = opaque or (lambda f: False)
        self.max_depth = max_depth
        self.events = []
        self.guard = ()
        self.loops = ()
        self.stack = []
        self.heap = {}
        self.types = {}
        self.closures = {}
        self.inline_props = inline_props
        self.unknowns = []
        self.elemiter = {}
        self.inlined = set()
        self.variants = variants or {}
        self.dead = False
        self.loopinfo = {}

    # ------------------------------------------------------------------ API
    def run(self, func, cls=None, args=None, env=None):
        """Evaluate a function with symbolic parameters (or given ``args`` by name)."""
        fr = Frame(func, {})
        node = func.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        for n in names:
            fr.env[n] = (args or {}).get(n, T("param", n))
        if a.vararg:
            fr.env[a.vararg.arg] = (args or {}).get(a.vararg.arg, T("param", "*" + a.vararg.arg))
        if a.kwarg:
            fr.env[a.kwarg.arg] = (args or {}).get(a.kwarg.arg, T("param", "**" + a.kwarg.arg))
        cls = cls or func.cls
        if cls is not None and names and not func.is_static():
            self.types[fr.env[names[0]]] = cls
        for x in a.args + a.kwonlyargs:
            if x.annotation is not None and fr.env[x.arg] not in self.types:
                c = self.anno_class(x.annotation, func.mod)
                if c is not None:
                    self.types[fr.env[x.arg]] = c
        fr.env.update(env or {})
        self.stack.append(func)
        ret = self.body(fr)
        self.stack.pop()
        return Result(ret, fr.exits, self.events, fr, self)

    def anno_class(self, an, mod):
        if isinstance(an, ast.Constant) and isinstance(an.value, str):
            try:
                an = ast.parse(an.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(an, ast.Subscript) and isinstance(an.value, ast.Name) and an.value.id in ("Optional", "Type"):
            an = an.slice
        d = mod.dotted(an)
        return self.proj.lookup_class(d) if d else None

    # ------------------------------------------------------------- utilities
    def loc(self, fr, node):
        return (fr.mod.rel, getattr(node, "lineno", 0), fr.func.qual)

    def emit(self, kind, fr, node, **k):
        if FALSE in self.guard:
            return None
        e = Event(kind, guard=self.guard, loops=self.loops, loc=self.loc(fr, node),
                  stack=tuple(f.qual for f in self.stack), **k)
        self.events.append(e)
        return e

    def unknown(self, why, fr, node):
        t = T("unknown", why, fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        self.unknowns.append(t)
        return t

    # ---------------------------------------------------------------- bodies
    def body(self, fr):
        node = fr.func.node
        fr.base = self.guard
        if isinstance(node, ast.Lambda):
            t = self.expr(node.body, fr)
            fr.exits.append(((), t, dict(self.heap), self.loc(fr, node)))
            return t
        falls = self.block(node.body, fr)
        if falls:
            fr.exits.append((self.guard[len(fr.base):], NONE, dict(self.heap), self.loc(fr, node)))
        if not fr.exits:
            self.guard = fr.base + (FALSE,)
            return T("noreturn")
        ret, heap = fr.exits[-1][1], fr.exits[-1][2]
        for g, t, h, _ in reversed(fr.exits[:-1]):
            c = conj(g)
            ret = phi(c, t, ret)
            heap = self.merge_heap(c, h, heap)
        self.heap = heap
        # facts on exit
        if len(fr.exits) == 1:
            self.guard = fr.base + tuple(fr.exits[0][0])
        else:
            d = disj(tuple(conj(x[0]) for x in fr.exits))
            self.guard = fr.base + (() if isc(d, True) or self._taut(fr.exits) else (d,))
        return ret

    @staticmethod
    def _taut(exits):
        # g, not g  (the common two-exit case)
        cs = [conj(x[0]) for x in exits]
        return any(isc(c, True) for c in cs) or (len(cs) == 2 and neg(cs[0]) is cs[1])

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for k in {**h1, **h2}:
            a = h1.get(k)
            b = h2.get(k)
            if a is None:
                a = T("attr", *k)
            if b is None:
                b = T("attr", *k)
            out[k] = phi(c, a, b)
        return out

    def merge_env(self, c, e1, e2):
        out = {}
        for k in {**e1, **e2}:
            a, b = e1.get(k), e2.get(k)
            if a is None:
                a = T("undef", k)
            if b is None:
                b = T("undef", k)
            # an undefined variant cannot be observed without NameError
            if a.op == "undef":
                out[k] = b
            elif b.op == "undef":
                out[k] = a
            else:
                out[k] = phi(c, a, b)
        return out

    def block(self, stmts, fr):
        for st in stmts:
            if not self.stmt(st, fr):
                return False
        return True

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.unknown("stmt:" + type(st).__name__, fr, st)
            return True
        r = m(st, fr)
        return True if r is None else r

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, fr)
        if FALSE in self.guard[len(fr.base):]:
            return False

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        tab = {}
        fr.mod.__class__._imp(fr.mod, st, tab) if not (isinstance(st, ast.ImportFrom) and any(
            a.name == "*" for a in st.names)) else None
        for k, v in tab.items():
            fr.env[k] = G(self.canon(v))

    s_ImportFrom = s_Import

    def canon(self, d):
        return self.proj.canon(d)

    def s_Global(self, st, fr):
        fr.globals |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_FunctionDef(self, st, fr):
        f = Func(st.name, f"{fr.func.qual}.<locals>.{st.name}", st, fr.mod)
        u = (fr.func.qual, st.lineno, st.name)
        t = T("closure", *u)
        self.closures[t] = (f, fr)
        fr.env[st.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, fr):
        fr.env[st.name] = T("localclass", fr.func.qual, st.name)

    def s_Return(self, st, fr):
        t = self.expr(st.value, fr) if st.value is not None else NONE
        self.emit("return", fr, st, value=t)
        fr.exits.append((self.guard[len(fr.base):], t, dict(self.heap), self.loc(fr, st)))
        return False

    def s_Raise(self, st, fr):
        t = self.expr(st.exc, fr) if st.exc is not None else NONE
        self.emit("raise", fr, st, value=t)
        fr.raises.append((self.guard[len(fr.base):], t))
        return False

    def s_Assert(self, st, fr):
        c = self.cond(st.test, fr)
        self.emit("assert", fr, st, value=c)
        self.guard += (c,) if c.op != "and" else c.a
        if isc(c, False):
            return False

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b, i = self.expr(t.value, fr), self.index(t.slice, fr)
                self.emit("mutate", fr, st, fn="delitem", args=(b, i), term=b)
                self.store_place(t.value, T("pop", b, i), fr)
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value, fr)
                self.emit("delattr", fr, st, args=(b,), fn=t.attr, term=b)
                self.heap[(b, t.attr)] = T("deleted")

    def s_Assign(self, st, fr):
        v = self.expr(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr, st)
        if FALSE in self.guard[len(fr.base):]:
            return False

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            v = self.expr(st.value, fr)
            self.assign(st.target, v, fr, st)

    def s_AugAssign(self, st, fr):
        import copy
        load = copy.copy(st.target)
        load.ctx = ast.Load()
        old = self.expr(load, fr)
        v = self.expr(st.value, fr)
        op = BIN.get(type(st.op), "?")
        self.emit("augassign", fr, st, fn=op, args=(old, v), term=old)
        new = binop(op, old, v)
        self.assign(st.target, new, fr, st, aug=True)

    def assign(self, t, v, fr, node, aug=False):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.emit("setglobal", fr, node, fn=f"{fr.mod.name}.{t.id}", value=v)
                self.heap[(G(fr.mod.name), t.id)] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in f.env:
                        f.env[t.id] = v
                        return
                    f = f.parent
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    rest = T("starred", v, i, n)
                    if v.op in ("tuple", "list"):
                        rest = T("list", *v.a[i:len(v.a) - (n - 1 - i)])
                    self.assign(e.value, rest, fr, node)
                else:
                    k = i
                    if any(isinstance(x, ast.Starred) for x in t.elts[:i]):
                        k = i - n
                    self.assign(e, item(v, C(k)), fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, fr)
            cls = self.type_of(b)
            if cls is not None and not aug:
                for c in cls.mro():
                    if t.attr in c.setters:
                        self.emit("setprop", fr, node, fn=t.attr, args=(b,), value=v, term=b)
                        self.inline(c.setters[t.attr], [b, v], {}, fr, node)
                        return
                    if t.attr in c.attrs:
                        break
            if not aug:
                self.emit("setattr", fr, node, fn=t.attr, args=(b,), value=v, term=b)
            else:
                self.emit("setattr", fr, node, fn=t.attr, args=(b,), value=v, term=b, extra="aug")
            self.heap[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, fr)
            i = self.index(t.slice, fr)
            self.emit("mutate", fr, node, fn="setitem", args=(b, i), value=v, term=b)
            self.store_place(t.value, updated(b, i, v), fr, b)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, node)

    def store_place(self, ex, new, fr, old=None):
        """Functional update of the container held by place ``ex``."""
        if isinstance(ex, ast.Name):
            if ex.id in fr.env:
                o = fr.env[ex.id]
                fr.env[ex.id] = new
                self._alias(o, new, fr, ex.id)
                return
            f = fr.parent
            while f is not None:
                if ex.id in f.env:
                    f.env[ex.id] = new
                    return
                f = f.parent
            d = fr.mod.resolve_name(ex.id)
            if d:
                self.heap[(G("::"), self.canon(d))] = new
        elif isinstance(ex, ast.Attribute):
            b = self.expr_quiet(ex.value, fr)
            o = self.heap.get((b, ex.attr))
            self.heap[(b, ex.attr)] = new
        elif isinstance(ex, ast.Subscript):
            b = self.expr_quiet(ex.value, fr)
            i = self.index(ex.slice, fr, quiet=True)
            self.store_place(ex.value, updated(b, i, new), fr)

    def _alias(self, old, new, fr, name):
        if old.op == "attr" and old.a[0].op != "global":
            self.heap[(old.a[0], old.a[1])] = new

    def expr_quiet(self, ex, fr):
        n = len(self.events)
        g = self.guard
        t = self.expr(ex, fr)
        del self.events[n:]
        self.guard = g
        return t

    # -- control flow
    def s_If(self, st, fr):
        c = self.cond(st.test, fr)
        if c.op == "const":
            return self.block(st.body if c.a[0] else st.orelse, fr)
        # simple facts already on the path decide the branch
        known = self.decided(c)
        if known is not None:
            return self.block(st.body if known else st.orelse, fr)
        g0, env0, heap0 = self.guard, dict(fr.env), dict(self.heap)
        self.guard = g0 + (c.a if c.op == "and" else (c,))
        f1 = self.block(st.body, fr)
        g1, env1, heap1 = self.guard, fr.env, self.heap
        nc = neg(c)
        fr.env, self.heap = env0, heap0
        self.guard = g0 + (nc.a if nc.op == "and" else (nc,))
        f2 = self.block(st.orelse, fr)
        g2, env2, heap2 = self.guard, fr.env, self.heap
        return self.join(fr, c, g0, (f1, g1, env1, heap1), (f2, g2, env2, heap2))

    def cond_of(self, c):
        return c

    def decided(self, c):
        if c in self.guard:
            return True
        if neg(c) in self.guard:
            return False
        return None

    def join(self, fr, c, g0, A, B):
        f1, g1, env1, heap1 = A
        f2, g2, env2, heap2 = B
        if f1 and f2:
            n1 = len(g0) + (len(c.a) if c.op == "and" else 1)
            nc = neg(c)
            n2 = len(g0) + (len(nc.a) if nc.op == "and" else 1)
            x1, x2 = g1[n1:], g2[n2:]
            self.guard = g0
            if x1 or x2:
                d = disj((conj((c,) + x1), conj((nc,) + x2)))
                if not isc(d, True):
                    self.guard += (d,)
            fr.env = self.merge_env(c, env1, env2)
            self.heap = self.merge_heap(c, heap1, heap2)
            return True
        if f1:
            fr.env, self.heap, self.guard = env1, heap1, g1
            return True
        if f2:
            fr.env, self.heap, self.guard = env2, heap2, g2
            return True
        self.guard = g0
        return False

    def s_With(self, st, fr):
        for it in st.items:
            v = self.expr(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("enter", v), fr, st)
        return self.block(st.body, fr)

    def s_Try(self, st, fr):
        u = fresh()
        g0, env0, heap0 = self.guard, dict(fr.env), dict(self.heap)
        tag = T("tryok", u)
        f1 = self.block(st.body, fr)
        if f1 and st.orelse:
            f1 = self.block(st.orelse, fr)
        g1, env1, heap1 = self.guard, fr.env, self.heap
        cur = (f1, g1, env1, heap1)
        for h in st.handlers:
            types = self.expr_quiet(h.type, Frame(fr.func, dict(env0), fr.parent)) if h.type is not None else NONE
            # the body may have run partially: variables it assigns are unknown mixes
            fr.env = {k: (v if env1.get(k) is v or k not in env1 else T("phi", T("partial", u), env1[k], v))
                      for k, v in env0.items()}
            self.heap = {k: (v if heap1.get(k) is v or k not in heap1 else T("phi", T("partial", u), heap1[k], v))
                         for k, v in heap0.items()}
            c = T("except", u, types)
            self.guard = g0 + (c,)
            if h.name:
                fr.env[h.name] = T("exc", types)
            self.emit("handler", fr, h, value=types)
            f2 = self.block(h.body, fr)
            B = (f2, self.guard, fr.env, self.heap)
            # join: exceptional path is the "then" branch
            fa, ga, ea, ha = cur
            if fa and f2:
                fr.env = self.merge_env(c, B[2], ea)
                self.heap = self.merge_heap(c, B[3], ha)
                self.guard = g0 + tuple(x for x in ga[len(g0):] if x in B[1])
                cur = (True, self.guard, fr.env, self.heap)
            elif f2:
                cur = B
            # else keep cur
        fr.env, self.heap, self.guard = cur[2], cur[3], cur[1]
        falls = cur[0]
        if not falls:
            self.guard = g0
        if st.finalbody:
            f3 = self.block(st.finalbody, fr)
            falls = falls and f3
        return falls

    s_TryStar = s_Try

    # -- loops
    def assigned(self, stmts):
        names, attrs = set(), []
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    b = n.func.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        names.add(b.id)
                    elif isinstance(b, ast.Attribute):
                        attrs.append(b)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        names.add(b.id)
                    elif isinstance(b, ast.Attribute):
                        attrs.append(b)
        return names, attrs

    def bind_iter(self, it, target, fr, node):
        """(canonical iterable, loop id, bound value)."""
        lid = fresh()
        src, val = self.iter_value(it, lid)
        self.elemiter[lid] = src
        return src, lid, val

    def iter_value(self, it, lid):
        """Canonical iterable and the value bound at each iteration."""
        if it.op == "call":
            fn, args, kw = it.a
            name = fn.a[0] if fn.op == "global" else None
            if fn.op == "attr" and not args:
                if fn.a[1] == "items":
                    k = T("elem", lid, fn.a[0])
                    return fn.a[0], T("tuple", k, item(fn.a[0], k))
                if fn.a[1] == "keys":
                    return fn.a[0], T("elem", lid, fn.a[0])
                if fn.a[1] == "values":
                    k = T("elem", lid, fn.a[0])
                    return fn.a[0], item(fn.a[0], k)
            if name == "builtins.list" and len(args) == 1 and not kw:
                return self.iter_value(args[0], lid)
            if name == "builtins.tuple" and len(args) == 1 and not kw:
                return self.iter_value(args[0], lid)
            if name == "builtins.range" and not kw:
                n = args[0] if len(args) == 1 else (args[1] if len(args) == 2 and isc(args[0], 0) else None)
                if n is not None and n.op == "call" and n.a[0] is G("builtins.len") and len(n.a[1]) == 1:
                    return n.a[1][0], T("idx", lid, n.a[1][0])
                if n is not None:
                    return T("range", n), T("idx", lid, T("range", n))
            if name == "builtins.enumerate" and args:
                s, v = self.iter_value(args[0], lid)
                start = args[1] if len(args) > 1 else dict(kw).get("start", C(0))
                i = T("idx", lid, s)
                return s, T("tuple", i if isc(start, 0) else binop("+", i, start), v)
            if name == "builtins.zip" and args and not kw:
                vs = []
                for x in args:
                    s, v = self.iter_value(x, lid)
                    vs.append(v)
                if len(args) == 2 and args[0].op == "call" and args[1].op == "call":
                    a, b = args
                    if a.a[0].op == "attr" and b.a[0].op == "attr" and a.a[0].a[0] is b.a[0].a[0] \
                            and a.a[0].a[1] == "keys" and b.a[0].a[1] == "values":
                        return a.a[0].a[0], T("tuple", *vs)
                src = T("zip", *[self.iter_value(x, lid)[0] for x in args])
                return src, T("tuple", *vs)
            if name == "builtins.reversed" and len(args) == 1:
                r = item(args[0], T("slice", NONE, NONE, C(-1)))
                return r, T("elem", lid, r)
        return it, T("elem", lid, it)

    def s_For(self, st, fr):
        return self.for_over(self.expr(st.iter, fr), st, fr)

    def branches(self, it):
        """(condition, iterable, iterable) of an iterable that is one of two known ones."""
        if it.op == "phi":
            return it.a
        if it.op == "call" and it.a[0].op == "global" and it.a[0].a[0] in ("builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.reversed") and len(
                it.a[1]) == 1 and it.a[1][0].op == "phi" and not it.a[2]:
            c, a, b = it.a[1][0].a
            return c, T("call", it.a[0], (a,), ()), T("call", it.a[0], (b,), ())
        return None

    def known_length(self, it):
        b = self.branches(it)
        if b is not None:
            return self.known_length(b[1]) and self.known_length(b[2])
        return self.finite(it) is not None

    def for_over(self, it, st, fr):
        b = self.branches(it)
        if b is not None and not st.orelse and self.known_length(it):
            c = self.cond_of(b[0])
            known = c.a[0] if c.op == "const" else self.decided(c)
            if known is not None:
                return self.for_over(b[1] if known else b[2], st, fr)
            g0, env0, heap0 = self.guard, dict(fr.env), dict(self.heap)
            self.guard = g0 + (c.a if c.op == "and" else (c,))
            f1 = self.for_over(b[1], st, fr)
            g1, env1, heap1 = self.guard, fr.env, self.heap
            nc = neg(c)
            fr.env, self.heap = env0, heap0
            self.guard = g0 + (nc.a if nc.op == "and" else (nc,))
            f2 = self.for_over(b[2], st, fr)
            g2, env2, heap2 = self.guard, fr.env, self.heap
            return self.join(fr, c, g0, (f1, g1, env1, heap1), (f2, g2, env2, heap2))
        if not st.orelse:
            vals = self.finite(it)
            if vals is not None and not vals and it.op in ("list", "tuple"):
                return True
            if vals and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(st)):
                return self.unroll(st, vals, fr)
            if vals:
                return self.unroll_jumps(st, vals, fr)
        src, lid, val = self.bind_iter(it, st.target, fr, st)
        return self.loop(st, fr, lid, src, lambda: self.assign(st.target, val, fr, st), None)

    def finite(self, it, depth=0):
        """The elements an iterable of known length yields, or None."""
        if it.op in ("tuple", "list"):
            return it.a if len(it.a) <= 12 and not any(x.op == "star" for x in it.a) else None
        d, how = it, "keys"
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] in ("items", "keys", "values") and not it.a[1]:
            d, how = it.a[0].a[0], it.a[0].a[1]
        if d.op == "dict" and 0 < len(d.a) <= 24 and all(
                isinstance(x, tuple) and isinstance(x[0], Term) and x[0].op == "const" for x in d.a):
            return [{"keys": k, "values": v, "items": T("tuple", k, v)}[how] for k, v in d.a]
        if it.op != "call" or it.a[0].op != "global" or not it.a[1] or depth > 3:
            return None
        n = it.a[0].a[0]
        if n == "builtins.enumerate" and len(it.a[1]) + len(it.a[2]) <= 2:
            st = it.a[1][1] if len(it.a[1]) == 2 else dict(it.a[2]).get("start", C(0))
            v = self.finite(it.a[1][0], depth + 1)
            if v is None or st.op != "const" or not isinstance(st.a[0], int):
                return None
            return [T("tuple", C(i), x) for i, x in enumerate(v, st.a[0])]
        if it.a[2]:
            return None
        if n == "builtins.range" and all(x.op == "const" and isinstance(x.a[0], int) for x in it.a[1]):
            r = range(*[x.a[0] for x in it.a[1]])
            return [C(i) for i in r] if len(r) <= 12 else None
        if n in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.reversed") and len(it.a[1]) == 1:
            v = self.finite(it.a[1][0], depth + 1)
            return v if v is None or n != "builtins.reversed" else list(reversed(v))
        if n == "builtins.zip":
            vs = [self.finite(x, depth + 1) for x in it.a[1]]
            if any(v is None for v in vs):
                return None
            return [T("tuple", *xs) for xs in zip(*vs)]
        return None

    def unroll(self, st, vals, fr):
        for v in vals:
            self.assign(st.target, v, fr, st)
            if not self.block(st.body, fr):
                return False
        return True

    def unroll_jumps(self, st, vals, fr):
        """Unrolled loop whose body continues or breaks."""
        g0 = self.guard
        breaks, alive = [], True

        def merge(outs, base):
            self.guard, fr.env, self.heap = base + outs[-1][0], outs[-1][1], outs[-1][2]
            if len(outs) == 1:
                return
            env, heap = outs[-1][1], outs[-1][2]
            for g, e, h in reversed(outs[:-1]):
                env = self.merge_env(conj(g), e, env)
                heap = self.merge_heap(conj(g), h, heap)
            fr.env, self.heap = env, heap
            d = disj(tuple(conj(g) for g, e, h in outs))
            self.guard = base + (() if isc(d, True) else (d,))

        for v in vals:
            gi = self.guard
            ctx = {"conts": [], "breaks": [], "base": len(gi)}
            fr.loopctx.append(ctx)
            self.assign(st.target, v, fr, st)
            falls = self.block(st.body, fr)
            fr.loopctx.pop()
            outs = ctx["conts"] + ([(self.guard[len(gi):], fr.env, self.heap)] if falls else [])
            breaks += [(gi[len(g0):] + g, e, h) for g, e, h in ctx["breaks"]]
            if not outs:
                alive = False
                break
            merge(outs, gi)
        outs = breaks + ([(self.guard[len(g0):], fr.env, self.heap)] if alive else [])
        if not outs:
            self.guard = g0
            return False
        if breaks:
            merge(outs, g0)
        return True

    def s_While(self, st, fr):
        lid = fresh()
        return self.loop(st, fr, lid, T("while", lid), None, st.test)

    def loop(self, st, fr, lid, src, bind, test):
        names, attrs = self.assigned(st.body)
        if isinstance(st, ast.For):
            tn = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        else:
            tn = set()
        g0, heap0 = self.guard, dict(self.heap)
        init = {}
        for n in names - tn:
            if n in fr.env:
                init[n] = fr.env[n]
                fr.env[n] = T("loopvar", lid, n)
        hinit = {}
        for b in attrs:
            try:
                base = self.expr_quiet(b.value, fr)
            except Exception:
                continue
            k = (base, b.attr)
            if k not in hinit:
                hinit[k] = self.heap.get(k, T("attr", *k))
                self.heap[k] = T("loopvar", lid, f"{b.attr}@{id(base) % 9973}")
                self.types.setdefault(self.heap[k], self.type_of(hinit[k]))
        outer_env = dict(fr.env)
        loops0 = self.loops
        self.loops = loops0 + ((lid, src),)
        ctx = {"conts": [], "breaks": []}
        fr.loopctx.append(ctx)
        if test is not None:
            c = self.cond(test, fr)
            self.guard = self.guard + (c,)
        gb = self.guard
        if bind:
            bind()
        falls = self.block(st.body, fr)
        env1, heap1 = fr.env, self.heap
        outs = ([(self.guard[len(gb):], env1, heap1)] if falls else []) + ctx["conts"]
        if outs:
            env1, heap1 = outs[-1][1], outs[-1][2]
            for g, e, h in reversed(outs[:-1]):
                env1 = self.merge_env(conj(g), e, env1)
                heap1 = self.merge_heap(conj(g), h, heap1)
        else:
            env1, heap1 = dict(outer_env), dict(self.heap)
        # body conditions for the fall-through (continue handled through phi)
        fr.loopctx.pop()
        self.loops = loops0
        self.guard = g0
        brk = bool(ctx["breaks"])
        out_env = dict(outer_env)
        if isinstance(st, ast.For) and not brk:
            for n in tn:
                if n in env1:
                    out_env[n] = T("last", lid, env1[n])
        for n in names:
            new = env1.get(n)
            if new is None:
                continue
            if n in init:
                out_env[n] = self.summarise(T("loopvar", lid, n), init[n], new, lid, src, brk, n)
            elif n not in tn:
                out_env[n] = T("last", lid, new)
        fr.env = out_env
        heap = {}
        for k in heap1:
            new = heap1[k]
            if k in hinit:
                lv = T("loopvar", lid, f"{k[1]}@{id(k[0]) % 9973}")
                heap[k] = self.summarise(lv, hinit[k], new, lid, src, brk, k[1])
            elif k in heap0 and heap0[k] is new:
                heap[k] = new
            else:
                old = heap0.get(k)
                heap[k] = T("last", lid, new) if contains(new, lambda x: x.op in ("elem", "idx") and x.a[0] == lid) \
                    else new
        for k in heap0:
            heap.setdefault(k, heap0[k])
        self.heap = heap
        if test is not None and not brk:
            # loop exit condition holds afterwards (only if it mentions no loop variable)
            pass
        if st.orelse:
            return self.block(st.orelse, fr)
        return True

    def s_Continue(self, st, fr):
        if fr.loopctx:
            base = ()
            fr.loopctx[-1]["conts"].append((self._since_loop(fr), fr.env, self.heap))
        return False

    def s_Break(self, st, fr):
        if fr.loopctx:
            fr.loopctx[-1]["breaks"].append((self._since_loop(fr), fr.env, self.heap))
        self.emit("break", fr, st)
        return False

    def _since_loop(self, fr):
        base = fr.loopctx[-1].get("base")
        return self.guard[-8:] if base is None else self.guard[base:]

    def summarise(self, lv, init, new, lid, src, brk, name):
        """Closed form of a loop carried value, else an opaque fix-point node."""
        self.loopinfo[lv] = (init, new, lid)
        if new is lv:
            return init
        if not brk:
            r = self._build(lv, new)
            if r is not None:
                kind, e, conds, extra = r
                if kind == "append":
                    comp = T("comp", "list", e, lid, src, conds)
                    if init.op == "list" and not init.a:
                        return comp
                    return binop("+", init, comp)
                if kind == "extend":
                    return binop("+", init, T("flat", T("comp", "list", e, lid, src, conds)))
                if kind == "dict":
                    comp = T("comp", "dict", T("tuple", extra, e), lid, src, conds)
                    if init.op == "dict" and not init.a:
                        return comp
                    return T("dictmerge", init, comp)
                if kind == "set":
                    comp = T("comp", "set", e, lid, src, conds)
                    if init.op == "set" and not init.a:
                        return comp
                    return binop("|", init, comp)
                if kind == "fold":
                    return T("fold", extra, init, T("comp", "list", e, lid, src, conds))
        return T("loopout", lid, name, init, new)

    def _build(self, lv, new, conds=()):
        free = lambda *ts: not any(occurs(t, lv) for t in ts)
        if new.op == "phi":
            c, a, b = new.a
            if not free(c):
                return None
            if b is lv:
                return self._build(lv, a, conds + (c,))
            if a is lv:
                return self._build(lv, b, conds + (neg(c),))
            # same kind of update in both branches of the same accumulator
            ra, rb = self._build(lv, a), self._build(lv, b)
            if not ra or not rb or ra[0] != rb[0] or ra[3] != rb[3]:
                return None
            pa, pb = conj(ra[2]), conj(rb[2])
            both = disj([conj([c, pa]), conj([neg(c), pb])])
            return (ra[0], phi(c, ra[1], rb[1]), conds if both is TRUE else conds + (both,), ra[3])
        if new.op == "append" and new.a[0] is lv and free(new.a[1]):
            return ("append", new.a[1], conds, None)
        if new.op == "setadd" and new.a[0] is lv and free(new.a[1]):
            return ("set", new.a[1], conds, None)
        if new.op == "setitem" and new.a[0] is lv and free(new.a[1], new.a[2]):
            return ("dict", new.a[2], conds, new.a[1])
        if new.op == "dictmerge" and new.a[0] is lv and free(new.a[1]):
            d = new.a[1]
            if d.op == "dict" and len(d.a) == 1 and isinstance(d.a[0][0], Term):
                return ("dict", d.a[0][1], conds, d.a[0][0])
        if new.op == "bin":
            op, a, b = new.a
            if op == "+" and a is lv and b.op == "list" and len(b.a) == 1 and free(b.a[0]):
                return ("append", b.a[0], conds, None)
            if a is lv and free(b) and op in ("+", "*", "-", "|", "&", "/"):
                return ("fold", b, conds, op)
            if b is lv and free(a) and op in ("+", "*", "|", "&"):
                return ("fold", a, conds, op)
            # (lv + x) + y
            if op in ("+", "-", "*"):
                r = self._build(lv, a)
                if r and r[0] == "fold" and not r[2] and free(b) and op == r[3]:
                    return ("fold", binop(op if op != "-" else "+", r[1], b), conds, op)
        return None

    # ----------------------------------------------------------- expressions
    def cond(self, ex, fr):
        def plain(c):
            if c.op == "const" and isinstance(c.a[0], (int, float, str, bytes, type(None))):
                return C(bool(c.a[0]))
            if c.op in ("and", "or"):
                xs = tuple(plain(x) for x in c.a)
                return c if all(x is y for x, y in zip(xs, c.a)) else (conj if c.op == "and" else disj)(xs)
            return c
        return plain(self.expr(ex, fr))

    def expr(self, ex, fr):
        m = getattr(self, "e_" + type(ex).__name__, None)
        if m is None:
            return self.unknown("expr:" + type(ex).__name__, fr, ex)
        return m(ex, fr)

    def e_Constant(self, ex, fr):
        if isinstance(ex.value, (int, float, str, bytes, bool, type(None), complex)) or ex.value is Ellipsis:
            return C(ex.value)
        return self.unknown("const", fr, ex)

    def e_Name(self, ex, fr):
        return self.name(ex.id, fr, ex)

    def name(self, n, fr, ex):
        f = fr
        while f is not None:
            if n in f.env:
                return f.env[n]
            f = f.parent
        d = fr.mod.resolve_name(n)
        if d is not None:
            d = self.canon(d)
            if (G("::"), d) in self.heap:
                return self.heap[(G("::"), d)]
            h = self.heap.get((G(fr.mod.name), n))
            if h is not None:
                return h
            # literal module constants
            parts = d.rsplit(".", 1)
            m = self.proj.modules.get(parts[0])
            if m is not None and parts[-1] in m.consts and len(m.consts[parts[-1]]) == 1:
                v = m.consts[parts[-1]][0]
                if isinstance(v, ast.Constant) and isinstance(v.value, (int, float, str)) \
                        and not isinstance(v.value, bool):
                    return C(v.value)
            return G(d)
        if n in BUILTINS:
            return G("builtins." + n)
        return T("freevar", n)

    def e_Attribute(self, ex, fr):
        b = self.expr(ex.value, fr)
        return self.attr(b, ex.attr, fr, ex)

    def attr(self, b, name, fr, ex):
        if b.op == "global":
            d = self.canon(f"{b.a[0]}.{name}")
            if (b, name) in self.heap:
                return self.heap[(b, name)]
            c = self.proj.lookup_class(b.a[0])
            if c is not None:
                return T("attr", b, name)
            return G(d)
        h = self.heap.get((b, name))
        if h is not None:
            return h
        cls = self.type_of(b)
        if cls is not None:
            m = cls.find_method(name)
            if m is not None and m.is_property() and self.inline_props and not self.opaque(m) \
                    and len(self.stack) < self.max_depth and m not in self.stack:
                return self.inline(m, [b], {}, fr, ex)
            if m is not None and m.is_property() and not isinstance(ex, tuple):
                self.emit("getprop", fr, ex, fn=T("attr", b, name), args=())
        if b.op == "phi":
            x, y = self.attr(b.a[1], name, fr, ex), self.attr(b.a[2], name, fr, ex)
            if x is y:
                return x
            return phi(b.a[0], x, y)
        return T("attr", b, name)

    def type_of(self, t):
        c = self.types.get(t)
        if c is not None:
            return c
        if t.op == "call":
            if t.a[0].op == "global":
                r = self.proj.lookup(t.a[0].a[0])
                if isinstance(r, Class):
                    return r
                if t.a[0].a[0] in ("copy.deepcopy", "copy.copy") and t.a[1]:
                    return self.type_of(t.a[1][0])
        if t.op == "attr":
            bc = self.type_of(t.a[0])
            if bc is not None:
                oc, an = bc.find_annot(t.a[1])
                if an is not None:
                    return self.anno_class(an, oc.mod)
                return bc.attr_class(t.a[1])
        if t.op == "super":
            return None
        if t.op == "phi":
            a, b = self.type_of(t.a[1]), self.type_of(t.a[2])
            if a is b:
                return a
        return None

    def e_Subscript(self, ex, fr):
        b = self.expr(ex.value, fr)
        i = self.index(ex.slice, fr)
        cls = self.type_of(b)
        if cls is not None:
            m = cls.find_method("__getitem__")
            if m is not None and not self.opaque(m) and len(self.stack) < self.max_depth and m not in self.stack:
                return self.inline(m, [b, i], {}, fr, ex)
        self.emit("getitem", fr, ex, args=(b, i), term=b)
        return item(b, i)

    def index(self, s, fr, quiet=False):
        i = self.index_(s, fr, quiet)
        if i.op == "call" and i.a[0].op == "global" and i.a[0].a[0] in ("builtins.slice", "slice") and 1 <= len(i.a[1]) <= 3 and not i.a[2]:
            a = i.a[1]
            return T("slice", *((NONE, a[0], NONE) if len(a) == 1 else a + (NONE,) * (3 - len(a))))
        return i

    def index_(self, s, fr, quiet=False):
        f = self.expr_quiet if quiet else self.expr
        if isinstance(s, ast.Slice):
            return T("slice", *[(f(x, fr) if x is not None else NONE) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return T("tuple", *[self.index(x, fr, quiet) for x in s.elts])
        return f(s, fr)

    def e_Slice(self, ex, fr):
        return self.index(ex, fr)

    def e_Tuple(self, ex, fr):
        return self._seq("tuple", ex.elts, fr)

    def e_List(self, ex, fr):
        return self._seq("list", ex.elts, fr)

    def e_Set(self, ex, fr):
        return self._seq("set", ex.elts, fr)

    def _seq(self, kind, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.expr(e.value, fr)
                if v.op in ("tuple", "list") and not any(x.op == "star" for x in v.a):
                    out += list(v.a)
                else:
                    out.append(T("star", v))
            else:
                out.append(self.expr(e, fr))
        return T(kind, *out)

    def e_Dict(self, ex, fr):
        out = []
        for k, v in zip(ex.keys, ex.values):
            if k is None:
                d = self.expr(v, fr)
                if d.op == "dict":
                    out += list(d.a)
                else:
                    out.append((None, d))
            else:
                kk = self.expr(k, fr)
                out.append((kk, self.expr(v, fr)))
        return T("dict", *out)

    def e_BinOp(self, ex, fr):
        a = self.expr(ex.left, fr)
        b = self.expr(ex.right, fr)
        return binop(BIN.get(type(ex.op), "?"), a, b)

    def e_UnaryOp(self, ex, fr):
        v = self.expr(ex.operand, fr)
        if isinstance(ex.op, ast.Not):
            return neg(v)
        if isinstance(ex.op, ast.USub):
            if v.op == "const" and isinstance(v.a[0], (int, float)):
                return C(-v.a[0])
            return T("un", "-", v)
        if isinstance(ex.op, ast.UAdd):
            return v
        return T("un", "~", v)

    def e_BoolOp(self, ex, fr):
        ts = []
        g0 = self.guard
        isand = isinstance(ex.op, ast.And)
        for i, v in enumerate(ex.values):
            t = self.expr(v, fr)
            ts.append(t)
            if t.op == "const" and bool(t.a[0]) != isand and i < len(ex.values) - 1:
                break
            if t.op == "const" and i < len(ex.values) - 1:
                ts.pop()  # neither the value nor decisive
                continue
            self.guard = self.guard + ((t if isand else neg(t)),)
        self.guard = g0
        # value semantics: keep or/and terms (used both as value and as condition)
        if isand:
            if isc(ts[-1], False):
                return FALSE
            return conj(tuple(ts))
        return disj(tuple(ts))

    def e_Compare(self, ex, fr):
        left = self.expr(ex.left, fr)
        out = []
        for op, r in zip(ex.ops, ex.comparators):
            right = self.expr(r, fr)
            o = CMP[type(op)]
            rt = right
            if o in ("in", "not in") and rt.op == "call" and rt.a[0].op == "attr" and rt.a[0].a[1] == "keys" \
                    and not rt.a[1]:
                rt = rt.a[0].a[0]
            if o in ("is", "is not", "==", "!=") and (isc(rt, None) and self.defined(left) or isc(left, None) and self.defined(rt)):
                out.append(C(o in ("is not", "!=")))
            else:
                out.append(cmpt(o, left, rt))
            left = right
        return out[0] if len(out) == 1 else conj(tuple(out))

    def defined(self, t):
        """A function or class of the project (never None)."""
        return t.op == "closure" or t.op == "global" and isinstance(self.proj.lookup(t.a[0]), (list, Class))

    def e_IfExp(self, ex, fr):
        c = self.cond(ex.test, fr)
        if c.op == "const":
            return self.expr(ex.body if c.a[0] else ex.orelse, fr)
        g0 = self.guard
        self.guard = g0 + (c,)
        a = self.expr(ex.body, fr)
        self.guard = g0 + (neg(c),)
        b = self.expr(ex.orelse, fr)
        self.guard = g0
        return phi(c, a, b)

    def e_Lambda(self, ex, fr):
        f = Func("<lambda>", f"{fr.func.qual}.<lambda>", ex, fr.mod)
        t = T("closure", fr.func.qual, ex.lineno, f"<lambda>{ex.col_offset}", fresh())
        self.closures[t] = (f, fr)
        return t

    def e_JoinedStr(self, ex, fr):
        parts = []
        for v in ex.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                t = self.expr(v.value, fr)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    t = T("fmt", t, v.conversion, ast.dump(v.format_spec) if v.format_spec else "")
                parts.append(t)
        return fstr(parts)

    def e_FormattedValue(self, ex, fr):
        return self.expr(ex.value, fr)

    def e_Starred(self, ex, fr):
        return T("star", self.expr(ex.value, fr))

    def e_NamedExpr(self, ex, fr):
        v = self.expr(ex.value, fr)
        self.assign(ex.target, v, fr, ex)
        return v

    def e_Await(self, ex, fr):
        return self.expr(ex.value, fr)

    def e_Yield(self, ex, fr):
        v = self.expr(ex.value, fr) if ex.value is not None else NONE
        self.emit("yield", fr, ex, value=v)
        return T("yielded", v)

    e_YieldFrom = e_Yield

    # -- comprehensions
    def e_ListComp(self, ex, fr):
        return self.comp("list", ex, fr)

    def e_SetComp(self, ex, fr):
        return self.comp("set", ex, fr)

    def e_GeneratorExp(self, ex, fr):
        return self.comp("list", ex, fr)

    def e_DictComp(self, ex, fr):
        return self.comp("dict", ex, fr)

    def comp(self, kind, ex, fr):
        sub = Frame(fr.func, {}, fr)
        g0, l0 = self.guard, self.loops
        # finite displays unroll
        if len(ex.generators) == 1 and not ex.generators[0].ifs:
            it = self.expr(ex.generators[0].iter, fr)
            vals = self.finite(it)
            if vals is not None and kind in ("list", "dict"):
                out = []
                for v in vals:
                    self.assign(ex.generators[0].target, v, sub, ex)
                    if kind == "dict":
                        out.append((self.expr(ex.key, sub), self.expr(ex.value, sub)))
                    else:
                        out.append(self.expr(ex.elt, sub))
                return T(kind, *out)
        gens = []
        for i, g in enumerate(ex.generators):
            it = self.expr(g.iter, sub if i else fr)
            src, lid, val = self.bind_iter(it, g.target, sub, ex)
            self.loops = self.loops + ((lid, src),)
            self.assign(g.target, val, sub, ex)
            cs = tuple(self.expr(c, sub) for c in g.ifs)
            self.guard = self.guard + cs
            gens.append((lid, src, cs))
        if kind == "dict":
            e = T("tuple", self.expr(ex.key, sub), self.expr(ex.value, sub))
        else:
            e = self.expr(ex.elt, sub)
        self.guard, self.loops = g0, l0
        for lid, src, cs in reversed(gens):
            last = (lid, src, cs) == gens[-1]
            if not last:
                e = T("comp", "list", e, lid, src, cs)
                kind2 = "flat"
                e = T("flat", e)
            else:
                e = T("comp", kind, e, lid, src, cs)
        return e

    # ----------------------------------------------------------------- calls
    def e_Call(self, ex, fr):
        # super()
        if isinstance(ex.func, ast.Attribute) and isinstance(ex.func.value, ast.Call) and isinstance(
                ex.func.value.func, ast.Name) and ex.func.value.func.id == "super":
            args, kw = self.args(ex, fr)
            owner = fr
            while owner is not None and owner.func.cls is None:
                owner = owner.parent
            cls = owner.func.cls if owner else None
            selft = owner.env.get(owner.func.params[0]) if owner and owner.func.params else None
            rt = self.type_of(selft) if selft is not None else None
            m = (rt or cls).find_method(ex.func.attr, after=cls) if cls is not None else None
            if m is not None and selft is not None:
                return self.call_func(m, [selft] + args, kw, fr, ex, T("attr", T("super", selft), ex.func.attr))
            fn = T("attr", T("super", selft or NONE), ex.func.attr)
            return self.opaque_call(fn, args, kw, fr, ex)
        fn = None
        if isinstance(ex.func, ast.Attribute):
            b = self.expr(ex.func.value, fr)
            # bound method on typed base
            cls = self.type_of(b) if b.op != "global" else None
            if cls is not None and (b, ex.func.attr) not in self.heap:
                m = cls.find_method(ex.func.attr)
                if m is not None and not m.is_property():
                    args, kw = self.args(ex, fr)
                    pre = [] if m.is_static() else ([G(cls.qual)] if m.is_classmethod() else [b])
                    return self.call_func(m, pre + args, kw, fr, ex, T("attr", b, ex.func.attr), bound=b)
            fn = self.attr(b, ex.func.attr, fr, ex.func)
            args, kw = self.args(ex, fr)
            if fn.op == "attr" and b.op in ("item", "slice_of") and b.a[0].op == "attr" and b.a[0].a[1] == "at":
                # jax indexed update: x.at[i].add(v) is a new array
                return T("scatter", ex.func.attr, b.a[0].a[0], b.a[1], args[0] if args else NONE)
            if ex.func.attr in MUTATORS and (fn.op == "attr" and fn.a[0] is b and b.op != "global" or
                                             fn.op == "phi" and b.op == "phi" and self.plain(fn, ex.func.attr)):
                r = self.mutator(ex, b, ex.func.attr, args, kw, fr)
                if r is not None:
                    return r
            elif b.op == "global" and ex.func.attr in MUTATORS and fn.op == "global" and \
                    not self.proj.lookup(fn.a[0]) and b.a[0].split(".")[0] == "appletree":
                r = self.mutator(ex, b, ex.func.attr, args, kw, fr)
                if r is not None:
                    return r
            return self.apply(fn, args, kw, fr, ex)
        fn = self.expr(ex.func, fr)
        args, kw = self.args(ex, fr)
        return self.apply(fn, args, kw, fr, ex)

    def plain(self, fn, name):
        """Every alternative of a method is the method of a plain value."""
        if fn.op == "phi":
            return self.plain(fn.a[1], name) and self.plain(fn.a[2], name)
        return fn.op == "attr" and fn.a[1] == name and fn.a[0].op != "global"

    def args(self, ex, fr):
        args = []
        for a in ex.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, fr)
                if v.op in ("tuple", "list") and not any(x.op == "star" for x in v.a):
                    args += list(v.a)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.expr(a, fr))
        kw = []
        for k in ex.keywords:
            v = self.expr(k.value, fr)
            if k.arg is None:
                if v.op == "dict" and all(isinstance(p[0], Term) and p[0].op == "const" for p in v.a):
                    kw += [(p[0].a[0], p[1]) for p in v.a]
                else:
                    kw.append((None, v))
            else:
                kw.append((k.arg, v))
        return args, kw

    def mutator(self, ex, b, name, args, kw, fr):
        self.emit("mutate", fr, ex, fn=name, args=(b,) + tuple(args), kwargs=tuple(kw), term=b)
        place = ex.func.value
        if name == "append" and len(args) == 1:
            new = T("append", b, args[0]) if b.op != "list" else T("list", *(b.a + (args[0],)))
            self.store_place(place, new, fr, b)
            return NONE
        if name == "add" and len(args) == 1:
            new = T("setadd", b, args[0])
            self.store_place(place, new, fr, b)
            return NONE
        if name == "extend" and len(args) == 1:
            self.store_place(place, binop("+", b, args[0]), fr, b)
            return NONE
        if name == "insert" and len(args) == 2:
            self.store_place(place, T("insert", b, args[0], args[1]), fr, b)
            return NONE
        if name in ("remove", "discard") and len(args) == 1:
            self.store_place(place, T("remove", b, args[0]), fr, b)
            return NONE
        if name == "update":
            if kw and not args:
                d = T("dict", *[(C(k), v) if k else (None, v) for k, v in kw])
                self.store_place(place, T("dictmerge", b, d), fr, b)
                return NONE
            if len(args) == 1 and not kw:
                self.store_place(place, T("dictmerge", b, args[0]), fr, b)
                return NONE
        if name == "pop":
            if args:
                r = item(b, args[0]) if len(args) == 1 else T("call", T("attr", b, "get"), tuple(args), ())
                self.store_place(place, T("pop", b, args[0]), fr, b)
            else:
                r = item(b, C(-1))
                self.store_place(place, T("pop", b, C(-1)), fr, b)
            return r
        if name == "clear":
            self.store_place(place, T("cleared"), fr, b)
            return NONE
        if name in ("sort", "reverse"):
            new = T("call", G("builtins.sorted"), (b,), tuple(kw)) if name == "sort" else item(
                b, T("slice", NONE, NONE, C(-1)))
            self.store_place(place, new, fr, b)
            return NONE
        if name == "setdefault" and args:
            d = args[1] if len(args) > 1 else NONE
            r = T("call", T("attr", b, "get"), (args[0], d), ())
            self.store_place(place, T("setitem", b, args[0], r), fr, b)
            return r
        new = T("mutated", b, name, tuple(args))
        self.store_place(place, new, fr, b)
        return T("call", T("attr", b, name), tuple(args), tuple(kw))

    def apply(self, fn, args, kw, fr, ex):
        if fn.op == "closure":
            f, pf = self.closures[fn]
            return self.call_func(f, args, kw, fr, ex, fn, parent=pf)
        if fn.op == "partial":
            return self.apply(fn.a[0], list(fn.a[1]) + args, list(fn.a[2]) + kw, fr, ex)
        if fn.op == "phi":
            g0, h0 = self.guard, dict(self.heap)
            self.guard = g0 + (fn.a[0],)
            a = self.apply(fn.a[1], args, kw, fr, ex)
            h1 = self.heap
            self.heap = h0
            self.guard = g0 + (neg(fn.a[0]),)
            b = self.apply(fn.a[2], args, kw, fr, ex)
            self.heap = self.merge_heap(fn.a[0], h1, self.heap)
            self.guard = g0
            return phi(fn.a[0], a, b)
        if fn.op == "global":
            d = fn.a[0]
            if d in ("functools.partial",) and args:
                return T("partial", args[0], tuple(args[1:]), tuple(kw))
            r = self.proj.lookup(d)
            if isinstance(r, list) and r:
                if len(r) == 1 or d in self.variants:
                    f = r[0] if len(r) == 1 else r[self.variants[d]]
                    return self.call_func(f, args, kw, fr, ex, fn)
                return self.opaque_call(fn, args, kw, fr, ex)
            if isinstance(r, Class):
                return self.construct(r, fn, args, kw, fr, ex)
            b = self.builtin(d, args, kw, fr, ex)
            if b is not None:
                return b
        if fn.op == "attr" and fn.a[0].op == "global":
            # Class.method(...) (static / unbound)
            c = self.proj.lookup_class(fn.a[0].a[0])
            if c is not None:
                m = c.find_method(fn.a[1])
                if m is not None and not m.is_property():
                    pre = [fn.a[0]] if m.is_classmethod() else []
                    return self.call_func(m, pre + args, kw, fr, ex, fn)
        if fn.op == "attr" and fn.a[0].op != "global":
            # a bound method that was given a name
            cls = self.type_of(fn.a[0]) if fn not in self.heap and (fn.a[0], fn.a[1]) not in self.heap else None
            m = cls.find_method(fn.a[1]) if cls is not None else None
            if m is not None and not m.is_property():
                pre = [] if m.is_static() else ([G(cls.qual)] if m.is_classmethod() else [fn.a[0]])
                return self.call_func(m, pre + args, kw, fr, ex, fn, bound=fn.a[0])
        # container/str methods of known values
        if fn.op == "attr":
            r = self.method_of_value(fn.a[0], fn.a[1], args, kw, fr, ex)
            if r is not None:
                return r
        return self.opaque_call(fn, args, kw, fr, ex)

    def construct(self, cls, fn, args, kw, fr, ex):
        return self.opaque_call(fn, args, kw, fr, ex)

    def kind_of(self, t):
        if t in self.kinds:
            return self.kinds[t]
        if t.op in ("list", "dict", "tuple", "set"):
            return t.op
        if t.op == "const":
            return {bool: "bool", int: "int", float: "float", str: "str", type(None): "NoneType"}.get(type(t.a[0]))
        if t.op in ("fstr",):
            return "str"
        if t.op == "comp" and t.a[0] in ("list", "dict", "set"):
            return t.a[0]
        if t.op == "call" and t.a[0].op == "global":
            return {"builtins.list": "list", "builtins.sorted": "list", "builtins.dict": "dict", "builtins.set": "set",
                    "builtins.tuple": "tuple", "builtins.str": "str", "builtins.int": "int", "builtins.float": "float",
                    "builtins.len": "int"}.get(t.a[0].a[0])
        return None

    def builtin(self, d, args, kw, fr, ex):
        if d == "builtins.dict":
            if not args and all(k for k, _ in kw):
                return T("dict", *[(C(k), v) for k, v in kw])
            if len(args) == 1 and not kw:
                a = args[0]
                if a.op == "call" and a.a[0] is G("builtins.zip") and len(a.a[1]) == 2:
                    return self.zipdict(a.a[1][0], a.a[1][1])
                if a.op == "comp" and a.a[1].op == "tuple":
                    return T("comp", "dict", *a.a[1:])
        if d == "builtins.list" and not kw:
            if not args:
                return T("list")
            a = args[0]
            if a.op in ("list", "tuple"):
                return T("list", *a.a)
            if a.op == "comp" and a.a[0] == "list":
                return a
        if d == "builtins.tuple" and not kw:
            if not args:
                return T("tuple")
            a = args[0]
            if a.op in ("list", "tuple"):
                return T("tuple", *a.a)
        if d == "builtins.set" and not kw:
            if not args:
                return T("set")
            if args[0].op in ("list", "tuple", "set"):
                return T("set", *args[0].a)
            if args[0].op == "comp" and args[0].a[0] == "list":
                return T("comp", "set", *args[0].a[1:])
        if d == "builtins.len" and len(args) == 1:
            if args[0].op in ("list", "tuple", "dict") and not any(
                    isinstance(x, Term) and x.op == "star" for x in args[0].a):
                return C(len(args[0].a))
        if d in ("builtins.any", "builtins.all") and len(args) == 1 and args[0].op in ("list", "tuple") and all(
                isinstance(x, Term) and x.op == "const" for x in args[0].a):
            return C((any if d.endswith("any") else all)(x.a[0] for x in args[0].a))
        if d == "builtins.getattr" and len(args) >= 2 and args[1].op == "const" and isinstance(args[1].a[0], str):
            self.emit("call", fr, ex, fn=G(d), args=tuple(args), kwargs=tuple(kw))
            t = self.attr(args[0], args[1].a[0], fr, ex)
            if len(args) == 3:
                return T("call", G("builtins.getattr"), tuple(args), ())
            return t
        if d == "builtins.setattr" and len(args) == 3:
            nm = args[1].a[0] if args[1].op == "const" else args[1]
            self.emit("setattr", fr, ex, fn=nm, args=(args[0],), value=args[2], term=args[0])
            if isinstance(nm, str):
                self.heap[(args[0], nm)] = args[2]
            return NONE
        if d == "builtins.isinstance" and len(args) == 2:
            k = self.kind_of(args[0])
            ts = args[1].a if args[1].op == "tuple" else (args[1],)
            if k and all(t.op == "global" for t in ts):
                names = [t.a[0].split(".")[-1] for t in ts]
                if any(n in KINDS.get(k, (k,)) for n in names):
                    return TRUE
                if all(n in ALLKINDS or self.proj.lookup_class(t.a[0]) for n, t in zip(names, ts)):
                    return FALSE
        if d == "builtins.type" and len(args) == 1:
            k = self.kind_of(args[0])
            if k in ALLKINDS:
                return G("builtins." + k)
        if d == "builtins.map" and len(args) == 2 and args[0].op in ("closure",):
            lid = fresh()
            src, val = self.iter_value(args[1], lid)
            l0 = self.loops
            self.loops = l0 + ((lid, src),)
            e = self.apply(args[0], [val], [], fr, ex)
            self.loops = l0
            return T("comp", "list", e, lid, src, ())
        if d in ("jax.jit", "jax.named_call") and args:
            return args[0]
        if d == "builtins.iter" and len(args) == 1:
            return args[0]
        if d.startswith("operator.") and len(args) == 2:
            o = {"add": "+", "iadd": "+", "sub": "-", "isub": "-", "mul": "*", "imul": "*", "truediv": "/",
                 "pow": "**", "or_": "|", "ior": "|", "and_": "&", "iand": "&"}.get(d.split(".")[1])
            if o:
                return binop(o, args[0], args[1])
        if d == "functools.reduce" and len(args) in (2, 3) and args[0].op == "closure" or (
                d == "functools.reduce" and len(args) in (2, 3) and args[0].op == "global"):
            lid = fresh()
            src, val = self.iter_value(args[1], lid)
            lv = T("loopvar", lid, "acc")
            l0 = self.loops
            self.loops = l0 + ((lid, src),)
            new = self.apply(args[0], [lv, val], [], fr, ex)
            self.loops = l0
            if len(args) == 3:
                return self.summarise(lv, args[2], new, lid, src, False, "acc")
        return None

    def zipdict(self, a, b):
        # dict(zip(d.keys(), d.values())) and dict(zip(X.keys(), [f(v) for v in X.values()]))
        lid = fresh()
        sa, va = self.iter_value(a, lid)
        if b.op == "comp" and not b.a[4]:
            _, e, l2, src2, _ = b.a
            if src2 is sa:
                return T("comp", "dict", T("tuple", subst(va, {T("elem", lid, sa): T("elem", l2, sa)}), e), l2, sa, ())
        sb, vb = self.iter_value(b, lid)
        if a.op in ("tuple", "list") and b.op in ("tuple", "list"):
            return T("dict", *zip(a.a, b.a))
        return T("comp", "dict", T("tuple", va, vb), lid, sa if sa is sb else T("zip", sa, sb), ())

    def method_of_value(self, b, name, args, kw, fr, ex):
        if name == "join" and len(args) == 1 and b.op == "const" and isinstance(b.a[0], str):
            a = args[0]
            if a.op in ("list", "tuple"):
                parts = []
                for i, x in enumerate(a.a):
                    if i:
                        parts.append(b)
                    parts.append(T("join", b, x.a[0]) if x.op == "star" else x)
                return fstr(parts)
            return T("join", b, a)
        if name == "format" and b.op == "const" and isinstance(b.a[0], str) and not kw:
            import re
            segs = re.split(r"\{(\d*)\}", b.a[0])
            if len(segs) % 2 == 1 and "{" not in "".join(segs[::2]):
                parts, n = [], 0
                for i, s in enumerate(segs):
                    if i % 2 == 0:
                        parts.append(C(s))
                    else:
                        k = int(s) if s else n
                        n += 1
                        if k >= len(args):
                            return None
                        parts.append(args[k])
                return fstr(parts)
        if name == "get" and b.op == "dict" and args and args[0].op == "const":
            r = item(b, args[0])
            if r.op != "item":
                return r
            if all(isinstance(k, Term) and k.op == "const" for k, _ in b.a):
                return args[1] if len(args) > 1 else NONE
        if name == "copy" and not args and b.op in ("list", "dict", "set"):
            return b
        if name in ("index", "count") and b.op in ("list", "tuple") and len(args) == 1 and not kw and all(
                isinstance(x, Term) and x.op == "const" for x in list(b.a) + list(args)):
            xs = [x.a[0] for x in b.a]
            if name == "count":
                return C(xs.count(args[0].a[0]))
            if args[0].a[0] in xs:
                return C(xs.index(args[0].a[0]))
        if b.op == "const" and isinstance(b.a[0], str) and not kw and name in (
                "startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "count", "find") \
                and all(x.op == "const" and isinstance(x.a[0], str) for x in args):
            try:
                return C(getattr(b.a[0], name)(*[x.a[0] for x in args]))
            except (TypeError, ValueError):
                return None
        if b.op == "const" and isinstance(b.a[0], str) and not kw and name in ("split", "rsplit", "partition", "rpartition") \
                and all(x.op == "const" for x in args):
            try:
                r = getattr(b.a[0], name)(*[x.a[0] for x in args])
                return T("list" if isinstance(r, list) else "tuple", *[C(x) for x in r])
            except (TypeError, ValueError):
                return None
        return None

    def opaque_call(self, fn, args, kw, fr, ex):
        h = getattr(self, "hook", None)
        if h is not None:
            r = h(self, fn, args, kw, fr, ex)
            if r is not None:
                return r
        t = T("call", fn, tuple(args), tuple(sorted(kw, key=lambda p: (p[0] is None, p[0] or ""))))
        self.emit("call", fr, ex, fn=fn, args=tuple(args), kwargs=tuple(kw), term=t)
        return t

    def call_func(self, f, args, kw, fr, ex, fn, bound=None, parent=None):
        if self.opaque(f) or len(self.stack) >= self.max_depth or sum(s is f or s.node is f.node for s in self.stack) > self.rec:
            if fn.op == "attr" and bound is not None:
                args = args[1:] if not (f.is_static()) else args
            # normalise keyword passing for project functions: positional by signature
            args, kw = self.normal_args(f, args, kw, bound is not None and not f.is_static())
            r = self.opaque_call(fn, args, kw, fr, ex)
            return r
        return self.inline(f, args, kw, fr, ex, parent)

    def normal_args(self, f, args, kw, skip_self):
        if isinstance(f.node, ast.Lambda) or any(a.op == "star" for a in args) or any(k is None for k, _ in kw):
            return args, kw
        names = f.params[1:] if skip_self else f.params
        d = dict(kw)
        out = list(args)
        for n in names[len(out):]:
            if n in d:
                out.append(d.pop(n))
            else:
                break
        return out, [(k, v) for k, v in kw if k in d]

    def inline(self, f, args, kw, fr, ex, parent=None):
        nf = Frame(f, {}, parent)
        self.inlined.add(f.qual)
        if not self.bind(f, nf, list(args), list(kw.items()) if isinstance(kw, dict) else list(kw), ex):
            self.unknown("bind", fr, ex)
        if f.cls is not None and f.params and nf.env.get(f.params[0]) is not None and not f.is_static() \
                and not f.is_classmethod():
            s = nf.env[f.params[0]]
            if self.type_of(s) is None:
                self.types[s] = f.cls
        for x in f.node.args.args:
            if getattr(x, "annotation", None) is not None:
                t = nf.env.get(x.arg)
                if t is not None and self.type_of(t) is None and t.op in ("param", "attr", "item", "elem"):
                    c = self.anno_class(x.annotation, f.mod)
                    if c is not None:
                        self.types[t] = c
        self.stack.append(f)
        g0 = self.guard
        r = self.body(nf)
        self.stack.pop()
        return r

    def bind(self, f, nf, args, kw, ex):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kwdefaults = {n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None}
        ok = True
        env = nf.env
        kwd = {k: v for k, v in kw if k is not None}
        dstars = [v for k, v in kw if k is None]
        pos = []
        for i, x in enumerate(args):
            if x.op == "star":
                rest = [n for n in names[len(pos):] if n not in kwd]
                if a.vararg:
                    for n in rest:
                        pos.append(item(x.a[0], C(len(pos) - i)))
                    env[a.vararg.arg] = T("slice_of", x.a[0], T("slice", C(len(rest)), NONE, NONE)) if rest else x.a[0]
                else:
                    for j, n in enumerate(rest):
                        if n in defaults and False:
                            break
                        pos.append(item(x.a[0], C(j)))
                break
            pos.append(x)
        for n, v in zip(names, pos):
            env[n] = v
        if len(pos) > len(names):
            if a.vararg:
                env[a.vararg.arg] = T("tuple", *pos[len(names):])
            else:
                ok = False
        elif a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = T("tuple")
        extra = {}
        for k, v in kwd.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        for n in names + kwonly:
            if n in env:
                continue
            d = defaults.get(n) or kwdefaults.get(n)
            dt = None
            if d is not None:
                df = Frame(Func("<default>", f.qual, f.node, f.mod), {}, nf.parent)
                dt = self.expr_quiet(d, df)
            if dstars:
                if dt is not None:
                    env[n] = T("call", T("attr", dstars[0], "get"), (C(n), dt), ())
                else:
                    env[n] = item(dstars[0], C(n))
            elif dt is not None:
                env[n] = dt
            else:
                env[n] = T("missing", n)
                ok = False
        if a.kwarg:
            ps = [(C(k), v) for k, v in extra.items()] + [(None, d) for d in dstars]
            if not extra and len(dstars) == 1:
                env[a.kwarg.arg] = dstars[0]
            else:
                env[a.kwarg.arg] = T("dict", *ps)
        elif extra:
            ok = False
        return ok


def fstr(parts):
    out = []
    for p in parts:
        for q in (p.a if p.op == "fstr" else (p,)):
            if q.op == "const":
                q = C(str(q.a[0]))
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "const":
                    out[-1] = C(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return T("fstr", *out)
