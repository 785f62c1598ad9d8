"""Evaluation in a small generic world: named objects with known attributes, and containers of known length.

The functions analysed treat the elements of these containers uniformly; a world has enough of them (different ones, equal
ones, none) to tell apart the ways such code can go wrong.  What is not decided in the world stays symbolic, and a rule that
meets a symbolic answer records it as undecided.
"""

from .terms import *
from .terms import rewrite
from .vfg import *
from .vfg import Eval, Frame


def head(fn):
    return fn.a[0] if fn.op == "global" else ""


def obj(name):
    """An object that is nothing but itself."""
    return T("object", name)


def plain(x):
    return isinstance(x, Term) and (x.op in ("const", "object") or x.op == "tuple" and all(plain(y) for y in x.a))


def display(t):
    return isinstance(t, Term) and t.op in ("list", "tuple", "set") and not any(x.op == "star" for x in t.a)


def known(t):
    """A dict with known keys or a display of known elements (values may be anything)."""
    if t.op == "dict":
        return all(isinstance(p, tuple) and isinstance(p[0], Term) and plain(p[0]) for p in t.a)
    return display(t) and (t.op != "set" or all(plain(x) for x in t.a))


def mkset(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return T("set", *out)


def elements(t):
    """What iterating over t yields, or None."""
    if t.op == "dict" and known(t):
        return [k for k, _ in t.a]
    if display(t):
        return list(t.a)
    if t.op == "const" and isinstance(t.a[0], str):
        return [C(c) for c in t.a[0]]
    return None


def same_plain(a, b):
    """Equality of two plain values: True / False / None."""
    if a is b:
        return True
    if plain(a) and plain(b):
        if a.op == b.op == "const":
            return a.a[0] == b.a[0]
        if a.op == b.op == "tuple":
            return len(a.a) == len(b.a) and all(same_plain(x, y) for x, y in zip(a.a, b.a))
        return False
    return None


def among(x, ys):
    r = [same_plain(x, y) for y in ys]
    return True if True in r else None if None in r else False


class World(Eval):
    """Evaluator in which operations on known containers and objects are carried out."""

    def __init__(self, *a, methods=None, **k):
        super().__init__(*a, **k)
        self.methods = methods or {}   # (object, name) -> function(world, args, kw) -> term

    # -- folding
    def fold(self, t):
        if not isinstance(t, Term):
            return t
        op, a = t.op, t.a
        if op == "bin":
            return self.fold_bin(t)
        if op == "set":
            return mkset(a) if display(t) and all(plain(x) for x in a) else t
        if op == "cmp":
            return self.fold_cmp(t)
        if op == "setadd" and known(a[0]) and plain(a[1]):
            return mkset(a[0].a + (a[1],))
        if op == "append" and a[0].op == "list" and display(a[0]):
            return T("list", *a[0].a, a[1])
        if op == "insert" and display(a[0]) and a[1].op == "const":
            xs = list(a[0].a)
            xs.insert(a[1].a[0], a[2])
            return T("list", *xs)
        if op == "remove" and known(a[0]) and plain(a[1]) and a[0].op in ("set", "list"):
            xs = list(a[0].a)
            m = among(a[1], xs)
            if m is True:
                xs.remove(next(x for x in xs if same_plain(x, a[1])))
            return t if m is None else T(a[0].op, *xs)
        if op == "dictmerge":
            if a[0].op == "set" and known(a[0]):
                e = elements(a[1])
                return mkset(list(a[0].a) + e) if e is not None and all(plain(x) for x in e) else t
            if a[0].op == "dict" and known(a[0]) and a[1].op == "dict" and known(a[1]):
                r = a[0]
                for k, v in a[1].a:
                    r = self.put(r, k, v)
                return r
        if op == "setitem" and a[0].op == "dict" and known(a[0]) and plain(a[1]):
            return self.put(a[0], a[1], a[2])
        if op == "setitem" and a[0].op == "list" and display(a[0]) and a[1].op == "const" and isinstance(a[1].a[0], int):
            xs = list(a[0].a)
            if -len(xs) <= a[1].a[0] < len(xs):
                xs[a[1].a[0]] = a[2]
                return T("list", *xs)
        if op == "pop" and a[0].op == "dict" and known(a[0]) and plain(a[1]):
            return T("dict", *[(k, v) for k, v in a[0].a if not same_plain(k, a[1])])
        if op == "pop" and a[0].op == "list" and display(a[0]) and a[1].op == "const":
            xs = list(a[0].a)
            if -len(xs) <= a[1].a[0] < len(xs):
                xs.pop(a[1].a[0])
                return T("list", *xs)
        return t

    @staticmethod
    def put(d, k, v):
        out, done = [], False
        for q, w in d.a:
            if same_plain(q, k):
                out.append((q, v))
                done = True
            else:
                out.append((q, w))
        return T("dict", *out) if done else T("dict", *out, (k, v))

    def fold_bin(self, t):
        o, x, y = t.a
        if x.op == "set" and known(x):
            e = elements(y) if y.op in ("set", "dict") else None
            if e is not None and all(plain(z) for z in e):
                if o == "|":
                    return mkset(list(x.a) + e)
                if o == "-":
                    return mkset([z for z in x.a if not among(z, e)])
                if o == "&":
                    return mkset([z for z in x.a if among(z, e)])
                if o == "^":
                    return mkset([z for z in x.a if not among(z, e)] + [z for z in e if not among(z, x.a)])
        if o == "+" and x.op in ("list", "tuple") and y.op == x.op and display(x) and display(y):
            return T(x.op, *x.a, *y.a)
        if o == "|" and x.op == "dict" and y.op == "dict" and known(x) and known(y):
            return self.fold(T("dictmerge", x, y))
        return t

    def fold_cmp(self, t):
        o, x, y = t.a
        if o in ("in", "not in"):
            e = elements(y) if not (y.op == "const") else None
            if e is not None:
                m = among(x, e)
                if m is not None:
                    return C(m == (o == "in"))
        if o in ("==", "!=", "is", "is not"):
            m = same_plain(x, y)
            if m is None and x.op == y.op == "set" and known(x) and known(y):
                m = set(x.a) == set(y.a)
            if m is None and {x.op, y.op} <= {"object", "const", "list", "tuple", "dict", "set", "closure"} and x.op != y.op:
                m = False
            if m is not None and (m is False or o in ("==", "!=") or x is y):
                return C(m == (o in ("==", "is")))
        if o in ("<", "<=") and x.op == y.op == "set" and known(x) and known(y):
            sub = all(among(z, y.a) for z in x.a)
            return C(sub and (o == "<=" or len(set(x.a)) < len(set(y.a))))
        return t

    def truth(self, t):
        """A condition with the truth of known containers decided."""
        if not isinstance(t, Term):
            return t
        if t.op in ("list", "tuple", "dict", "set") and known(t):
            return C(bool(t.a))
        if t.op == "object":
            return TRUE
        if t.op == "const" and not isinstance(t.a[0], bool):
            return C(bool(t.a[0]))
        if t.op == "not":
            return neg(self.truth(t.a[0]))
        return t

    # -- the evaluator
    def expr(self, ex, fr):
        return self.fold(super().expr(ex, fr))

    def cond(self, ex, fr):
        return self.truth(super().cond(ex, fr))

    def e_UnaryOp(self, ex, fr):
        import ast
        if isinstance(ex.op, ast.Not):
            return neg(self.truth(self.expr(ex.operand, fr)))
        return super().e_UnaryOp(ex, fr)

    def assign(self, t, v, fr, node, aug=False):
        return super().assign(t, self.fold(v), fr, node, aug)

    def store_place(self, ex, new, fr, old=None):
        return super().store_place(ex, self.fold(new), fr, old)

    # -- exceptions of known lookups
    SAFE = ("isinstance", "len", "str", "dict", "list", "tuple", "set", "type", "bool", "repr", "callable", "hasattr")

    def s_Try(self, st, fr):
        """A try whose body is known to fail at a lookup, or known not to fail."""
        if st.finalbody:
            return super().s_Try(st, fr)
        state = (len(self.events), self.guard, dict(fr.env), dict(self.heap), self.loops)

        exits = len(fr.exits), len(fr.raises)

        def fall_back():
            del self.events[state[0]:], fr.exits[exits[0]:], fr.raises[exits[1]:]
            self.guard, fr.env, self.heap, self.loops = state[1], dict(state[2]), dict(state[3]), state[4]
            return Eval.s_Try(self, st, fr)
        for b in st.body:
            before = (len(self.events), self.guard, dict(fr.env), dict(self.heap), len(fr.exits), len(fr.raises))
            f = self.block([b], fr)
            new = self.events[before[0]:]
            failed = [e for e in new if e.kind == "getitem" and self.lookup_state(e) is False and e.guard == before[1]]
            if failed:
                e = failed[0]
                if any(x.kind in ("call", "mutate", "setattr", "setitem") for x in self.events[before[0]:self.events.index(e)]):
                    return fall_back()
                err = "KeyError" if e.args[0].op == "dict" else "IndexError"
                h = next((h for h in st.handlers if self.catches(h, err, fr)), None)
                if h is None:
                    return fall_back()
                del self.events[self.events.index(e) + 1:], fr.exits[before[4]:], fr.raises[before[5]:]
                self.guard, fr.env, self.heap = before[1], before[2], before[3]
                types = self.expr_quiet(h.type, fr) if h.type is not None else NONE
                if h.name:
                    fr.env[h.name] = T("exc", types)
                self.emit("handler", fr, h, value=types)
                return self.block(h.body, fr)
            if not self.harmless(b, new):
                return fall_back()
            if not f:
                return f
        return self.block(st.orelse, fr) if st.orelse else True

    @staticmethod
    def lookup_state(e):
        b, i = e.args[0], e.args[1]
        if b.op == "dict" and known(b) and plain(i):
            return among(i, [k for k, _ in b.a])
        if b.op in ("list", "tuple") and display(b) and i.op == "const" and isinstance(i.a[0], int):
            return -len(b.a) <= i.a[0] < len(b.a)
        return None

    def catches(self, h, err, fr):
        if h.type is None:
            return True
        t = self.expr_quiet(h.type, fr)
        ns = {x.a[0].split(".")[-1] for x in (t.a if t.op == "tuple" else (t,)) if x.op == "global"}
        return bool(ns & {err, "LookupError", "Exception", "BaseException"})

    def harmless(self, st, new):
        """The statement cannot raise."""
        import ast
        if not isinstance(st, (ast.Assign, ast.Return, ast.Expr, ast.AnnAssign, ast.Pass)):
            return False
        if any(e.kind == "getitem" and self.lookup_state(e) is not True for e in new):
            return False
        if any(e.kind in ("raise", "mutate", "handler") for e in new):
            return False
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in self.SAFE or isinstance(
                    n.func, ast.Attribute) and n.func.attr in ("get", "keys", "items", "values")):
                return False
            if isinstance(n, (ast.BinOp, ast.Lambda, ast.Await, ast.Yield, ast.Starred)):
                return False
            if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Store):
                return False
        return True

    def finite(self, it, depth=0):
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] in ("items", "keys", "values") and not it.a[1]:
            d = it.a[0].a[0]
            if d.op == "dict" and known(d):
                return [{"keys": k, "values": v, "items": T("tuple", k, v)}[it.a[0].a[1]] for k, v in d.a]
        e = elements(it)
        if e is not None and len(e) <= 24:
            return e
        return super().finite(it, depth)

    def cond_of(self, c):
        return self.truth(self.fold(c))

    def for_over(self, it, st, fr):
        v = self.finite(it)
        if v is not None and not v:
            return self.block(st.orelse, fr) if st.orelse else True
        return super().for_over(it, st, fr)

    def comp(self, kind, ex, fr):
        n, h, g, l = len(self.events), dict(self.heap), self.guard, self.loops
        sub = Frame(fr.func, {}, fr)
        out = self.spin(kind, ex, 0, fr, sub)
        if out is None:
            del self.events[n:]
            self.heap, self.guard, self.loops = h, g, l
            return super().comp(kind, ex, fr)
        if kind == "dict":
            r = T("dict")
            for k, v in out:
                r = self.put(r, k, v) if plain(k) and known(r) else T("dict", *r.a, (k, v))
            return r
        if kind == "set":
            return mkset(out) if all(plain(x) for x in out) else T("set", *out)
        return T("list", *out)

    def spin(self, kind, ex, i, fr, sub):
        if i == len(ex.generators):
            return [(self.expr(ex.key, sub), self.expr(ex.value, sub))] if kind == "dict" else [self.expr(ex.elt, sub)]
        g = ex.generators[i]
        vals = self.finite(self.expr(g.iter, sub if i else fr))
        if vals is None:
            return None
        out = []
        for v in vals:
            self.assign(g.target, v, sub, ex)
            cs = [self.truth(self.expr(c, sub)) for c in g.ifs]
            if any(isc(c, False) for c in cs):
                continue
            if not all(isc(c, True) for c in cs):
                return None
            r = self.spin(kind, ex, i + 1, fr, sub)
            if r is None:
                return None
            out += r
        return out

    def builtin(self, d, args, kw, fr, ex):
        n = d.split(".")[-1] if d.startswith("builtins.") else d
        vs = self.finite(args[0]) if args else None
        if n == "next" and args and not kw and args[0].op == "call" and head(args[0].a[0]) == "builtins.iter" and len(args[0].a[1]) == 1:
            vs = self.finite(args[0].a[1][0])
        if vs is not None and not kw:
            if n in ("list", "tuple") and len(args) == 1:
                return T(n, *vs)
            if n in ("set", "frozenset") and len(args) == 1 and all(plain(x) for x in vs):
                return mkset(vs)
            if n == "len":
                return C(len(vs))
            if n in ("any", "all") and len(args) == 1:
                ts = [self.truth(v) for v in vs]
                if all(t.op == "const" for t in ts):
                    return C((any if n == "any" else all)(t.a[0] for t in ts))
            if n == "sorted" and len(args) == 1 and all(v.op == "const" and isinstance(v.a[0], str) for v in vs):
                return T("list", *sorted(vs, key=lambda v: v.a[0]))
            if n == "dict" and len(args) == 1 and args[0].op == "dict":
                return args[0]
            if n == "dict" and len(args) == 1 and all(v.op == "tuple" and len(v.a) == 2 for v in vs):
                r = T("dict")
                for v in vs:
                    if not plain(v.a[0]):
                        return None
                    r = self.put(r, *v.a)
                return r
            if n == "next" and vs:
                return vs[0]
            if n == "next" and len(args) == 2:
                return args[1]
            if n == "sum" and len(args) == 2 and args[1].op in ("list", "tuple") and all(v.op == args[1].op for v in vs):
                r = args[1]
                for v in vs:
                    r = self.fold(T("bin", "+", r, v))
                return r
        if n in ("filter", "map") and len(args) == 2 and not kw:
            vs = self.finite(args[1])
            if vs is not None:
                if n == "map":
                    return T("list", *[self.fold(self.apply(args[0], [v], [], fr, ex)) for v in vs])
                out = []
                for v in vs:
                    c = self.truth(v if isc(args[0], None) else self.fold(self.apply(args[0], [v], [], fr, ex)))
                    if c.op != "const":
                        return super().builtin(d, args, kw, fr, ex)
                    if c.a[0]:
                        out.append(v)
                return T("list", *out)
        if n == "dict.fromkeys" and args and not kw:
            vs = self.finite(args[0])
            if vs is not None:
                r = T("dict")
                for v in vs:
                    r = self.put(r, v, args[1] if len(args) > 1 else NONE)
                return r
        if n == "set.union" and not kw:
            vs = [self.finite(a) for a in args]
            if None not in vs and all(plain(x) for v in vs for x in v):
                return mkset([x for v in vs for x in v])
        if d in ("itertools.chain", "itertools.chain.from_iterable") and not kw:
            src = args if d == "itertools.chain" else (self.finite(args[0]) if len(args) == 1 else None)
            vs = [self.finite(a) for a in src] if src is not None else [None]
            if None not in vs:
                return T("list", *[x for v in vs for x in v])
        if d in ("copy.copy", "copy.deepcopy") and len(args) == 1 and known(args[0]):
            return args[0]
        return super().builtin(d, args, kw, fr, ex)

    def method_of_value(self, b, name, args, kw, fr, ex):
        m = self.methods.get((b, name))
        if m is not None:
            r = m(self, list(args), list(kw))
            if r is not None:
                self.emit("call", fr, ex, fn=T("attr", b, name), args=tuple(args), kwargs=tuple(kw), term=r)
                return r
        if not kw and b.op == "set" and known(b):
            vs = [self.finite(a) for a in args]
            if None not in vs and all(plain(x) for v in vs for x in v):
                if name in ("union", "copy"):
                    return mkset(list(b.a) + [x for v in vs for x in v])
                if name == "difference":
                    return mkset([x for x in b.a if not any(among(x, v) for v in vs)])
                if name == "intersection":
                    return mkset([x for x in b.a if all(among(x, v) for v in vs)])
                if name == "symmetric_difference" and len(vs) == 1:
                    return self.fold_bin(T("bin", "^", b, mkset(vs[0])))
                if name == "issubset" and len(vs) == 1:
                    return C(all(among(x, vs[0]) for x in b.a))
                if name == "issuperset" and len(vs) == 1:
                    return C(all(among(x, b.a) for x in vs[0]))
                if name == "isdisjoint" and len(vs) == 1:
                    return C(not any(among(x, b.a) for x in vs[0]))
        if not kw and b.op == "dict" and known(b):
            if name in ("keys", "values", "items") and not args:
                vs = [{"keys": k, "values": v, "items": T("tuple", k, v)}[name] for k, v in b.a]
                if name == "keys":
                    return mkset(vs)
                return T("list", *vs)
            if name == "get" and args and plain(args[0]):
                for k, v in b.a:
                    if same_plain(k, args[0]):
                        return v
                return args[1] if len(args) > 1 else NONE
            if name == "copy":
                return b
        if not kw and b.op == "list" and display(b):
            if name == "copy":
                return b
            if name == "index" and len(args) == 1:
                for i, x in enumerate(b.a):
                    s = same_plain(x, args[0])
                    if s:
                        return C(i)
                    if s is None:
                        break
            if name == "count" and len(args) == 1:
                r = [same_plain(x, args[0]) for x in b.a]
                if None not in r:
                    return C(sum(r))
        return super().method_of_value(b, name, args, kw, fr, ex)

    def mutator(self, ex, b, name, args, kw, fr):
        if b.op == "set" and known(b) and not kw and name in (
                "update", "difference_update", "intersection_update", "symmetric_difference_update"):
            vs = [self.finite(a) for a in args]
            if None not in vs and all(plain(x) for v in vs for x in v):
                self.emit("mutate", fr, ex, fn=name, args=(b,) + tuple(args), kwargs=(), term=b)
                r = b
                for v in vs:
                    o = {"update": "|", "difference_update": "-", "intersection_update": "&", "symmetric_difference_update": "^"}[name]
                    r = self.fold_bin(T("bin", o, r, mkset(v)))
                self.store_place(ex.func.value, r, fr, b)
                return NONE
        if b.op == "dict" and known(b) and name == "setdefault" and args and plain(args[0]) and not kw:
            self.emit("mutate", fr, ex, fn=name, args=(b,) + tuple(args), kwargs=(), term=b)
            for k, v in b.a:
                if same_plain(k, args[0]):
                    return v
            d = args[1] if len(args) > 1 else NONE
            self.store_place(ex.func.value, self.put(b, args[0], d), fr, b)
            return d
        if b.op == "dict" and known(b) and name == "pop" and args and plain(args[0]) and not kw:
            self.emit("mutate", fr, ex, fn=name, args=(b,) + tuple(args), kwargs=(), term=b)
            for k, v in b.a:
                if same_plain(k, args[0]):
                    self.store_place(ex.func.value, self.fold(T("pop", b, k)), fr, b)
                    return v
            return args[1] if len(args) > 1 else T("call", T("attr", b, "pop"), tuple(args), ())
        if name == "extend" and len(args) == 1 and b.op == "list" and display(b):
            vs = self.finite(args[0])
            if vs is not None:
                self.emit("mutate", fr, ex, fn=name, args=(b,) + tuple(args), kwargs=(), term=b)
                self.store_place(ex.func.value, T("list", *b.a, *vs), fr, b)
                return NONE
        if name == "clear" and b.op in ("list", "set", "dict"):
            self.emit("mutate", fr, ex, fn=name, args=(b,), kwargs=(), term=b)
            self.store_place(ex.func.value, T(b.op), fr, b)
            return NONE
        return super().mutator(ex, b, name, args, kw, fr)

    def opaque_call(self, fn, args, kw, fr, ex):
        m = self.methods.get(fn)
        if m is not None:
            r = m(self, list(args), list(kw))
            if r is not None:
                self.emit("call", fr, ex, fn=fn, args=tuple(args), kwargs=tuple(kw), term=r)
                return r
        return super().opaque_call(fn, args, kw, fr, ex)


def record(**kw):
    """A dict term with text keys."""
    return T("dict", *[(C(k), v) for k, v in kw.items()])


def texts(*xs):
    return T("list", *[C(x) for x in xs])


def names(t):
    """The texts in a known container, sorted, or None."""
    e = elements(t) if t is not None and t.op in ("list", "tuple", "set", "dict") else None
    if e is None or not all(x.op == "const" and isinstance(x.a[0], str) for x in e):
        return None
    return sorted({x.a[0] for x in e})
