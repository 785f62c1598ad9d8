"""Specialisation of a function to the structure of its arguments (names, numbers of axes, which axis is treated how).

Control flow and containers are followed as in world.py; array values stay symbolic terms over the symbols of the arguments.
Where a decision, an index or a length depends on the shape of an array, the array algebra of tensor.py gives it.  The result is
a term that is compared with the reference, by its values (identity testing) when the forms differ.  Nothing of the package is
executed; what is not modelled stays symbolic and ends as undecided.
"""

import ast

from .help import SELF, canon, isc, opq
from .numer import Unknown
from .tensor import Arr, Tensor, isnum
from .terms import *
from .vfg import G
from .world import World, display


def term(v):
    """A plain value as a term, or None."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return C(v)
    if isinstance(v, (list, tuple)):
        xs = [term(x) for x in v]
        return None if any(x is None for x in xs) else T("list" if isinstance(v, list) else "tuple", *xs)
    if isinstance(v, dict):
        ks, xs = [term(k) for k in v], [term(x) for x in v.values()]
        return None if None in ks or None in xs else T("dict", *zip(ks, xs))
    return None


class Concrete(World):
    ten = None

    def fold(self, t):
        t = super().fold(t)
        if not isinstance(t, Term) or self.ten is None or t.op not in (
                "call", "f", "attr", "item", "cmp", "bin", "un", "phi", "and", "or", "not", "slice_of"):
            return t
        if t.op == "call" and t.a[0] is G("builtins.sorted") and self.at:
            s = self.sort(t)
            if s is not None:
                return s
        if t.op == "item" and display(t.a[0]) and t.a[1].op == "slice":
            xs = list(t.a[0].a)
            b = [self.fold(x) for x in t.a[1].a]
            if all(x.op == "const" for x in b):
                return T(t.a[0].op, *xs[slice(*[x.a[0] for x in b])])
        try:
            v = self.ten.val(canon(t))
        except (Unknown, RecursionError):
            return t
        if isinstance(v, Arr):
            if v.shape == () and isnum(v.d[0]):
                return C(v.d[0])
            return t
        if isnum(v) or v is None or isinstance(v, str):
            return C(v)
        if t.op == "attr" and isinstance(v, tuple) and all(isnum(x) for x in v):
            return T("tuple", *[C(x) for x in v])
        return t

    def sort(self, t):
        vs = self.finite(t.a[1][0])
        kw = dict(t.a[2])
        rev = self.truth(self.fold(kw.get("reverse", FALSE)))
        if vs is None or rev.op != "const":
            return None
        ks = [self.fold(self.apply(kw["key"], [v], [], *self.at)) if "key" in kw and kw["key"] is not NONE else v for v in vs]
        try:
            ks = [self.ten.val(canon(k)) for k in ks]
            order = sorted(range(len(vs)), key=lambda i: ks[i], reverse=rev.a[0])
        except (Unknown, TypeError):
            return None
        return T("list", *[vs[i] for i in order])

    at = None

    def expr(self, ex, fr):
        self.at = (fr, ex)
        return super().expr(ex, fr)

    def truth(self, t):
        t = super().truth(t)
        if isinstance(t, Term) and t.op != "const":
            f = self.fold(t)
            t = super().truth(f) if f.op == "const" else t
        return t

    def finite(self, it, depth=0):
        return super().finite(self.fold(it) if isinstance(it, Term) else it, depth)


MUTATES = {"pop", "append", "extend", "insert", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"}


def mutated_alias(fn):
    """A second name of one object (a loop target, or a name given from a plain name) through which the object is changed."""
    al, mut = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)):
            al |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Tuple, ast.IfExp)):
            vs = n.value.elts if isinstance(n.value, ast.Tuple) else [n.value]
            if any(isinstance(v, (ast.Name, ast.IfExp)) for v in vs):
                al |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                al |= {v.id for v in vs if isinstance(v, ast.Name)}
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            mut.add(n.value.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATES and isinstance(n.func.value, ast.Name):
            mut.add(n.func.value.id)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.value, (ast.List, ast.ListComp)):
            mut.add(n.target.id)
    return sorted(al & mut)


def concrete(proj, cls, name, args, arrays=None, heap=None, opaque=(), jax=False):
    """Run a function on plain values; arrays: parameter (or symbol) -> Arr.  Gives the run, with .ten to evaluate terms."""
    f = proj.method(cls, name) if cls else proj.func(name)
    al = mutated_alias(f.node)
    if al:
        raise Unknown("an object with a second name is changed: " + ", ".join(al))
    e = Concrete(proj, opaque=opq(*opaque) if opaque else None)
    env, given = {}, {}
    for k, v in {**args, **(arrays or {})}.items():
        t = v if isinstance(v, Term) else term(v) if not isinstance(v, Arr) else None
        if t is None:
            t = T("symbol", "value of " + str(k))
            env[t] = v
        if isinstance(k, Term):
            env[k] = v
        else:
            given[k] = t
    for k, v in (heap or {}).items():
        t = v if isinstance(v, Term) else term(v) if not isinstance(v, Arr) else None
        if t is None:
            t = T("symbol", "value of self." + k)
            env[t] = v
        e.heap[(SELF, k)] = t
    e.ten = Tensor(env, jax=jax, proj=proj)
    r = e.run(f, cls=proj.cls(cls) if cls else None, args=given)
    r.func, r.ev, r.ten = f, e, e.ten
    return r
