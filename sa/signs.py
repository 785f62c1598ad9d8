"""Abstract interpretation of elementwise/reduction arithmetic over the sign classes of one array.

Classes: ninf neg zero pos inf nan, and fin (some finite number).  A *world* is the set of classes present among the
bins.  Values are (set of classes, exact): exact means every listed outcome is attained by some concrete array."""

from itertools import product

from .algebra import canon, fname
from .terms import T, Term, C, isc, subst, walk

CONST = {"neg": (-float("inf"), 0.0), "pos": (0.0, float("inf"))}
UNKNOWN = (frozenset(["ninf", "neg", "zero", "pos", "inf", "nan"]), False)
BOOL = (frozenset([True, False]), False)
FINITE = {"neg", "zero", "pos", "fin"}


def k_of(v):
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "ninf"
    return "zero" if v == 0 else "pos" if v > 0 else "neg"


def add1(a, b):
    if "nan" in (a, b):
        return {"nan"}, True
    if a in ("inf", "ninf") or b in ("inf", "ninf"):
        if {a, b} == {"inf", "ninf"}:
            return {"nan"}, True
        return {a if a in ("inf", "ninf") else b}, True
    if a == "zero":
        return {b}, True
    if b == "zero":
        return {a}, True
    if a == b and a != "fin":
        return {a}, True
    return {"fin"}, True


def mul1(a, b):
    if "nan" in (a, b):
        return {"nan"}, True
    infs = ("inf", "ninf")
    if a in infs or b in infs:
        if "zero" in (a, b):
            return {"nan"}, True
        if "fin" in (a, b):
            return {"inf", "ninf", "nan"}, False
        s = (a in ("ninf", "neg")) != (b in ("ninf", "neg"))
        return {"ninf" if s else "inf"}, True
    if "zero" in (a, b):
        return {"zero"}, True
    if "fin" in (a, b):
        return {"fin"}, True
    return {"pos" if a == b else "neg"}, True


NEG = {"ninf": "inf", "inf": "ninf", "neg": "pos", "pos": "neg"}
LOG = {"ninf": "nan", "neg": "nan", "zero": "ninf", "pos": "fin", "inf": "inf", "nan": "nan"}
EXP = {"ninf": "zero", "neg": "pos", "zero": "pos", "pos": "pos", "inf": "inf", "nan": "nan", "fin": "pos"}
ABS = {"ninf": "inf", "neg": "pos", "zero": "zero", "pos": "pos", "inf": "inf", "nan": "nan"}


def rng(k, term=None):
    if k == "neg":
        return (-1e308, -5e-324)
    if k == "pos":
        return (5e-324, 1e308)
    if k == "fin":
        return (-1e308, 1e308)
    return {"zero": (0, 0), "inf": (float("inf"),) * 2, "ninf": (float("-inf"),) * 2}.get(k)


def cmp1(op, a, b):
    """a, b: ranges or None (nan)"""
    if a is None or b is None:
        return {op == "!="}
    (al, ah), (bl, bh) = a, b
    out = set()
    if op in (">", ">="):
        op, al, ah, bl, bh = {">": "<", ">=": "<="}[op], bl, bh, al, ah
    if op == "<":
        if al < bh:
            out.add(True)
        if ah >= bl:
            out.add(False)
    elif op == "<=":
        if al <= bh:
            out.add(True)
        if ah > bl:
            out.add(False)
    else:
        if al <= bh and bl <= ah:
            out.add(op == "==")
        if not (al == ah == bl == bh):
            out.add(op != "==")
    return out


class Signs:
    def __init__(self, leaves, present):
        """leaves: {term: set of classes} of independent elementwise arrays; present: (term, classes present)"""
        self.leaves, (self.M, self.present) = leaves, present

    # -- elementwise -------------------------------------------------------
    def el(self, t, env):
        if t in env:
            return {env[t]}, True
        if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            return {k_of(t.a[0])}, True
        if t.op == "global":
            n = t.a[0].split(".")[-1]
            if n in ("inf", "nan"):
                return {n}, True
            if n in ("pi", "e"):
                return {"pos"}, True
        if t.op == "bin":
            o = t.a[0]
            if o in ("+", "-", "*", "/"):
                A, ea = self.el(t.a[1], env)
                B, eb = self.el(t.a[2], env)
                out, ex = set(), ea and eb
                for a, b in product(A, B):
                    if o == "-":
                        b = NEG.get(b, b)
                    if o == "/":
                        if b == "zero":
                            if a == "zero" or a == "nan":
                                out.add("nan")
                            else:
                                out |= {"inf", "ninf"}
                                ex = False
                            continue
                        b = {"inf": "zero", "ninf": "zero"}.get(b, b) if a not in ("inf", "ninf") else (
                            "nan" if b in ("inf", "ninf") else b)
                        if b == "fin":
                            ex = False
                    r, e = (add1 if o in "+-" else mul1)(a, b)
                    out |= r
                    ex = ex and e
                return out, ex
        if t.op == "f":
            n, args = t.a[0], t.a[1]
            if n in ("log", "log10", "log2", "exp", "abs"):
                A, e = self.el(args[0], env)
                tab = {"exp": EXP, "abs": ABS}.get(n, LOG)
                if any(a not in tab for a in A):
                    return set(UNKNOWN[0]), False
                return {tab[a] for a in A}, e
            if n == "where" and len(args) == 3:
                c, e0 = self.pred(args[0], env)
                A, ea = self.el(args[1], env)
                B, eb = self.el(args[2], env)
                return (A if True in c else set()) | (B if False in c else set()), e0 and ea and eb
            if n == "nan_to_num" and not t.a[2] and len(args) == 1:
                A, e = self.el(args[0], env)
                return {{"nan": "zero", "inf": "pos", "ninf": "neg"}.get(a, a) for a in A}, e
            if n in ("clip", "maximum", "minimum"):
                lo = args[1] if n == "clip" else None
                A, e = self.el(args[0], env)
                bs = [(x, m) for x, m in ((args[1], "max" if n != "minimum" else "min"),
                                          *(((args[2], "min"),) if n == "clip" and len(args) > 2 else ())) if not isc(x, None)]
                for b, m in bs:
                    B, eb = self.el(b, env)
                    e = e and eb
                    o2 = set()
                    for a, b1 in product(A, B):
                        if "nan" in (a, b1):
                            o2.add("nan")
                            continue
                        rank = ["ninf", "neg", "zero", "pos", "inf"]
                        if a not in rank or b1 not in rank:
                            o2 |= {"neg", "zero", "pos"}
                            e = False
                            continue
                        o2.add((max if m == "max" else min)((a, b1), key=rank.index))
                    A = o2
                return A, e
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0].endswith("xlogy") and len(t.a[1]) == 2:
            x, y = t.a[1]
            X, ex = self.el(x, env)
            Y, ey = self.el(y, env)
            out = set()
            for a, b in product(X, Y):
                if b == "nan":
                    out.add("nan")
                elif a == "zero":
                    out.add("zero")
                else:
                    r, e2 = mul1(a, LOG.get(b, "fin"))
                    out |= r
            return out, ex and ey
        return set(UNKNOWN[0]), False

    def rng(self, t, env):
        if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) and t.a[0] == t.a[0]:
            return [(t.a[0], t.a[0])], True
        A, e = self.el(t, env)
        return [rng(a) for a in A], e and "fin" not in A

    def pred(self, t, env):
        if t.op == "const" and isinstance(t.a[0], bool):
            return {t.a[0]}, True
        if t.op == "not" or (t.op == "un" and t.a[0] in ("~", "not")) or (t.op == "f" and t.a[0] in ("logical_not", "invert")):
            s, e = self.pred(t.a[0] if t.op == "not" else t.a[1] if t.op == "un" else t.a[1][0], env)
            return {not x for x in s}, e
        sub = None
        if t.op in ("and", "or"):
            sub, o = t.a[0] if isinstance(t.a[0], tuple) else t.a, t.op
        elif t.op == "bin" and t.a[0] in ("&", "|"):
            sub, o = t.a[1:], "and" if t.a[0] == "&" else "or"
        elif t.op == "f" and t.a[0] in ("logical_and", "logical_or"):
            sub, o = t.a[1], t.a[0][8:]
        if sub is not None:
            rs = [self.pred(x, env) for x in sub]
            vals = {(all if o == "and" else any)(c) for c in product(*[r[0] for r in rs])}
            dec = (o == "and") is False
            if any(r == ({dec}, True) for r in rs):
                return {dec}, True
            return vals, all(r[1] for r in rs) and sum(len(r[0]) > 1 for r in rs) <= 1
        if t.op == "cmp" and t.a[0] in ("<", "<=", ">", ">=", "==", "!="):
            if t.a[1] is t.a[2]:
                A, e = self.el(t.a[1], env)
                return {(a == "nan") == (t.a[0] == "!=") for a in A}, e
            A, ea = self.rng(t.a[1], env)
            B, eb = self.rng(t.a[2], env)
            out = set()
            for a, b in product(A, B):
                out |= cmp1(t.a[0], a, b)
            return out, ea and eb
        if t.op == "f" and t.a[0] in ("isnan", "isinf", "isfinite", "isposinf", "isneginf", "signbit") and len(t.a[1]) == 1:
            A, e = self.el(t.a[1][0], env)
            n = t.a[0]
            f = {"isnan": lambda a: a == "nan", "isinf": lambda a: a in ("inf", "ninf"), "isposinf": lambda a: a == "inf",
                 "isneginf": lambda a: a == "ninf", "isfinite": lambda a: a in FINITE, "signbit": lambda a: a in ("neg", "ninf")}[n]
            return {f(a) for a in A}, e
        return BOOL

    # -- scalars -----------------------------------------------------------
    def envs(self):
        ls = [l for l in self.leaves if l is not self.M]
        for c in self.present:
            for cs in product(*[sorted(self.leaves[l]) for l in ls]):
                yield c, {self.M: c, **dict(zip(ls, cs))}

    def reduce_el(self, t):
        """Per present class the outcomes of the elementwise term t."""
        out, ex = {}, True
        for c, env in self.envs():
            s, e = self.el(t, env)
            out.setdefault(c, set()).update(s)
            ex = ex and e
        return out, ex

    def scalar(self, t):
        """Classes of a scalar term in this world."""
        if t.op == "f" and t.a[0] in ("sum", "nansum") and not t.a[2] and len(t.a[1]) == 1:
            u, m = self.unmask(t.a[1][0])
            if m is not None:
                t = T("f", t.a[0], (T("f", "where", (m, u, C(0.0)), ()),), ())
        if t.op == "f" and t.a[0] in ("sum", "nansum", "mean", "min", "max", "nanmin", "nanmax") and not t.a[2] and len(t.a[1]) == 1:
            per, ex = self.reduce_el(t.a[1][0])
            out = set()
            for combo in product(*per.values()):
                combo = list(combo)
                n = t.a[0]
                if n.startswith("nan"):
                    combo = [c for c in combo if c != "nan"]
                    n = n[3:]
                    if not combo:
                        out.add("zero" if n == "sum" else "nan")
                        continue
                if n in ("sum", "mean"):
                    acc = combo[0]
                    for c in combo[1:]:
                        r, _ = add1(acc, c)
                        acc = next(iter(r))
                    out.add(acc)
                else:
                    if "nan" in combo:
                        out.add("nan")
                    else:
                        rank = ["ninf", "neg", "zero", "fin", "pos", "inf"]
                        out.add((min if n == "min" else max)(combo, key=rank.index))
            return out, ex
        if t.op == "const" or t.op == "global":
            return self.el(t, {})
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "/"):
            A, ea = self.scalar(t.a[1])
            B, eb = self.scalar(t.a[2])
            out, ex = set(), ea and eb
            for a, b in product(A, B):
                if t.a[0] == "/":
                    if b == "zero":
                        return set(UNKNOWN[0]), False
                    b = "zero" if b in ("inf", "ninf") and a not in ("inf", "ninf") else b
                if t.a[0] == "-":
                    b = NEG.get(b, b)
                r, e = (add1 if t.a[0] in "+-" else mul1)(a, b)
                out |= r
                ex = ex and e
            return out, ex
        if t.op == "phi":
            c, e = self.truth(t.a[0])
            A, ea = self.scalar(t.a[1])
            B, eb = self.scalar(t.a[2])
            return (A if True in c else set()) | (B if False in c else set()), e and ea and eb
        return set(UNKNOWN[0]), False

    def truth(self, t):
        """Truth values of a scalar condition in this world."""
        if t.op == "const" and isinstance(t.a[0], bool):
            return {t.a[0]}, True
        if t.op == "not" or (t.op == "f" and t.a[0] == "logical_not"):
            s, e = self.truth(t.a[0] if t.op == "not" else t.a[1][0])
            return {not x for x in s}, e
        if t.op in ("and", "or") or (t.op == "f" and t.a[0] in ("logical_and", "logical_or")) or (
                t.op == "bin" and t.a[0] in ("&", "|")):
            if t.op == "f":
                sub, o = t.a[1], t.a[0][8:]
            elif t.op == "bin":
                sub, o = t.a[1:], "and" if t.a[0] == "&" else "or"
            else:
                sub, o = t.a[0] if isinstance(t.a[0], tuple) else t.a, t.op
            rs = [self.truth(x) for x in sub]
            dec = o == "or"
            if any(r[0] == {dec} and r[1] for r in rs):
                return {dec}, True
            vals = {(all if o == "and" else any)(c) for c in product(*[r[0] for r in rs])}
            return vals, all(r[1] for r in rs) and sum(len(r[0]) > 1 for r in rs) <= 1
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("builtins.any", "builtins.all", "builtins.bool") \
                and len(t.a[1]) == 1:
            n = t.a[0].a[0].split(".")[1]
            x = t.a[1][0]
            return self.truth(x) if n == "bool" else self.quant(n, x)
        if t.op == "f" and t.a[0] in ("any", "all") and not t.a[2] and len(t.a[1]) == 1:
            return self.quant(t.a[0], t.a[1][0])
        if t.op == "f" and t.a[0] in ("isnan", "isinf", "isfinite", "isposinf", "isneginf") and len(t.a[1]) == 1:
            A, e = self.scalar(t.a[1][0])
            f = {"isnan": lambda a: a == "nan", "isinf": lambda a: a in ("inf", "ninf"), "isposinf": lambda a: a == "inf",
                 "isneginf": lambda a: a == "ninf", "isfinite": lambda a: a in FINITE}[t.a[0]]
            return {f(a) for a in A}, e
        if t.op == "cmp" and t.a[0] in ("<", "<=", ">", ">=", "==", "!="):
            for x, y, o in ((t.a[1], t.a[2], t.a[0]), (t.a[2], t.a[1], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(t.a[0], t.a[0]))):
                # count_nonzero(E) > 0
                if x.op == "f" and x.a[0] in ("count_nonzero", "sum") and len(x.a[1]) == 1 and isc(y, 0) and self.ispred(x.a[1][0]):
                    if o in (">", "!="):
                        return self.quant("any", x.a[1][0])
                    if o in ("==", "<="):
                        s, e = self.quant("any", x.a[1][0])
                        return {not v for v in s}, e
            if t.a[1] is t.a[2]:
                A, e = self.scalar(t.a[1])
                return {(a == "nan") == (t.a[0] == "!=") for a in A}, e
            R = []
            for x in t.a[1:]:
                if x.op == "const" and isinstance(x.a[0], (int, float)):
                    R.append(([(x.a[0], x.a[0])], True))
                else:
                    A, e = self.scalar(x)
                    R.append(([rng(a) for a in A], e and "fin" not in A))
            out = set()
            for a, b in product(R[0][0], R[1][0]):
                out |= cmp1(t.a[0], a, b)
            return out, R[0][1] and R[1][1]
        return BOOL

    def ispred(self, t):
        return t.op in ("cmp", "not", "and", "or") or (t.op == "f" and (t.a[0].startswith("is") or t.a[0].startswith("logical"))) or (
            t.op == "bin" and t.a[0] in ("&", "|")) or (t.op == "un" and t.a[0] == "~")

    def unmask(self, t):
        """(elementwise term over the whole arrays, mask) of an elementwise term over arrays selected by one boolean mask."""
        ms = {x.a[1] for x in walk(t) if x.op == "item" and x.a[0] in self.leaves and self.ispred(x.a[1])}
        if len(ms) != 1:
            return t, None
        m = ms.pop()
        z = {T("item", l, m): T("param", f"$masked{i}") for i, l in enumerate(self.leaves)}
        u = subst(t, z)
        if any(x in self.leaves for x in walk(u)):
            return t, None
        return subst(u, {v: k.a[0] for k, v in z.items()}), m

    def quant(self, n, t):
        if not self.ispred(t):
            return BOOL
        t, m = self.unmask(t)
        if m is not None:
            t = T("and", t, m) if n == "any" else T("or", t, T("not", m))
        per, ex = {}, True
        for c, env in self.envs():
            s, e = self.pred(t, env)
            per.setdefault(c, set()).update(s)
            ex = ex and e
        if n == "any":
            out = ({True} if any(True in s for s in per.values()) else set()) | (
                {False} if all(False in s for s in per.values()) else set())
        else:
            out = ({True} if all(True in s for s in per.values()) else set()) | (
                {False} if any(False in s for s in per.values()) else set())
        return out, ex or len(out) == 1
