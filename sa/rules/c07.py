"""C07: simulated quantities stay in their physical ranges."""

import ast
import random
import re

from ..help import *
from ..algebra import canon
from ..plug import plugins
from ..ranges import Ranges, Iv, INF, comb, witness
from .c05 import World, closure, outputs, tup

META = {
    "level": "other",
    "technique": "interval and linear-bound abstract interpretation of every plugin, composed along the dependency closure of every shipped component",
    "explain": "For every shipped component the output terms of its plugins are composed along the dependency closure, so that each quantity is a "
               "term over parameters, options, maps and random draws.  Interval analysis with the parameter ranges of the shipped parameter files and "
               "a linear prover over clips, maxima and the bounds of draws show each efficiency and binomial probability within [0, 1], "
               "each count non-negative and each split of quanta complete.  A violation is reported only where the bound that "
               "is exceeded is reached by independent parameters and draws.",
    "rules": {
        "probability": "the probability handed to a binomial draw is in [0, 1]",
        "trials": "the number of trials of a binomial draw is not negative",
        "efficiency": "an efficiency, acceptance or survival probability is in [0, 1]",
        "count": "a number of quanta, photons, electrons or a yield is not negative",
        "split": "photons and electrons (excitons and ions) add up to the quanta split",
        "draw": "a binomial draw lies between zero and its number of trials, a truncated draw within its limits",
    },
    "assumptions": ["parameters lie within the allowed ranges of the shipped parameter files, maps and options within the ranges of the shipped ones",
                    "results that are not numbers (zero divided by zero) are outside the analysis",
                    "library draws (jax.random) lie in the support of their distribution"],
}
EFF = re.compile(r"^(eff|.*_eff|eff_.*|acc_.*|.*_acc|cut_acc_.*|.*_prob|.*_survive.*|recomb)$")
COUNT = re.compile(r"^(num_.*|Ni|Nex|Nq|.*_yield|energy)$")
SPLITS = ((("num_photon", "num_electron"), ("Nq", "num_quanta")), (("Ni", "Nex"), ("Nq",)))


def check(proj, book):
    a = Analysis(proj, book)
    book.step("components", a.components)
    book.step("draws", draws, proj, book)
    book.floor("efficiency", 4)
    book.floor("count", 10)
    book.floor("probability", 4)
    book.floor("split", 1)


def span(x):
    if isinstance(x, bool) or x is None:
        return None
    if isinstance(x, (int, float)):
        return x, x
    if isinstance(x, (list, tuple)):
        s = [span(y) for y in x]
        s = [y for y in s if y]
        return (min(y[0] for y in s), max(y[1] for y in s)) if s else None
    if isinstance(x, dict):
        return span(list(x.values()))
    return None


class Analysis:
    def __init__(self, proj, book):
        self.proj, self.book = proj, book
        self.w = World(proj, Quiet(book))
        self.pars, self.opts, self.sigmas, self.cache, self.seen = {}, {}, set(), {}, set()
        for name, rel in sorted(self.w.files.items()):
            d = self.w.json(name)
            if not isinstance(d, dict):
                continue
            if "/parameters/" in rel:
                for k, v in d.items():
                    s = span(v.get("prior_args", {}).get("val") if v.get("prior_type") == "fixed" else v.get("allowed_range"))
                    if s:
                        o = self.pars.get(k, s)
                        self.pars[k] = (min(o[0], s[0]), max(o[1], s[1]))
            elif "/instructs/" in rel:
                for k, v in d.get("configs", {}).items():
                    self.note(k, v)

    def note(self, k, v):
        """Add a value an option takes: a number, or the values of the map it names."""
        if isinstance(v, dict):
            for x in v.values():
                self.note(k, x)
            return
        if isinstance(v, str) and v.endswith(".json"):
            d = self.w.json(v)
            v = d.get("map") if isinstance(d, dict) else None
        elif isinstance(v, (list, tuple)) and any(isinstance(x, str) for x in v):
            return
        s = span(v)
        if s:
            o = self.opts.get(k, s)
            self.opts[k] = (min(o[0], s[0]), max(o[1], s[1]))

    def terms(self, c):
        """(outputs by name, draws) of a plugin as terms over its inputs."""
        if c.qual in self.cache:
            return self.cache[c.qual]
        for cf in self.w.iface(c).configs or ():
            d = cf.get("default")
            if cf.kind == "SigmaMap":
                self.sigmas.add(cf.name)
            elif d is not ...:
                self.note(cf.name, d)
        f = c.find_method("simulate")
        ev = Eval(self.proj, opaque=lambda g: g.mod.name in ("appletree.randgen", "appletree.config"))
        r = ev.run(f, cls=c)
        outs = tup(self.w.iface(c).provides)
        res = {}
        for i, o in enumerate(outs or ()):
            t = r.ret if r.ret is None else item(r.ret, C(i + 1))
            res[o] = None if t is None else canon(t)
        ds = []
        for e in r.events:
            if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "global" and e.fn.a[0].startswith("appletree.randgen."):
                n = e.fn.a[0].rsplit(".", 1)[1]
                if n in ("binomial", "binomial_hybrid", "bernoulli"):
                    p, k = arg(e, 1, "p"), None if n == "bernoulli" else arg(e, 2, "n")
                    ds.append((n, None if p is None else canon(p), None if k is None else canon(k), e.loc, e.guard))
        self.cache[c.qual] = (f, res, ds)
        return self.cache[c.qual]

    def root(self, t):
        if t.op == "item" and t.a[0].op == "param" and t.a[0].a[0].startswith("parameters") and t.a[1].op == "const":
            s = self.pars.get(t.a[1].a[0])
            return Iv(float(s[0]), float(s[1]), True, frozenset([t])) if s else Iv(-INF, INF, False, frozenset([t]))
        if t.op == "attr" and t.a[1] == "value" and t.a[0].op == "attr" and t.a[0].a[0] is SELF:
            s = self.opts.get(t.a[0].a[1])
            return Iv(float(s[0]), float(s[1]), True, frozenset([t])) if s else Iv(-INF, INF, False, frozenset([t]))
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "apply":
            o = t.a[0].a[0]
            s = self.opts.get(o.a[1]) if o.op == "attr" and o.a[0] is SELF and o.a[1] not in self.sigmas else None
            # a map without range (several map files and a parameter) takes any value
            return Iv(float(s[0]), float(s[1]), True, frozenset([t])) if s else Iv(-INF, INF, True, frozenset([t]))
        if t.op == "param":
            return Iv(-INF, INF, False, frozenset([t]))
        return None

    def components(self):
        book = self.book
        for n, c in sorted(self.w.comps.items()):
            reg, why = self.w.registry(c)
            if reg is None or c.mod.name == "appletree.component":
                continue
            r = closure(self.w, reg, outputs(self.w, c))
            if r is None or not r[3]:
                book.ob("efficiency", n, None, "declared interfaces are not literal", c.loc)
                continue
            r = closure(self.w, reg, sorted(r[4]))
            lost = {b.qual for d, b in r[1] if b is not None} if r is not None and r[3] else set()
            if r is None or not r[3] or r[2]:
                book.ob("efficiency", n, None, "the plugins have no order", c.loc)
                continue
            for k in r[0]:
                self.terms(k)
            self.component(n, [k for k in r[0] if k.qual not in lost])

        # shipped plugins that no shipped component registers, with their own module's plugins before the general ones
        rest = [c for c in plugins(self.proj) if c.qual not in self.cache and c.mod.name.startswith("appletree.plugins.")]
        for lone in sorted(rest, key=lambda c: c.qual):
            if lone.qual in self.cache:
                continue
            mod = lone.mod.name
            general = ["appletree.plugins." + x for x in ("efficiency", "reconstruction", "detector", "common")] + [mod]
            reg = [c for m in general for c in plugins(self.proj) if c.mod.name == m] + [lone]
            r = closure(self.w, reg, sorted({o for c in reg for o in tup(self.w.iface(c).provides) or ()}))
            if r is None or not r[3] or r[2]:
                book.ob("efficiency", lone.name, None, "the plugins have no order", lone.loc)
                continue
            lost = {b.qual for d, b in r[1] if b is not None}
            need = [k for k in r[0] if k.qual not in lost]
            for k in need:
                self.terms(k)
            self.component(mod, need)

    def component(self, cn, need):
        env, made = {}, {}
        R = Ranges(self.root)
        for k in need:
            f, outs, ds = self.terms(k)
            deps = tup(self.w.iface(k).depends_on) or []
            m = {par(d): env[d] for d in deps if d in env}
            m[par("key")] = par("key@" + k.name)

            def sub(t, m=m):
                return None if t is None else canon(subst(t, m))
            for i, (n, p, q, loc, guard) in enumerate(ds):
                p, q = sub(p), sub(q)
                self.claim("probability", f"{k.name}:{i}", R, p, 0, 1, loc, f"probability of {n} in {k.name}")
                if q is not None:
                    self.claim("trials", f"{k.name}:{i}", R, q, 0, None, loc, f"trials of {n} in {k.name}")
            made[k.name] = {}
            for o, t in outs.items():
                t = sub(t)
                made[k.name][o] = t
                if EFF.match(o):
                    self.claim("efficiency", f"{k.name}:{o}", R, t, 0, 1, f.loc, f"{o} of {k.name}")
                elif COUNT.match(o):
                    self.claim("count", f"{k.name}:{o}", R, t, 0, None, f.loc, f"{o} of {k.name}")
            env.update({o: t for o, t in made[k.name].items() if t is not None})
            for pair, wholes in SPLITS:
                if all(x in outs for x in pair):
                    for whole in wholes:
                        if whole in env and (whole in outs or whole in deps):
                            self.split(k, pair, whole, R, env, f.loc)

    def emit(self, rule, key, ok, what, loc):
        s = {True: 0, None: 1, False: 2}[ok]
        if (rule, key, s) not in self.seen:
            self.seen.add((rule, key, s))
            self.book.ob(rule, key, ok, what, loc)

    def claim(self, rule, key, R, t, lo, hi, loc, what):
        if t is None:
            return self.emit(rule, key, None, f"{what}: no value", loc)
        i = R.iv(t)
        ok = i.lo >= lo or R.nonneg(t if not lo else T("bin", "-", t, C(lo)))
        up = hi is None or i.hi <= hi or R.ge(C(hi), t)
        if ok and up:
            return self.emit(rule, key, True, f"{what} in [{i.lo:g}, {i.hi:g}]", loc)
        bad = i.exact and (not ok and i.lo < lo or not up and i.hi > hi)
        at = None
        if not bad:
            at = witness(R, t, lo, hi, rng=random.Random(0))
        why = "" if at is None else f", {at[1]:.4g} at " + ", ".join(f"{show(k)[:30]} = {v:.4g}" for k, v in list(at[0].items())[:6])
        self.emit(rule, key, False if bad or at else None, f"{what} reaches [{i.lo:g}, {i.hi:g}]{why}", loc)

    def split(self, k, pair, whole, R, env, loc):
        a, b, q = (env.get(x) for x in pair + (whole,))
        if a is None or b is None or q is None:
            return self.emit("split", f"{k.name}:{whole}", None, "no value", loc)
        z = R.zero(comb(comb(R.lin(a), R.lin(b), 1), R.lin(q), -1))
        if z is None and witness(R, T("bin", "-", T("bin", "+", a, b), q), 0, 0, rng=random.Random(0)):
            z = False
        self.emit("split", f"{k.name}:{'+'.join(pair)}:{whole}", z, f"{' + '.join(pair)} {'is' if z else 'may differ from'} {whole} in {k.name}", loc)


class Quiet:
    """Receives the obligations of another rule's readers, which that rule reports itself."""

    def __init__(self, book):
        self.info = {}

    def ob(self, *a, **k):
        pass

    def __getattr__(self, n):
        return lambda *a, **k: None


def draws(proj, book):
    """The samplers themselves: results within the support of the distribution."""
    N, P, LO, HI = par("n"), par("p"), par("vmin"), par("vmax")
    for name in ("binomial", "binomial_hybrid", "truncate_normal"):
        for f in proj.lookup_funcs("appletree.randgen." + name):
            ev = Eval(proj, opaque=opq("binomial_hybrid") if name == "binomial" else lambda g: False)
            r = ev.run(f)
            key = f"{name}:{variant(f)}"
            if r.ret is None:
                book.ob("draw", key, None, "no result", f.loc)
                continue
            t = plain(canon(item(r.ret, C(1))))
            roots = {N: Iv(0.0, INF, True, frozenset([N])), P: Iv(0.0, 1.0, True, frozenset([P]))}
            free = {par(a): Iv(0.0, INF, True, frozenset([par(a)])) for a in f.params if a not in ("key", "n", "p", "vmin", "vmax", "mean", "std", "shape")}
            R = Ranges(lambda x: roots.get(x) or free.get(x) or (Iv(-INF, INF, True, frozenset([x])) if x.op == "call" and head(x.a[0]) == "jax.random.normal" else None), facts={(HI, LO)}, ints={N})
            if name == "truncate_normal":
                ok = R.ge(t, LO) and R.ge(HI, t)
                bad = t.op != "f" and not any(x.op == "f" and x.a[0] in ("clip", "where", "maximum", "minimum") or x.op == "phi" for x in walk(t)) and \
                    any(unbounded(t, z) for z in normals(t))
                # a draw that is limited on one side only, or by something else
                if not ok and t.op == "f" and t.a[0] in ("clip", "maximum", "minimum"):
                    inner = [x for x in t.a[1] if any(True for _ in normals(x))]
                    bad = len(inner) == 1 and any(unbounded(inner[0], z) for z in normals(inner[0])) and not (LO in t.a[1] and HI in t.a[1])
                book.ob("draw", key, ok or (False if bad else None), f"a truncated draw {'stays within' if ok else 'may leave'} its limits", f.loc)
                continue
            lo, hi = R.nonneg(t), R.ge(N, t)
            bad = None
            if not (lo and hi):
                bad = witness(R, t, 0, None, rng=random.Random(0)) or (not hi and witness(R, T("bin", "-", t, N), -INF, 0, rng=random.Random(0))) or \
                    any(unbounded(x, z) for x in leaves(t) for z in normals(x))
            book.ob("draw", key, True if lo and hi else False if bad else None, f"the number of successes is {'between 0 and' if lo and hi else 'not shown to be between 0 and'} the number of trials", f.loc)


def variant(f):
    return {True: "hybrid"}.get("binomial_hybrid" in {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}, "numpyro" if any(isinstance(x, ast.FunctionDef) and x is not f.node for x in ast.walk(f.node)) else "jax")


def plain(t):
    """Shapes removed; library binomials and counts of trials below n as draws of the package."""
    def one(x):
        if x.op == "f" and x.a[0] in ("broadcast_to", "reshape", "ravel", "squeeze", "transpose", "expand_dims") and x.a[1]:
            return x.a[1][0]
        if x.op == "item" and (x.a[1].op == "slice" or x.a[1].op == "tuple" and all(y.op == "slice" or isc(y, None) for y in x.a[1].a)):
            return x.a[0]
        if x.op == "call" and head(x.a[0]) == "jax.random.binomial":
            a, k = x.a[1], dict(x.a[2])
            n, p = k.get("n", a[1] if len(a) > 1 else None), k.get("p", a[2] if len(a) > 2 else None)
            return x if n is None or p is None else T("item", T("call", G("appletree.randgen.binomial"), (a[0] if a else k.get("key"), p, n), ()), C(1))
        if x.op == "f" and x.a[0] == "sum":
            n = below(x.a[1][0])
            if n is not None:
                return T("item", T("call", G("appletree.randgen.binomial"), (x, C(0.5), n), ()), C(1))
        return x
    return rewrite(t, one)


def below(t):
    """n if t is true only at indices 0 .. n-1."""
    if t.op == "bin" and t.a[0] in ("&", "*"):
        return below(t.a[1]) or below(t.a[2])
    if t.op == "and":
        return next((below(x) for x in t.a if below(x) is not None), None)
    if t.op == "f" and t.a[0] == "logical_and":
        return below(t.a[1][0]) or below(t.a[1][1])
    if t.op == "f" and t.a[0] == "where" and (isc(t.a[1][2], 0) or isc(t.a[1][2], 0.0) or t.a[1][2] is FALSE):
        return below(t.a[1][0]) or below(t.a[1][1])
    if t.op == "cmp" and t.a[0] == "<" and t.a[1].op == "f" and t.a[1].a[0] == "arange" and len(t.a[1].a[1]) == 1:
        return t.a[2]
    return None


def leaves(t):
    """The alternatives of a value: branches of conditionals, arguments of integer rounding."""
    if t.op == "f" and t.a[0] == "where" and len(t.a[1]) == 3:
        return leaves(t.a[1][1]) + leaves(t.a[1][2])
    if t.op == "f" and t.a[0] in ("round", "toint", "rint", "floor"):
        return leaves(t.a[1][0])
    if t.op == "phi":
        return leaves(t.a[1]) + leaves(t.a[2])
    if t.op == "bin" and t.a[0] in "+-":
        return [T("bin", t.a[0], a, b) for a in leaves(t.a[1]) for b in leaves(t.a[2])]
    return [t]


def normals(t):
    return [x for x in walk(t) if x.op == "call" and head(x.a[0]) == "jax.random.normal"]


def unbounded(t, z):
    """t is a polynomial of odd degree in the normal draw z, after rounding."""
    def deg(x):
        if x is z:
            return 1
        if not occurs(x, z):
            return 0
        if x.op == "f" and x.a[0] in ("round", "toint", "rint", "floor", "array") and x.a[1]:
            return deg(x.a[1][0])
        if x.op == "bin":
            a, b = deg(x.a[1]), deg(x.a[2])
            if a is None or b is None:
                return None
            if x.a[0] in "+-":
                return max(a, b)
            if x.a[0] == "*":
                return a + b
            if x.a[0] == "/" and b == 0:
                return a
            if x.a[0] == "**" and b == 0 and x.a[2].op == "const" and isinstance(x.a[2].a[0], int):
                return a * x.a[2].a[0]
        return None
    d = deg(t)
    return d is not None and d % 2 == 1
