"""C32: quanta are conserved, and gains and probabilities mean what their names say."""

import ast
import itertools
import math
import os
import random

from ..help import *
from ..numer import Point, Unknown, draws, plain
from ..plug import lit
from ..terms import show
from ..world import World

META = {
    "level": "other",
    "technique": "symbolic evaluation of plugins to formulas over abstract draws; expected-value calculus and identity testing against conservation and gain laws",
    "explain": "Every plugin of the microphysics and detector chain is evaluated to formulas for its outputs over its inputs, parameters, map values and the "
               "draws of randgen.  With every draw replaced by its mean the outputs are compared with the law they stand for (yield times energy, gain per "
               "quantum with the double photoelectron correction cancelling, survival with drift time, product of acceptances); sums of complementary "
               "outputs are compared with their total for arbitrary draws; the width handed to each normal draw is compared with the stated one.",
    "rules": {
        "mean": "with every draw at its mean the output is what the law says",
        "conserve": "photons and electrons, excitons and ions add up to the quanta, whatever is drawn",
        "spread": "fluctuations have the width stated for them",
        "always": "what follows from other outputs does so whatever is drawn",
        "query": "each map is queried at the quantities, in the order of the coordinates, it is a map of",
    },
    "assumptions": ["randgen draws have the means and widths of their distributions (C31)", "values away from the limits they are clipped to"],
}
SIG = {"uniform": ("key", "vmin", "vmax", "shape"), "poisson": ("key", "lam", "shape"), "gamma": ("key", "alpha", "beta", "shape"), "normal": ("key", "mean", "std", "shape"),
       "truncate_normal": ("key", "mean", "std", "vmin", "vmax", "shape"), "skewnormal": ("key", "a", "loc", "scale", "shape"), "bernoulli": ("key", "p", "shape"), "binomial": ("key", "p", "n", "shape"),
       "negative_binomial": ("key", "p", "n", "shape"), "generalized_poisson": ("key", "lam", "eta", "shape"), "binomial_hybrid": ("key", "p", "n", "shape", "threshold"),
       "twohalfnorm": ("key", "mu", "sigma_pos", "sigma_neg", "shape")}
PARAMS = {"w", "fano", "g1", "g2", "p_dpe", "t_ly", "t_qy", "drift_velocity", "elife_sigma", "s2_threshold", "alpha2", "fano_ni", "fano_nex", "gas_gain"}
MAPS = {"ly_median", "qy_median", "elife", "s1_bias_3f", "s2_bias", "s1_smear_3f", "s2_smear", "posrec_reso", "s1_eff_3f", "s1_cut_acc", "s2_cut_acc", "gas_gain_relative"}
RANGE = {
    "energy": (2, 20), "w": (0.0115, 0.0145), "fano": (0.03, 0.2), "nex_ni_ratio": (0.05, 1.2), "recomb_mean": (0.2, 0.8), "recomb_std": (0.01, 0.1), "num_quanta": (400, 900, 1), "num_ion": (200, 390, 1),
    "recomb": (0.1, 0.9), "ly_median": (10, 60), "qy_median": (10, 60), "t_ly": (-0.2, 0.2), "t_qy": (-0.2, 0.2), "light_yield": (5, 60), "charge_yield": (5, 60), "num_photon": (10, 500, 1), "num_electron": (10, 300, 1),
    "g1": (0.1, 0.2), "g2": (5, 15), "s1_lce": (0.6, 1.4), "s2_lce": (0.7, 1.3), "num_s1_phd": (2, 90, 1), "z": (-130, 130), "drift_velocity": (0.05, 0.08), "elife": (4000, 20000),
    "elife_sigma": (-0.3, 0.3), "drift_survive_prob": (0.4, 0.99), "num_electron_drifted": (5, 300, 1), "gas_gain": (25, 40), "gas_gain_relative": (0.8, 1.2), "num_s1_pe": (3, 100, 1), "num_s2_pe": (100, 9000),
    "s1_bias_3f": (-0.1, 0.1), "s2_bias": (-0.1, 0.1), "s1_smear_3f": (0.01, 0.2), "s2_smear": (0.01, 0.2), "posrec_reso": (0.1, 3), "s1_area": (2, 100), "s2_area": (100, 9000), "s1_correction": (0.6, 1.4),
    "s2_correction": (0.6, 1.4), "x": (-40, 40), "y": (-40, 40), "rec_x": (-40, 40), "rec_y": (-40, 40), "rec_z": (-130, 130), "_Nph": (100, 500), "_Ne": (60, 300), "alf": (0.3, 0.9), "fano_nq": (0.05, 0.3),
    "recombProb": (0.2, 0.8), "Ni": (100, 300, 1), "Nex": (10, 80, 1), "Variance": (10, 60), "ThomasImel": (0.01, 0.03), "acc_s2_threshold": (0.1, 1), "acc_s1_recon_eff": (0.1, 1), "cut_acc_s1": (0.1, 1),
    "cut_acc_s2": (0.1, 1), "s2_threshold": (1000, 6000), "s1_eff_3f": (0.05, 0.95), "s1_cut_acc": (0.05, 0.95), "s2_cut_acc": (0.05, 0.95), "alpha2": (-2, 4), "fano_ni": (0.3, 1.2), "fano_nex": (0.3, 1.2),
    "field": (20, 200), "liquid_xe_density": (2.8, 2.95),
    "py0": (0.08, 0.2), "py1": (20, 60), "py2": (-0.5, -0.1), "py3": (0.5, 8), "py4": (0.3, 3), "rf0": (0.01, 0.05), "rf1": (0.2, 4), "alpha": (9, 14), "beta": (0.9, 1.2), "gamma": (0.03, 0.06), "delta": (-0.1, 0.1),
    "epsilon": (5, 15), "zeta": (0.2, 5), "eta": (1, 3), "theta": (0.2, 5), "iota": (1, 3), "_Nq": (300, 900), "A": (0.01, 0.1), "xi": (0.3, 0.6), "omega": (0.1, 0.4), "elecFrac": (0.2, 0.7), "A_er": (0.02, 0.1),
    "xi_er": (0.3, 0.6), "omega_er": (0.1, 0.4), "alpha3_er": (-1.5, 1.5), "delta_f": (-0.01, 0.01), "m1": (-10, 10), "m2": (60, 90), "m3": (0.45, 0.55), "m4": (1.5, 3), "m7": (50, 150), "m8": (2, 6), "m9": (0.15, 0.45),
    "m10": (0.05, 0.5), "energy_center": (0.1, 4), "clip_lower_energy": (0.3, 1.5), "clip_upper_energy": (1.6, 3.5), "p_dpe": (0.1, 0.3), "efield_map": (20, 200), "efield_position_dependence": (0, 1, 1),
}
FAR = {"py0": (1e-4, 3e-4), "energy": (0.3, 2)}
SUMS = [("RecombinationER", ("num_photon", "num_electron"), "num_quanta"), ("TrueExcitonIonER", ("Ni", "Nex"), "Nq"), ("TrueExcitonIonNR", ("Ni", "Nex"), "Nq"),
        ("TruePhotonElectronER", ("num_photon", "num_electron"), "Nq"), ("TruePhotonElectronNR", ("num_photon", "num_electron"), "Nq")]
QUERY = {"LightYield.ly_median": ("energy",), "ChargeYield.qy_median": ("energy",), "EField.efield_map": ("$r", "z"), "S1LCE.s1_lce": ("x", "y", "z"), "S2LCE.s2_lce": ("x", "y"), "S2PE.gas_gain_relative": ("x", "y"),
         "PositionRecon.posrec_reso": ("num_electron_drifted",), "S1.s1_bias_3f": ("num_s1_pe",), "S1.s1_smear_3f": ("num_s1_pe",), "S2.s2_bias": ("num_s2_pe",), "S2.s2_smear": ("num_s2_pe",),
         "S1Correction.s1_correction": ("rec_x", "rec_y", "rec_z"), "S2Correction.s2_correction": ("rec_x", "rec_y"), "S1ReconEff.s1_eff_3f": ("num_s1_phd",), "S1CutAccept.s1_cut_acc": ("s1_area",),
         "S2CutAccept.s2_cut_acc": ("s2_area",)}


SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


def functions(which):
    with open(os.path.join(SPECS, which + ".py")) as f:
        return [x for x in ast.parse(f.read()).body if isinstance(x, ast.FunctionDef)]


def check(proj, book):
    for f in functions("physics"):
        names = [a.arg for a in f.args.args]
        if f.name.startswith("always_"):
            book.step(f.name, always, proj, book, f.name[7:], names)
        elif f.name.startswith("spread_"):
            book.step(f.name, spread, proj, book, f.name[7:], names)
        else:
            book.step(f.name, mean, proj, book, f.name, names)
    for c, parts, total in SUMS:
        book.step(f"{c} total", conserve, proj, book, c, parts, total)
    for k, pos in QUERY.items():
        book.step(k, query, proj, book, *k.split("."), pos)
    book.floor("mean", 30)
    book.floor("conserve", 5)


_CACHE = {}


def outputs(proj, cls):
    """{provided name: formula over parameters, inputs, map values, draws}, evaluation; None if not evaluated."""
    k = (id(proj), cls)
    if k not in _CACHE or _CACHE[k][0] is not proj:
        _CACHE[k] = (proj, _outputs(proj, cls))
    return _CACHE[k][1]


def _outputs(proj, cls):
    c = proj.cls(cls)
    f = proj.method(cls, "simulate") if c else None
    pr = lit(c, "provides") if c else None
    if f is None or not pr:
        return None
    e = World(proj, opaque=lambda g: g.mod.name in ("appletree.randgen", "appletree.config"))
    r = e.run(f, cls=c)
    r.func, r.loc, r.ev = f, f.loc, e
    t = r.ret
    if t is None:
        return None
    # one of several returns: the field from a map or from a parameter
    out = {n: rows(leaves(item(t, C(i + 1)))) for i, n in enumerate(pr)}
    return out, r


def rows(t):
    """Rows (or columns) of a draw of several rows are draws of their own."""
    def f(x):
        if x.op != "item" or x.a[0].op != "item" or not isc(x.a[0].a[1], 1) or x.a[0].a[0].op != "call":
            return x
        c, k = x.a[0].a[0], x.a[1]
        n = head(c.a[0]).split(".")[-1]
        if not head(c.a[0]).startswith("appletree.randgen.") or n not in SIG:
            return x
        a = dict(zip(SIG[n], c.a[1]))
        a.update(dict(c.a[2]))
        sh = a.get("shape")
        if sh is None or sh.op not in ("tuple", "list") or len(sh.a) != 2 or any(v.op in ("list", "tuple") for j, v in a.items() if j != "shape"):
            return x
        at = 0
        if k.op == "tuple":
            full = [j.op == "slice" and all(y is NONE for y in j.a) or isc(j, Ellipsis) for j in k.a]
            if len(k.a) != 2 or sum(full) != 1:
                return x
            at, k = full.index(False), k.a[full.index(False)]
        if k.op != "const" or not isinstance(k.a[0], int) or sh.a[at].op != "const":
            return x
        a["shape"] = T("tuple", sh.a[1 - at])
        a["_row"] = C(k.a[0] % sh.a[at].a[0])
        return T("item", T("call", c.a[0], (), tuple(a.items())), C(1))
    return rewrite(t, f)


def leaves(t):
    def f(x):
        if x.op == "item" and x.a[0] is par("parameters") and x.a[1].op == "const" and isinstance(x.a[1].a[0], str):
            return par(x.a[1].a[0])
        if x.op == "attr" and x.a[1] == "value" and x.a[0].op == "attr" and x.a[0].a[0] is SELF:
            return par(x.a[0].a[1])
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "apply" and x.a[0].a[0].op == "attr" and x.a[0].a[0].a[0] is SELF:
            return par(x.a[0].a[0].a[1])
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get" and x.a[0].a[0] is par("parameters") and x.a[1] and x.a[1][0].op == "const":
            return par(str(x.a[1][0].a[0]))
        return x
    # calls of maps first: inside their arguments nothing matters here
    return rewrite(t, f)


class Draws(Point):
    """Draws of randgen; subclasses say what a draw is."""

    def _val(self, t):
        if t.op == "item" and isc(t.a[1], 1) and t.a[0].op == "call" and (d := self.rg(t.a[0])) is not None:
            return self.drawn(*d)
        return super()._val(t)

    def rg(self, c):
        h = head(c.a[0])
        if not h.startswith("appletree.randgen."):
            return None
        n = h.split(".")[-1]
        if n not in SIG:
            raise Unknown(n)
        a = dict(zip(SIG[n], c.a[1]))
        a.update(dict(c.a[2]))
        return n, c, a

    def arg(self, a, k):
        return self.val(a[k])


class Mean(Draws):
    def fn(self, t):
        if t.a[0] in ("round", "toint", "rint", "around"):
            return self.val(t.a[1][0])
        return super().fn(t)

    def drawn(self, n, c, a):
        v = lambda k: self.val(a[k])
        if n in ("binomial", "binomial_hybrid"):
            p, m = v("p"), v("n")
            if not -1e-9 <= p <= 1 + 1e-9:
                raise Unknown("probability outside [0, 1]")
            return p * m
        if n in ("poisson", "generalized_poisson"):
            return v("lam")
        if n in ("normal", "truncate_normal"):
            m = v("mean")
            for k, f in (("vmin", max), ("vmax", min)):
                if a.get(k) is not None and a[k] is not NONE:
                    m = f(m, v(k))
            return m
        if n == "uniform":
            return (v("vmin") + v("vmax")) / 2
        if n == "skewnormal":
            s = v("a")
            return v("loc") + v("scale") * s / math.sqrt(1 + s * s) * math.sqrt(2 / math.pi)
        if n == "bernoulli":
            return v("p")
        if n == "gamma":
            return v("alpha") / v("beta")
        if n == "negative_binomial":
            return v("n") * (1 - v("p")) / v("p")
        if n == "twohalfnorm":
            return v("mu") + math.sqrt(2 / math.pi) * (v("sigma_pos") - v("sigma_neg"))
        raise Unknown(n)


class Any(Draws):
    """Draws anywhere in the range of their distribution."""

    def __init__(self, env, r):
        super().__init__(env)
        self.r, self.done = r, {}

    def drawn(self, n, c, a):
        if c not in self.done:
            v = lambda k: self.val(a[k])
            if n in ("binomial", "binomial_hybrid"):
                x = float(round(self.r.random() * v("n")))
            elif n in ("poisson", "generalized_poisson", "negative_binomial"):
                x = float(self.r.randint(0, 1 + int(3 * (v("lam") if "lam" in a else 50))))
            else:
                m, s = {"normal": ("mean", "std"), "truncate_normal": ("mean", "std"), "skewnormal": ("loc", "scale"), "uniform": ("vmin", "vmax")}.get(n, (None, None))
                if m is None:
                    raise Unknown(n)
                x = v(m) + v(s) * self.r.uniform(-4, 4) if n != "uniform" else v(m) + (v(s) - v(m)) * self.r.random()
                for k, f in (("vmin", max), ("vmax", min)):
                    if n == "truncate_normal" and a.get(k) is not None and a[k] is not NONE:
                        x = f(x, v(k))
            self.done[c] = x
        return self.done[c]


def point(r, extra=None):
    env = {}
    far = r.random() < 0.2
    for k, g in RANGE.items():
        env[par(k)] = float(r.randint(int(g[0]), int(g[1]))) if len(g) == 3 else r.uniform(*g)
    env[par("Nq")] = env[par("Ni")] + env[par("Nex")]
    if far:
        env.update({par(k): r.uniform(*g) for k, g in FAR.items()})
    env.update(extra or {})
    return env


def compare(got, want, loc, n=40, links=None):
    r = random.Random(11)
    got, want = plain(got), plain(want)
    for _ in range(n):
        env = point(r)
        if links:
            links(env)
        try:
            a, b = Mean(env).val(got), Mean(env).val(want)
        except Unknown as e:
            return None, f"not evaluated: {e}"
        if math.isnan(b):
            continue
        if math.isnan(a) or abs(a - b) > 1e-6 * max(1e-3, abs(a), abs(b)):
            used = [s for s in env if occurs(got, s) or occurs(want, s)]
            return False, f"{a:.5g} instead of {b:.5g} at " + ", ".join(f"{s.a[0]}={env[s]:.4g}" for s in used[:6])
    return True, f"agrees at {n} points"


def mean(proj, book, cls, names, rule="mean", which="physics"):
    o = outputs(proj, cls)
    if o is None:
        book.ob(rule, cls, None, "plugin not evaluated")
        return
    out, r = o
    # a law stated in terms of another output of the plugin holds for what the plugin puts out
    w = spec(proj, which, cls, **{n: out.get(n, par(n)) if rule == "mean" else par(n) for n in names})
    for k, v in w.a:
        name = k.a[0]
        if name not in out:
            book.ob(rule, f"{cls}.{name}", None, "not provided", r.loc)
            continue
        got = out[name]
        v = leaves(v)
        ok, why = compare(got, v, r.loc)
        book.ob(rule, f"{cls}.{name}", ok, why, r.loc)


def always(proj, book, cls, names):
    """An output that is a function of others of the same plugin is that function of what was drawn."""
    o = outputs(proj, cls)
    if o is None:
        book.ob("always", cls, None, "plugin not evaluated")
        return
    out, r = o
    w = spec(proj, "physics", "always_" + cls, **{n: out.get(n, par(n)) for n in names})
    for k, v in w.a:
        name = k.a[0]
        if name not in out:
            book.ob("always", f"{cls}.{name}", None, "not provided", r.loc)
            continue
        got, want = plain(out[name]), plain(leaves(v))
        rr = random.Random(29)
        ok, why = True, "holds for 40 choices of inputs and draws"
        for _ in range(40):
            pt = Any(point(rr), rr)
            try:
                a, b = pt.val(got), pt.val(want)
            except Unknown as e:
                ok, why = None, f"not evaluated: {e}"
                break
            if math.isnan(a) or abs(a - b) > 1e-6 * max(1, abs(b)):
                ok, why = False, f"{a:.5g} where the other outputs give {b:.5g}"
                break
        book.ob("always", f"{cls}.{name}", ok, why, r.loc)


def unit(a):
    """A normal draw of width one, scaled afterwards."""
    s = a.get("std")
    return s is not None and (isc(s, 1) or s.op == "f" and s.a[0] in ("ones", "ones_like") or s.op == "call" and head(s.a[0]).split(".")[-1] in ("ones", "ones_like"))


def scaled(out, x):
    """The width a draw of width one has in the output it enters."""
    node = T("item", x, C(1))
    for t in out.values():
        t = rewrite(canon(t), lambda y: y.a[1][0] if y.op == "f" and y.a[0] in ("round", "toint", "rint", "around") else y.a[0].a[0] if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] in ("round", "astype") else y)
        n = canon(node)
        if occurs(t, n):
            hi, lo = subst(t, {n: C(1e-4)}), subst(t, {n: C(-1e-4)})
            return T("bin", "/", T("f", "abs", (T("bin", "-", hi, lo),), ()), C(2e-4))
    return None


def spread(proj, book, cls, names):
    o = outputs(proj, cls)
    if o is None:
        book.ob("spread", cls, None, "plugin not evaluated")
        return
    out, r = o
    w = spec(proj, "physics", "spread_" + cls, **{n: par(n) for n in names})
    seen = {}
    for t in out.values():
        for x in walk(t):
            if x.op == "call" and (d := Draws({}).rg(x) if head(x.a[0]).startswith("appletree.randgen.") and head(x.a[0]).split(".")[-1] in SIG else None):
                seen[x] = d
    want = list(w.a) if w.op in ("list", "tuple") else [w]
    ns = [(d[0], scaled(out, x) if unit(d[2]) else width(*d)) for x, d in seen.items()]
    sure = [not unit(d[2]) for d in seen.values()]
    if len(ns) < len(want):
        raw = any(contains(t, lambda x: x.op == "call" and head(x.a[0]).startswith(("jax.random", "numpyro"))) for t in out.values())
        book.ob("spread", cls, None if raw else False, f"drawn: {', '.join(k for k, _ in ns) or 'nothing'}; {len(want)} fluctuations are stated", r.loc)
        return
    if len(ns) > len(want) or len(ns) > 4:
        book.ob("spread", cls, None, f"{len(ns)} draws, {len(want)} stated", r.loc)
        return
    best = None
    for p in itertools.permutations(want):
        got = [compare(g, v, r.loc) if g is not None else (None, f"width of a {k} draw") for (k, g), v in zip(ns, p)]
        got = [(None, y) if o is False and not s else (o, y) for (o, y), s in zip(got, sure)]
        if all(o for o, _ in got):
            best = (True, "; ".join(f"{k}: {y}" for (k, _), (_, y) in zip(ns, got)))
            break
        if any(o is None for o, _ in got):
            best = best if best and best[0] is None else (None, next(y for o, y in got if o is None))
        elif best is None:
            best = (False, "; ".join(f"width of the {k} draw: {y}" for (k, _), (o, y) in zip(ns, got) if not o))
    book.ob("spread", cls, *best, r.loc)


def width(n, c, a):
    """Formula for the standard deviation of a draw, before it is truncated."""
    m, b = (lambda x, y: T("bin", "*", x, y)), (lambda o, x, y: T("bin", o, x, y))
    root = lambda x: b("**", x, C(0.5))
    if n in ("normal", "truncate_normal"):
        return a.get("std")
    if n in ("binomial", "binomial_hybrid"):
        return root(m(a["n"], m(a["p"], b("-", C(1), a["p"]))))
    if n == "poisson":
        return root(a["lam"])
    if n == "skewnormal":
        s = b("**", a["a"], C(2))
        return m(a["scale"], root(b("-", C(1), b("/", m(C(2 / math.pi), s), b("+", C(1), s)))))
    if n == "uniform":
        return m(b("-", a["vmax"], a["vmin"]), C(12 ** -0.5))
    if n == "bernoulli":
        return root(m(a["p"], b("-", C(1), a["p"])))
    return None


def conserve(proj, book, cls, parts, total):
    o = outputs(proj, cls)
    if o is None:
        book.ob("conserve", cls, None, "plugin not evaluated")
        return
    out, r = o
    rr = random.Random(23)
    ts = [plain(out[p]) if p in out else None for p in parts]
    tot = plain(out[total]) if total in out else par(total)
    if None in ts:
        book.ob("conserve", cls, None, "not provided", r.loc)
        return
    for _ in range(60):
        pt = Any(point(rr), rr)
        try:
            a, b = [pt.val(t) for t in ts], pt.val(tot)
        except Unknown as e:
            book.ob("conserve", cls, None, f"not evaluated: {e}", r.loc)
            return
        if abs(sum(a) - b) > 1e-6 * max(1, abs(b)):
            book.ob("conserve", cls, False, f"{' + '.join(f'{p}={x:g}' for p, x in zip(parts, a))} is not {total}={b:g}", r.loc)
            return
    book.ob("conserve", cls, True, f"{' + '.join(parts)} = {total} for 60 choices of inputs and draws", r.loc)


def query(proj, book, cls, name, pos):
    c = proj.cls(cls)
    f = proj.method(cls, "simulate") if c else None
    if f is None:
        book.ob("query", f"{cls}.{name}", None, "not found")
        return
    e = World(proj, opaque=lambda g: g.mod.name in ("appletree.randgen", "appletree.config"))
    r = e.run(f, cls=c)
    cs = [x for x in walk(r.ret) if x.op == "call" and x.a[0] is attr(SELF, name, "apply")] if r.ret is not None else []
    if not cs:
        gone = r.ret is not None and not contains(r.ret, lambda x: x.op == "attr" and x.a[1] == name) and not undecidable(r.ret)
        book.ob("query", f"{cls}.{name}", False if gone else None, "the map does not enter the result" if gone else "query not recognised", f.loc)
        return
    for x in dict.fromkeys(cs):
        p = x.a[1][0] if x.a[1] else dict(x.a[2]).get("pos")
        got = coords(p)
        if got is None:
            book.ob("query", f"{cls}.{name}", None, f"position {show(p)[:60]}", f.loc)
            continue
        ok = len(got) == len(pos)
        why = f"queried at ({', '.join(show(g)[:30] for g in got)})"
        if ok:
            for g, w in zip(got, pos):
                w = T("bin", "**", T("bin", "+", T("bin", "**", par("x"), C(2)), T("bin", "**", par("y"), C(2))), C(0.5)) if w == "$r" else par(w)
                o, _ = compare(leaves(g), w, f.loc)
                ok = False if o is False else None if o is None and ok is not False else ok
        book.ob("query", f"{cls}.{name}", ok, why, f.loc)


def coords(p):
    """Coordinates of a query: a quantity, or several stacked as columns."""
    t = p
    n = 0
    while True:
        if t.op == "attr" and t.a[1] == "T":
            t = t.a[0]
            n += 1
        elif t.op == "call" and head(t.a[0]).split(".")[-1] in ("transpose", "asarray", "array") and t.a[1]:
            n += head(t.a[0]).endswith("transpose")
            t = t.a[1][0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("transpose",) and not t.a[1]:
            t = t.a[0].a[0]
            n += 1
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "astype":
            t = t.a[0].a[0]
        else:
            break
    if t.op == "call" and head(t.a[0]).split(".")[-1] in ("stack", "vstack", "column_stack", "array", "asarray") and t.a[1]:
        h = head(t.a[0]).split(".")[-1]
        a = t.a[1][0]
        if a.op not in ("list", "tuple"):
            return None
        ax = dict(t.a[2]).get("axis", t.a[1][1] if len(t.a[1]) > 1 else C(0))
        col = h == "column_stack" or ax.op == "const" and ax.a[0] in (-1, 1)
        if (n % 2 == 1) == col:
            return None
        return list(a.a)
    if t.op in ("list", "tuple"):
        return list(t.a) if n % 2 == 1 else None
    if n or t.op == "call" and head(t.a[0]).split(".")[-1] in ("stack", "concatenate", "hstack", "dstack"):
        return None
    return [t]
