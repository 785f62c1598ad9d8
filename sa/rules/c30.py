"""C30: energies and positions follow the configured spectra."""

import json
import math
import os
import random

from ..algebra import canon
from ..help import *
from ..numer import Point, Unknown, plain
from ..plug import configs, plugins, value
from ..terms import show
from ..world import World
from . import c32

META = {
    "level": "other",
    "technique": "symbolic evaluation of spectrum plugins and of the pdf-to-cdf conversion; inverse-transform identities tested on vectors of points",
    "explain": "The conversion of a spectrum given as a density is evaluated to formulas over vectors and compared with the integral of the density: same "
               "lengths, nondecreasing, ending at one, each value between the integrals up to the neighbouring grid points, in the roles (coordinate, map) "
               "that inverse-transform sampling needs.  Plugins that sample are evaluated to formulas over their uniform draws and compared with the "
               "quantile functions of the stated distributions: uniform between the configured limits, uniform in a cylinder, inverse of the cdf.",
    "rules": {
        "integral": "a density is integrated to its cumulative distribution: nondecreasing, normalised, aligned with its abscissa",
        "order": "a map given as (x, pdf) is turned into (cdf, x); any other map is stored as it is",
        "sample": "a map over cumulative probability is queried at uniform probabilities, one per event",
        "uniform": "limits, volume and angle: what is drawn covers the configured range evenly",
        "mono": "mono-energetic spectra give the configured energy; spread ones draw with the configured parameters",
    },
    "assumptions": ["randgen draws have the distributions they are named after (C31)", "interpolators are those of C08"],
}
CS, MP = par("cs"), par("mp")
NUMPY = ("numpy.", "jax.numpy.")


def check(proj, book):
    book.step("integral", integral, proj, book)
    book.step("order", order, proj, book)
    book.step("sample", sample, proj, book)
    book.step("uniform", uniform, proj, book)
    book.step("position", position, proj, book)
    book.step("mono", mono, proj, book)
    book.floor("integral", 2)
    book.floor("uniform", 4)


# ------------------------------------------------------------------ vectors
class Vec(Point):
    """Values are numbers or lists of numbers."""

    def _val(self, t):
        op = t.op
        if op in ("list", "tuple"):
            return [self.val(x) for x in t.a]
        if op == "bin":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            return self.zip(lambda x, y: Point({par("a"): x, par("b"): y}).val(T("bin", t.a[0], par("a"), par("b"))), a, b)
        if op == "un":
            return self.zip(lambda x: Point({par("a"): x}).val(T("un", t.a[0], par("a"))), self.val(t.a[1]))
        if op == "slice_of":
            return self.cut(self.val(t.a[0]), t.a[1])
        if op == "item":
            v = self.val(t.a[0])
            if not isinstance(v, list):
                raise Unknown("item of a number")
            k = t.a[1]
            if k.op == "tuple" and len(k.a) == 1:
                k = k.a[0]
            if k.op == "slice":
                return self.cut(v, k)
            i = self.val(k)
            if isinstance(i, list) or i != int(i) or not -len(v) <= i < len(v):
                raise Unknown("index")
            return v[int(i)]
        if op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("cumsum", "sum", "astype", "copy", "max", "min", "tolist", "mean"):
            return self.fn(T("f", t.a[0].a[1], (t.a[0].a[0],), t.a[2]))
        if op == "call" and head(t.a[0]) in ("builtins.len", "builtins.list", "builtins.tuple", "builtins.sum", "builtins.float", "builtins.max", "builtins.min"):
            return self.fn(T("f", head(t.a[0])[9:], t.a[1], t.a[2]))
        return super()._val(t)

    def cut(self, v, k):
        if not isinstance(v, list):
            raise Unknown("slice of a number")
        ks = [None if x is NONE else self.val(x) for x in k.a]
        if any(isinstance(x, list) for x in ks):
            raise Unknown("slice")
        return v[slice(*[None if x is None else int(x) for x in ks])]

    @staticmethod
    def zip(f, *vs):
        n = {len(v) for v in vs if isinstance(v, list)}
        if not n:
            return f(*vs)
        if 1 in n and len(n) == 2:
            vs = [v * max(n) if isinstance(v, list) and len(v) == 1 else v for v in vs]
            n = {max(n)}
        if len(n) != 1:
            raise Unknown("shapes do not match")
        return [f(*[v[i] if isinstance(v, list) else v for v in vs]) for i in range(n.pop())]

    def fn(self, t):
        n, args, kw = t.a
        if n in ("array", "asarray", "astype", "copy", "atleast_1d", "ravel", "tolist", "list", "tuple", "float", "ascontiguousarray", "stop_gradient", "float64", "float32"):
            return self.val(args[0])
        a = [self.val(x) if x is not NONE else None for x in args]
        v = a[0] if a else None
        if n in ("cumsum", "sum", "nansum", "diff", "mean", "len", "max", "min", "flip", "prod", "cumprod", "trapezoid", "trapz", "concatenate", "append", "hstack", "insert", "convolve", "dot", "size", "nancumsum"):
            if n in ("concatenate", "hstack"):
                out = []
                for x in v:
                    out += x if isinstance(x, list) else [x]
                return out
            if n == "append":
                return (v if isinstance(v, list) else [v]) + (a[1] if isinstance(a[1], list) else [a[1]])
            if n == "insert":
                return v[:int(a[1])] + [a[2]] + v[int(a[1]):]
            if not isinstance(v, list) or any(isinstance(x, list) for x in v):
                raise Unknown(n)
            if n in ("cumsum", "nancumsum"):
                out, s = [], 0.0
                for x in v:
                    s += x
                    out.append(s)
                return out
            if n in ("sum", "nansum"):
                return float(sum(v))
            if n == "diff":
                return [y - x for x, y in zip(v, v[1:])]
            if n == "mean":
                return sum(v) / len(v)
            if n in ("len", "size"):
                return float(len(v))
            if n in ("max", "min"):
                return max(v) if n == "max" else min(v)
            if n == "flip":
                return v[::-1]
            if n in ("trapezoid", "trapz"):
                x = a[1] if len(a) > 1 else dict(kw).get("x")
                x = self.val(x) if isinstance(x, Term) else x
                if not isinstance(x, list):
                    raise Unknown(n)
                return sum((x[i + 1] - x[i]) * (v[i + 1] + v[i]) / 2 for i in range(len(v) - 1))
            if n == "dot":
                return sum(x * y for x, y in zip(v, a[1]))
            raise Unknown(n)
        if any(isinstance(x, list) for x in a):
            ps = [par(f"$v{i}") for i in range(len(a))]
            if any(x is None for x in a):
                raise Unknown(n)
            return self.zip(lambda *xs: Point(dict(zip(ps, xs))).val(T("f", n, tuple(ps), kw)), *a)
        return super().fn(t)

    def other(self, t):
        raise Unknown(f"{t.op} {head(t.a[0]) if t.op == 'call' else ''}")


def value_of(t, env):
    return Vec(env).val(canon(t))


def samples(n=12):
    r = random.Random(5)
    for i in range(n):
        m = r.randint(3, 9)
        x, s = [], r.uniform(0, 5)
        for _ in range(m):
            x.append(s)
            s += r.uniform(0.05, 3)
        y = [r.uniform(0.02, 4) for _ in x]
        yield x, y


def steps(x, y):
    c = [0.0]
    for i in range(len(x) - 1):
        c.append(c[-1] + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2)
    return c


def cumulative(xs, cs, x, y, norm):
    """Why (xs, cs) is not the cumulative distribution of density y over grid x; None if it is."""
    if not isinstance(xs, list) or not isinstance(cs, list):
        return "not two vectors"
    if len(xs) != len(cs):
        return f"{len(xs)} abscissae for {len(cs)} values"
    if len(xs) < len(x) - 1:
        return f"{len(xs)} points for {len(x)} grid points"
    full = steps(x, y)
    k = full[-1] if norm else 1.0
    tol = 1e-6
    if any(b < a - tol for a, b in zip(cs, cs[1:])) or any(b < a - tol for a, b in zip(xs, xs[1:])):
        return "decreases"
    if abs(cs[-1] - full[-1] / k) > tol * max(1, cs[-1]):
        return f"ends at {cs[-1]:.4g}, not {full[-1] / k:.4g}"
    if xs[0] < x[0] - tol or xs[-1] > x[-1] + tol:
        return "leaves the range of the spectrum"
    for v, c in zip(xs, cs):
        i = max((j for j in range(len(x)) if x[j] <= v + tol), default=0)
        lo = full[i]
        hi = full[min(i + 1, len(x) - 1)]
        if abs(x[i] - v) <= tol:   # on a grid point
            hi = lo
        if not lo / k - tol <= c <= hi / k + tol:
            return f"{c:.4g} at {v:.4g}, where the integral is between {lo / k:.4g} and {hi / k:.4g}"
    return None


def test(book, rule, inst, f, loc, detail, n=12):
    try:
        for x, y in samples(n):
            why = f(x, y)
            if why:
                book.ob(rule, inst, False, f"{why} for x={[round(v, 2) for v in x]}, pdf={[round(v, 2) for v in y]}", loc)
                return
    except Unknown as e:
        book.ob(rule, inst, None, f"not evaluated: {e}", loc)
        return
    book.ob(rule, inst, True, detail, loc)


def integral(proj, book):
    for name in ("integrate_midpoint", "cumulative_integrate_midpoint"):
        r = run(proj, None, name, args={"x": CS, "y": MP})

        def f(x, y, r=r, name=name):
            v = value_of(r.ret, {CS: x, MP: y})
            if name == "integrate_midpoint":
                want = steps(x, y)[-1]
                return None if not isinstance(v, list) and abs(v - want) <= 1e-6 * max(1, want) else f"{v} instead of {want:.5g}"
            return cumulative(v[0], v[1], x, y, False) if isinstance(v, list) and len(v) == 2 else "not a pair"
        if r.ret is None:
            book.ob("integral", name, None, "not evaluated", r.loc)
            continue
        test(book, "integral", name, f, r.loc, "integral of the density on 12 grids")
    r = run(proj, "Map", "pdf_to_cdf", args={"x": CS, "pdf": MP})

    def g(x, y):
        v = value_of(r.ret, {CS: x, MP: y})
        return cumulative(v[0], v[1], x, y, True) if isinstance(v, list) and len(v) == 2 else "not a pair"
    if r.ret is None:
        book.ob("integral", "pdf_to_cdf", None, "not evaluated", r.loc)
    else:
        test(book, "integral", "pdf_to_cdf", g, r.loc, "normalised cumulative distribution on 12 grids")


def order(proj, book):
    from .c20 import meth
    for name in ("pdf", "cdf", "energy"):
        data = T("dict", (C("coordinate_type"), C("point")), (C("coordinate_name"), C(name)), (C("coordinate_system"), CS), (C("map"), MP))
        r = meth(proj, "Map", "build_point", {"method": "LERP", "name": "a_map"}, args={"data": data}, opaque=("_validate_log_coords",))
        cs, mp, cn = (r.ev.heap.get((SELF, k)) for k in ("coordinate_system", "map", "coordinate_name"))
        loc = r.func.loc
        if cs is None or mp is None:
            book.ob("order", name, None, "coordinates or map not stored", loc)
            continue

        def f(x, y):
            a, b = value_of(cs, {CS: x, MP: y}), value_of(mp, {CS: x, MP: y})
            if name == "pdf":
                return cumulative(b, a, x, y, True)
            return None if a == x and b == y else "the map is changed"
        test(book, "order", name, f, loc, "a density becomes (cdf, x)" if name == "pdf" else "stored as it is")
        if name == "pdf" and cn is not None:
            book.ob("order", "name", True if isc(cn, "cdf") else False if cn.op == "const" else None, f"the coordinate is called {show(cn)[:40]} afterwards", loc)


# ------------------------------------------------------------------ draws
class At(c32.Draws):
    """Draws at given quantiles; the order of the events does not matter."""

    def fn(self, t):
        if t.a[0] in ("sort", "flip", "permutation") and len(t.a[1]) == 1:
            return self.val(t.a[1][0])
        return super().fn(t)

    def __init__(self, env, u):
        super().__init__(env)
        self.u = u

    def drawn(self, n, c, a):
        if n != "uniform":
            raise Unknown(f"{n} draw")
        return self.val(a["vmin"]) + (self.val(a["vmax"]) - self.val(a["vmin"])) * self.u[c]


def uses(ts):
    out = {}
    for t in ts:
        for x in walk(t):
            if x.op == "call" and head(x.a[0]).startswith("appletree.randgen.") and head(x.a[0]).split(".")[-1] in c32.SIG and any(contains(t, lambda y: y is T("item", x, C(1))) for t in ts):
                out[x] = c32.Draws({}).rg(x)
    return out


def sized(book, rule, inst, d, loc):
    """One draw per event."""
    sh = d[2].get("shape")
    b = par("batch_size")
    if sh is None or sh is NONE:
        shaped = any(isinstance(v, Term) and contains(v, lambda x: x.op == "call" or x is b) for v in d[2].values())
        book.ob(rule, inst, None if shaped else False, "one number is drawn for all events" if not shaped else "shape from the arguments", loc)
        return
    if sh.op in ("tuple", "list") and len(sh.a) == 1:
        sh = sh.a[0]
    ok = sh is b
    const = sh.op == "const" or sh.op in ("tuple", "list") and all(x.op == "const" for x in sh.a)
    book.ob(rule, inst, True if ok else False if const else None, f"drawn with shape {show(d[2]['shape'])[:60]}", loc)


def env_of(r, vals):
    env = c32.point(r)
    env.update({par(k): v for k, v in vals.items()})
    return env


def uniform(proj, book):
    for cls, lo, hi in (("UniformEnergySpectra", "lower_energy", "upper_energy"), ("UniformEnergiesSpectra", "clip_lower_energy", "clip_upper_energy")):
        o = c32.outputs(proj, cls)
        if o is None or "energy" not in o[0]:
            book.ob("uniform", cls, None, "plugin not evaluated")
            continue
        t = plain(o[0]["energy"])
        ds = uses([o[0]["energy"]])
        dp = [x for x in walk(t) if x.op == "call" and head(x.a[0]).startswith("appletree.randgen.uniform")]
        dp = list(dict.fromkeys(dp))
        r = random.Random(3)
        ok, why = None, f"{len(dp)} draws"
        if len(dp) == 1:
            fwd = rev = True
            why = ""
            try:
                for _ in range(30):
                    a, b, u = r.uniform(0, 5), r.uniform(6, 30), r.random()
                    v = At(env_of(r, {lo: a, hi: b}), {dp[0]: u}).val(t)
                    fwd &= abs(v - (a + (b - a) * u)) < 1e-6
                    rev &= abs(v - (b - (b - a) * u)) < 1e-6
                    if not (fwd or rev):
                        why = f"{v:.4g} at probability {u:.3f} between {a:.4g} and {b:.4g}"
                        break
                ok = fwd or rev
            except Unknown as e:
                ok, why = None, f"not evaluated: {e}"
        elif not dp and not contains(t, lambda x: x.op == "call"):
            ok, why = False, "nothing is drawn"
        book.ob("uniform", cls, ok, why or "quantile function of the uniform distribution between the limits", o[1].loc)
        for d in ds.values():
            sized(book, "uniform", cls + ":size", d, o[1].loc)


def position(proj, book):
    cls = "PositionSpectra"
    o = c32.outputs(proj, cls)
    if o is None or not {"x", "y", "z"} <= set(o[0]):
        book.ob("uniform", cls, None, "plugin not evaluated")
        return
    loc = o[1].loc
    X, Y, Z = (plain(o[0][k]) for k in "xyz")
    dp = list(dict.fromkeys(x for t in (X, Y, Z) for x in walk(t) if x.op == "call" and head(x.a[0]).startswith("appletree.randgen.uniform")))
    used = lambda t: [d for d in dp if contains(t, lambda x: x is T("item", d, C(1)))]
    dz, dxy = used(Z), [d for d in dp if d in used(X) or d in used(Y)]
    r = random.Random(4)
    other = [x for t in (X, Y, Z) for x in walk(t) if x.op == "call" and head(x.a[0]).startswith("appletree.randgen.") and x not in dp]
    if other or len(dz) > 1 or len(dxy) > 2:
        book.ob("uniform", cls, None, "sampled in another way", loc)
        return

    def run_(t, env, u):
        return At(env, u).val(t)
    # depth
    try:
        fwd = rev = bool(dz)
        shared = bool(set(dz) & set(dxy))
        for _ in range(30):
            env = env_of(r, {"z_min": -140 + 10 * r.random(), "z_max": -20 + 10 * r.random(), "r_max": r.uniform(30, 70)})
            u = {d: r.random() for d in dp}
            v, a, b = run_(Z, env, u), env[par("z_min")], env[par("z_max")]
            if dz:
                fwd &= abs(v - (a + (b - a) * u[dz[0]])) < 1e-6
                rev &= abs(v - (b - (b - a) * u[dz[0]])) < 1e-6
        book.ob("uniform", cls + ":z", (fwd or rev) and not shared, "depth shares a draw with the radius or angle" if shared else "uniform between the limits" if fwd or rev else "not uniform between z_min and z_max", loc)
    except Unknown as e:
        book.ob("uniform", cls + ":z", None, f"not evaluated: {e}", loc)
    # disk: of two draws one gives the square of the radius, the other the angle
    try:
        ok, why = False, "not uniform over the disk of radius r_max"
        if len(dxy) == 2:
            for dr, da in (dxy, dxy[::-1]):
                good = True
                s = set()
                for _ in range(30):
                    env = env_of(r, {"r_max": r.uniform(30, 70), "z_min": -130.0, "z_max": -10.0})
                    u = {d: r.random() for d in dp}
                    x, y = run_(X, env, u), run_(Y, env, u)
                    q = (x * x + y * y) / env[par("r_max")] ** 2
                    u0 = dict(u)
                    u0[da] = 0.0
                    x0, y0 = run_(X, env, u0), run_(Y, env, u0)
                    turn = (math.atan2(y, x) - math.atan2(y0, x0)) / 2 / math.pi
                    rad = min((abs(q - u[dr]), "+"), (abs(q - 1 + u[dr]), "-"))
                    ang = min((abs((turn - sg * u[da] + 0.5) % 1 - 0.5), sg) for sg in (1, -1))
                    good &= rad[0] < 1e-6 and ang[0] < 1e-6
                    s.add((rad[1], ang[1]))
                if good and len(s) == 1:
                    ok, why = True, "radius squared and angle are uniform"
        elif len(dxy) < 2:
            why = f"{len(dxy)} draws for two coordinates"
        book.ob("uniform", cls + ":xy", ok, why, loc)
    except Unknown as e:
        book.ob("uniform", cls + ":xy", None, f"not evaluated: {e}", loc)
    for i, d in enumerate(uses([o[0][k] for k in "xyz"]).values()):
        sized(book, "uniform", f"{cls}:size{i + 1}", d, loc)


# ------------------------------------------------------------------ maps over probability
def over_probability(proj):
    """(plugin class, option name, file) of the maps whose default file is over cumulative probability."""
    files = {}
    for d, _, fs in os.walk(os.path.join(proj.repo, "appletree")):
        for f in fs:
            if f.endswith(".json"):
                files[f] = os.path.join(d, f)
    for c in plugins(proj):
        c = getattr(c, "cls", c)
        for cf in configs(c) or ():
            if cf.kind != "Map":
                continue
            df = value(cf.cls if hasattr(cf, "cls") else c, cf.kws["default"]) if hasattr(cf, "kws") and "default" in cf.kws else None
            p = files.get(os.path.basename(df)) if isinstance(df, str) else None
            if p is None:
                continue
            try:
                with open(p) as fh:
                    nm = json.load(fh).get("coordinate_name")
            except (OSError, ValueError):
                continue
            if nm in ("cdf", "pdf"):
                yield c, cf.name, df


def sample(proj, book):
    n = 0
    for c, opt, df in over_probability(proj):
        f = c.find_method("simulate")
        if f is None:
            continue
        n += 1
        inst = f"{c.name}.{opt}"
        e = World(proj, opaque=lambda g: g.mod.name in ("appletree.randgen", "appletree.config"))
        r = e.run(f, cls=c)
        qs = list(dict.fromkeys(x for x in walk(r.ret) if x.op == "call" and x.a[0] is attr(SELF, opt, "apply"))) if r.ret is not None else []
        if not qs:
            book.ob("sample", inst, None, "query not found", f.loc)
            continue
        for q in qs:
            p = q.a[1][0] if q.a[1] else dict(q.a[2]).get("pos")
            t = plain(c32.leaves(p))
            ds = list(dict.fromkeys(x for x in walk(t) if x.op == "call" and head(x.a[0]).startswith("appletree.randgen.")))
            last = [d for d in ds if contains(t, lambda x: x is T("item", d, C(1)))]
            if any(head(d.a[0]) != "appletree.randgen.uniform" for d in last) or len(last) > 1:
                kinds = [head(d.a[0]).split(".")[-1] for d in last]
                book.ob("sample", inst, False if len(last) == 1 and kinds[0] in ("normal", "truncate_normal", "poisson", "skewnormal", "gamma") and t is T("item", last[0], C(1)) else None, f"{df} queried at draws of {', '.join(kinds)}", f.loc)
                continue
            if not last:
                # a quantity is no probability
                book.ob("sample", inst, False if not contains(t, lambda x: x.op in ("call", "unknown", "opaque", "loop")) else None, f"{df}, over cumulative probability, is queried at {show(t)[:60]}", f.loc)
                continue
            rr = random.Random(9)
            fwd = rev = True
            try:
                for _ in range(20):
                    u = rr.random()
                    v = At(c32.point(rr), {last[0]: u}).val(t)
                    fwd &= abs(v - u) < 1e-6
                    rev &= abs(v - 1 + u) < 1e-6
            except Unknown as ex:
                book.ob("sample", inst, None, f"not evaluated: {ex}", f.loc)
                continue
            book.ob("sample", inst, fwd or rev, f"{df} is queried at probabilities uniform on [0, 1]" if fwd or rev else f"{df} is queried at {show(t)[:80]}", f.loc)
            d = c32.Draws({}).rg(next(x for x in walk(c32.leaves(p)) if x.op == "call" and head(x.a[0]) == "appletree.randgen.uniform"))
            sh = d[2].get("shape")
            if sh is None or sh is NONE:
                book.ob("sample", inst + ":size", False, "one probability is drawn for all events", f.loc)
            else:
                book.ob("sample", inst + ":size", False if sh.op == "const" or sh.op in ("tuple", "list") and sh.a and all(x.op == "const" for x in sh.a) else True if contains(sh, lambda x: x.op == "param") else None, f"shape {show(sh)[:50]}", f.loc)
    o = c32.outputs(proj, "FixedEnergySpectra")
    if o is not None and "energy" in o[0]:
        ok, why = c32.compare(o[0]["energy"], par("energy_spectrum"), o[1].loc, links=lambda env: env.__setitem__(par("energy_spectrum"), env[par("energy")]))
        book.ob("sample", "FixedEnergySpectra.energy", ok, f"the energy is the value of the map: {why}", o[1].loc)
    book.floor("sample", 1)


def mono(proj, book):
    o = c32.outputs(proj, "MonoEnergySpectra")
    if o is None or "energy" not in o[0]:
        book.ob("mono", "MonoEnergySpectra", None, "plugin not evaluated")
    else:
        ok, why = c32.compare(o[0]["energy"], par("mono_energy"), o[1].loc, links=lambda env: env.__setitem__(par("mono_energy"), env[par("energy")]))
        book.ob("mono", "MonoEnergySpectra", ok, f"the configured energy: {why}", o[1].loc)
    o = c32.outputs(proj, "MonoEnergiesSpectra")
    if o is None or not {"energy", "energy_center"} <= set(o[0]):
        book.ob("mono", "MonoEnergiesSpectra", None, "plugin not evaluated")
        return
    loc = o[1].loc
    t = o[0]["energy"]
    val = par("energy_twohalfnorm")
    ds = list(dict.fromkeys(x for x in walk(t) if x.op == "call" and head(x.a[0]) == "appletree.randgen.twohalfnorm"))
    if len(ds) != 1:
        gone = not ds and not contains(t, lambda x: x.op == "call" and "rand" in head(x.a[0]))
        book.ob("mono", "MonoEnergiesSpectra", False if gone else None, "energies are not drawn" if gone else f"{len(ds)} draws", loc)
    else:
        d = ds[0]
        a = dict(zip(SIGT, d.a[1]))
        kw = dict((k, v) for k, v in d.a[2])
        star = [v for k, v in d.a[2] if k is None or k == "**"]
        a.update({k: v for k, v in kw.items() if k not in (None, "**")})
        for k in ("mu", "sigma_pos", "sigma_neg"):
            v = a.get(k)
            v = strip(v)
            if v is None and star:
                book.ob("mono", f"MonoEnergiesSpectra:{k}", True if star[0] is val else None, "all parameters of the option are passed on", loc)
            elif v is not None and v.op == "item" and v.a[0] is val and v.a[1].op == "const":
                book.ob("mono", f"MonoEnergiesSpectra:{k}", v.a[1].a[0] == k, f"{k} is {show(v)[:50]}", loc)
            else:
                book.ob("mono", f"MonoEnergiesSpectra:{k}", None, f"{k} is {show(v)[:50] if v is not None else None}", loc)
        sh = a.get("shape")
        if sh is None or sh is NONE:
            book.ob("mono", "MonoEnergiesSpectra:size", False, "no shape: the same numbers for every event", loc)
        elif sh.op in ("tuple", "list"):
            first = sh.a[0]
            ok = first is par("batch_size") and len(sh.a) == 2
            book.ob("mono", "MonoEnergiesSpectra:size", True if ok and not isc(sh.a[1], 1) else False if first.op == "const" or len(sh.a) == 1 else None, f"shape {show(sh)[:60]}", loc)
    e = strip(o[0]["energy_center"])
    if e is not None and e.op == "item" and e.a[0] is val and e.a[1].op == "const":
        book.ob("mono", "MonoEnergiesSpectra:center", e.a[1].a[0] == "mu", f"the centre is {e.a[1].a[0]} of the option", loc)
    else:
        book.ob("mono", "MonoEnergiesSpectra:center", None, f"the centre is {show(e)[:60]}", loc)


SIGT = c32.SIG["twohalfnorm"]


def strip(t):
    while t is not None:
        if t.op == "call" and head(t.a[0]).split(".")[-1] in ("broadcast_to", "asarray", "array", "full", "tile") and t.a[1]:
            t = t.a[1][1] if head(t.a[0]).endswith("full") and len(t.a[1]) > 1 else t.a[1][0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "astype":
            t = t.a[0].a[0]
        else:
            return t
    return t
