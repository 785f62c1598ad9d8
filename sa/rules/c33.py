"""C33: the deterministic microphysics formulas are the published parametrisations."""

from . import c32

META = {
    "level": "other",
    "technique": "symbolic evaluation of plugins to closed formulas; identity testing against transcriptions of the published parametrisations",
    "explain": "Every plugin that computes a yield, a ratio, a recombination probability or a fluctuation strength without drawing is evaluated to a formula "
               "over its inputs and parameters, helpers and intermediate variables inlined, and compared at points over the physical range of all of them "
               "with the published parametrisation written in sa/specs/nest.py in another form than the source; one differing point refutes the identity.",
    "rules": {"law": "the output is the published function of inputs and parameters", "edge": "the limits the published form needs: yields and strengths are not negative, probabilities stay in [0, 1]",
              "guard": "below one quantum there are no photons and electrons, and no yield, ratio or probability is undefined where there are no quanta"},
    "assumptions": ["points away from the limits outputs are clipped to (rule edge covers the limits)"],
}
# outputs that must not leave these bounds, evaluated where the unclipped formula does: (plugin, output, low, high, {input: value})
EDGES = [
    ("RecombFluct", "recomb_std", 0, 1, {"rf0": 7.0, "rf1": 0.2, "energy": 5.0}), ("RecombFluct", "recomb_std", 0, 1, {"rf0": -2.0, "rf1": 0.2, "energy": 5.0}),
    ("QyNR", "charge_yield", 0, None, {"ThomasImel": -0.02, "energy": 5.0, "epsilon": 10.0, "zeta": 0.3, "eta": 2.0}),
    ("LyNR", "light_yield", 0, None, {"_Nq": 10.0, "energy": 5.0, "charge_yield": 50.0, "theta": 0.3, "iota": 2.0}), ("LyER", "light_yield", 0, None, {"w": 0.0137, "charge_yield": 90.0}),
    ("MeanExcitonIonER", "recombProb", 0, 1, {"nex_ni_ratio": 0.5, "_Nph": 10.0, "_Ne": 90.0}), ("OmegaER", "omega", 0, None, {"A_er": -0.3, "field": 20.0, "xi_er": 0.45, "omega_er": 0.2, "alpha3_er": -0.2, "elecFrac": 0.5}),
]
# what the published model says where a formula has no value or the yields leave their range of validity: (plugin, output, value or None: finite, inputs)
GUARDS = [
    ("MeanNphNe", "_Nph", 0, {"light_yield": 0.3, "charge_yield": 0.4, "energy": 1.0}), ("MeanNphNe", "_Ne", 0, {"light_yield": 0.3, "charge_yield": 0.4, "energy": 1.0}),
    ("MeanNphNe", "_Nph", 0.9, {"light_yield": 0.9, "charge_yield": 0.4, "energy": 1.0}), ("MeanNphNe", "_Ne", 0.4, {"light_yield": 0.9, "charge_yield": 0.4, "energy": 1.0}),
    ("MeanNphNe", "_Ne", 0.9, {"light_yield": 0.4, "charge_yield": 0.9, "energy": 1.0}), ("MeanNphNe", "_Nph", 0.4, {"light_yield": 0.4, "charge_yield": 0.9, "energy": 1.0}),
    ("MeanNphNe", "_Nph", 0, {"light_yield": 0.0, "charge_yield": 0.9, "energy": 1.0}), ("MeanNphNe", "_Ne", 0, {"light_yield": 0.0, "charge_yield": 0.9, "energy": 1.0}),
    *[("MeanExcitonIon", o, None, {"_Nph": 0.0, "_Ne": 0.0, "ThomasImel": 0.02}) for o in ("nex_ni_ratio", "alf", "elecFrac", "recombProb")],
    *[("MeanExcitonIon", o, None, {"_Nph": 30.0, "_Ne": 0.0, "ThomasImel": 0.02}) for o in ("nex_ni_ratio", "alf", "elecFrac", "recombProb")],
]


def check(proj, book):
    for f in c32.functions("nest"):
        book.step(f.name, c32.mean, proj, book, f.name, [a.arg for a in f.args.args], "law", "nest")
    for i, e in enumerate(EDGES):
        book.step(f"edge{i}", edge, proj, book, i, *e)
    for i, e in enumerate(GUARDS):
        book.step(f"guard{i}", guard, proj, book, i, *e)
    book.floor("law", 9)


def edge(proj, book, i, cls, name, lo, hi, at):
    import math
    import random

    from ..help import par
    from ..numer import Unknown, plain
    o = c32.outputs(proj, cls)
    inst = f"{cls}.{name}:{i + 1}"
    if o is None or name not in o[0]:
        book.ob("edge", inst, None, "plugin not evaluated")
        return
    env = c32.point(random.Random(2), {par(k): v for k, v in at.items()})
    try:
        v = c32.Mean(env).val(plain(o[0][name]))
    except Unknown as ex:
        book.ob("edge", inst, None, f"not evaluated: {ex}", o[1].loc)
        return
    bad = math.isnan(v) or lo is not None and v < lo - 1e-9 or hi is not None and v > hi + 1e-9
    book.ob("edge", inst, not bad, f"{v:.4g} at " + ", ".join(f"{k}={x:g}" for k, x in at.items()), o[1].loc)


def guard(proj, book, i, cls, name, want, at):
    import math
    import random

    from ..help import par
    from ..numer import Unknown, plain
    o = c32.outputs(proj, cls)
    inst = f"{cls}.{name}:{i + 1}"
    if o is None or name not in o[0]:
        book.ob("guard", inst, None, "plugin not evaluated")
        return
    try:
        v = c32.Mean(c32.point(random.Random(2), {par(k): x for k, x in at.items()})).val(plain(o[0][name]))
    except (Unknown, ZeroDivisionError) as ex:
        book.ob("guard", inst, None, f"not evaluated: {ex}", o[1].loc)
        return
    bad = math.isnan(v) or math.isinf(v) or want is not None and abs(v - want) > 1e-9
    book.ob("guard", inst, not bad, f"{v:.4g} at " + ", ".join(f"{k}={x:g}" for k, x in at.items()), o[1].loc)
