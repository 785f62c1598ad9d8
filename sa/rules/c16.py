"""C16: outside the allowed range: prior -inf and no simulation; inside: the sum of the configured terms."""

from ..help import *

META = {
    "level": "other",
    "technique": "case analysis of the value-flow graph over the weak orders of value and bounds",
    "explain": "The log prior is evaluated to a closed-form sum over the fitted parameters; its per-parameter summand is "
               "specialised to every prior type and to all five weak orders of value and bounds and compared, as a rational normal "
               "form, with the prior of that type.  The posterior's paths are specialised to an infinite prior and every "
               "simulation call and key draw reachable under it is reported.",
    "rules": {
        "outside": "for a value below or above its allowed range the log prior is -inf on every path",
        "inside": "for a value inside (bounds included) the summand equals the prior term of the configured type",
        "domain": "the sum ranges over exactly the fitted parameters, once, with nothing else added",
        "density": "the two-sided Gaussian uses the lower sigma below the mode and the upper one above",
        "bypass": "no simulation, likelihood or key call is reachable when the log prior is not finite",
        "minus_inf": "the posterior returned for a non-finite prior is -inf",
    },
    "assumptions": ["allowed ranges are ordered pairs"],
}
TYPES = ("norm", "twohalfnorm", "free", "uniform", "fixed")
INF = {"numpy.inf", "jax.numpy.inf", "math.inf"}


def is_minf(t):
    t = canon(t)
    if t.op == "const":
        return t.a[0] == float("-inf")
    if t.op == "bin" and t.a[0] == "*" and isc(t.a[1], -1) and t.a[2].op == "global" and t.a[2].a[0] in INF:
        return True
    if t.op == "bin" and t.a[0] in ("+", "-"):
        return is_minf(t.a[1]) or (t.a[0] == "+" and is_minf(t.a[2]))
    return ratio_minf(t)


def ratio_minf(t):
    if t.op == "f" and t.a[0] == "array" and t.a[1]:
        x = t.a[1][0]
        return x.op == "const" and str(x.a[0]).strip().lower() in ("-inf", "-infinity")
    if t.op == "bin" and t.a[0] == "*" and isc(t.a[1], -1):
        x = t.a[2]
        return isc(x, float("inf")) or (x.op == "const" and str(x.a[0]).strip().lower() in ("inf", "infinity"))
    if t.op == "un" and t.a[0] == "-":
        return t.a[1].op == "global" and t.a[1].a[0] in INF
    return False


def check(proj, book):
    r = run(proj, "Parameter", "log_prior", opaque=opq("errors_to_two_half_norm_sigmas", "TwoHalfNorm.logpdf"))
    loc = r.loc
    fit = attr(SELF, "_parameter_fit")
    pd, pc = attr(SELF, "_parameter_dict"), attr(SELF, "par_config")
    early, main = [], None
    for g, t, h, l in r.exits:
        if is_minf(t):
            early.append(conj(g if isinstance(g, tuple) else (g,)))
        else:
            main = t if main is None else phi(conj(g if isinstance(g, tuple) else (g,)), t, main)
    dec = summands(main) if main is not None else None
    if dec is None or len(dec[1]) != 1:
        # a filtered or vectorised form this analysis has no closed form for
        book.ob("domain", "log_prior", None if dec is None or len(dec[1]) != 0 else False,
                "the log prior is not a single sum over the parameters: " + show(main)[:200], loc)
    else:
        plain, (S,) = dec[0], dec[1]
        base = srcof(S.src)
        known = base in (fit, pd, pc)
        book.ob("domain", "log_prior", (not plain and S.sign == 1) if known else None,
                f"sum over {show(S.src)[:60]}, plus {[show(p)[:60] for _, p in plain]}", loc)
        if known:
            el = S.el
            setting = idx(pc, el)
            V, R = idx(pd, el), idx(setting, "allowed_range")
            body0 = expand_star(S.term)
            earl = [instantiate(expand_star(g), el) for g in early]
            for pt in TYPES:
                if pt == "fixed" and base is fit:
                    continue
                m = {idx(setting, "prior_type"): C(pt),
                     T("cmp", "in", el, fit): TRUE if pt != "fixed" else FALSE,
                     T("cmp", "not in", el, fit): FALSE if pt != "fixed" else TRUE}
                b = subst(body0, m)
                es = [subst(g, m) for g in earl]
                want = spec(proj, "prior", pt, val=V, args=idx(setting, "prior_args"))
                for w, v in (("below", 0), ("lower", 1), ("within", 2), ("upper", 3), ("above", 4)):
                    vals = {V: v, idx(R, 0): 1, idx(R, 1): 3}
                    bw = order(b, vals)
                    ew = [order(g, vals) for g in es]
                    out = w in ("below", "above") and pt != "fixed"
                    if out:
                        ok = any(isc(g, True) for g in ew) or is_minf(bw)
                        if not ok:
                            opaque = any(not isc(g, False) for g in ew) or undecidable(bw)
                            ss = splits(bw)
                            ok = None if opaque or ss is None else all(is_minf(t) for _, t in ss)
                            if ok is False and any(symbols(canon(t)) & {"op:loopout", "op:unknown"} for _, t in ss):
                                ok = None
                        book.ob("outside", f"{pt}:{w}", ok, f"log prior of a {pt} parameter with value {w} its allowed range "
                                f"is {show(bw)[:160]}", loc)
                    else:
                        if any(not isc(g, False) for g in ew):
                            ok = False if any(isc(g, True) for g in ew) else None
                            got = "-inf"
                        else:
                            ok, got = same(bw, want), show(bw)[:200]
                        book.ob("inside", f"{pt}:{w}", ok, f"prior term of a {pt} parameter ({w}) is {got}, "
                                f"expected {show(want)[:200]}", loc)
    # two-sided Gaussian
    names = ("x", "mu", "sigma_pos", "sigma_neg")
    r2 = run(proj, "TwoHalfNorm", "logpdf")
    a = {n: par(n) for n in names}
    want = spec(proj, "prior", "logpdf", **a)
    book.ob("density", "TwoHalfNorm.logpdf", density(r2.ret, want), f"log density is {show(r2.ret)[:300]}", r2.loc)
    posterior(proj, book)
    book.floor("bypass", 2)


def density(got, want):
    """Equality below, above (the value at the mode itself is the same from both sides)."""
    res = True
    for x in (-1, 1):
        vals = {par("x"): x, par("mu"): 0}
        g, w = wherephi(order(got, vals)), wherephi(order(want, vals))
        s = same(g, w)
        res = s if s is False or res is True else res
    return res


def wherephi(t):
    def f(x):
        if x.op == "call" and fname(x.a[0]) == "where" and len(x.a[1]) == 3:
            return phi(*x.a[1])
        return x
    return rewrite(t, f)


SIM = ("get_log_likelihood", "_simulate_model_hist", "simulate_hist", "simulate", "simulate_weighted_data", "get_key",
       "multiple_simulations", "_simulate_yields", "get_num_events_accepted")


def lp_world(t, isLP, finite):
    """Evaluate tests of the log prior in the world where it is (not) finite."""
    def f(x):
        if x.op == "call" and len(x.a[1]) == 1 and isLP(x.a[1][0]):
            n = fname(x.a[0])
            v = {"isfinite": finite, "isinf": not finite, "isneginf": not finite, "isnan": False, "isposinf": False}.get(n)
            if v is not None:
                return C(v)
        if x.op == "cmp" and (isLP(x.a[1]) or isLP(x.a[2])):
            l, o = (x.a[1], x.a[2]) if isLP(x.a[1]) else (x.a[2], x.a[1])
            if is_minf(o):
                if x.a[0] in ("==", "<="):
                    return C(not finite) if x.a[0] == "==" or isLP(x.a[1]) else x
                if x.a[0] in ("!=",):
                    return C(finite)
                if x.a[0] == "<" and x.a[2] is l:  # -inf < LP
                    return C(finite)
        return x
    return rewrite(t, f)


def posterior(proj, book):
    r = run(proj, "Context", "log_posterior", opaque=opq("Parameter.log_prior", "set_parameter", "get_all_parameter",
                                                         "get_log_likelihood", "get_key"))
    isLP = lambda t: t.op == "attr" and t.a[1] == "log_prior" or (
        t.op == "call" and fname(t.a[0]) == "array" and len(t.a[1]) == 1 and isLP(t.a[1][0]))
    sims = [e for e in r.events if e.kind == "call" and head(e.fn).split(".")[-1] in SIM]
    for e in sims:
        n = head(e.fn).split(".")[-1]
        g = lp_world(conj(e.guard), isLP, False)
        ok = not feasible(g)
        if not ok and not any(contains(x, isLP) for x in e.guard) and any(
                contains(x, lambda y: y.op in ("unknown", "loopout", "mutated")) for x in e.guard):
            ok = None
        book.ob("bypass", f"log_posterior:{n}", ok, f"{n} is {'not ' if ok else ''}reachable when the log prior is -inf", e.loc)
    for g, t, h, l in r.exits:
        gg = lp_world(conj(g if isinstance(g, tuple) else (g,)), isLP, False)
        if not feasible(gg):
            continue
        v = item(t, C(0)) if t.op == "tuple" else t
        v = lp_world(v, isLP, False)
        ss = splits(phi(gg, v, T("other")))
        ok = None if ss is None else all(x.op == "other" or is_minf(x) or isLP(x) for _, x in ss)
        if ok is False and sims and any(not feasible(lp_world(conj(e.guard), isLP, False)) for e in sims) is False:
            ok = None  # already reported through the bypass rule
        book.ob("minus_inf", f"log_posterior", ok, f"with an infinite log prior the posterior is {show(v)[:120]}", l)
    fs = feasible(conj([lp_world(conj(e.guard), isLP, True) for e in sims[:1]])) if sims else True
    book.ob("bypass", "log_posterior:finite-prior-simulates", bool(sims) and fs,
            "with a finite log prior the likelihoods are evaluated", r.loc)
