"""C20: a value outside the supported set of an enumerated option raises where it is used."""

import ast

from ..help import *
from ..world import World
from .c08 import lit
from ..terms import show

ZZ = "zz_unsupported"
META = {
    "level": "other",
    "technique": "exhaustiveness analysis of option dispatch: partial evaluation of every dispatch site at a value outside the supported set",
    "explain": "Every function that dispatches on an enumerated option is evaluated over all paths with the option bound to a value that is none of the "
               "supported ones (every comparison, membership test and table lookup on it folds), and with each supported value.  A path that "
               "returns normally for the unsupported value is reported; a supported value for which every path raises is reported too.",
    "rules": {
        "reject": "with an unsupported value no path returns normally",
        "accept": "with a supported value some path returns normally",
        "type": "a value of an unsupported type is rejected",
    },
    "assumptions": ["looking up a missing key in a literal table raises KeyError"],
}


def near(*vs):
    """Unsupported values that resemble supported ones."""
    out = [ZZ]
    for v in vs:
        for x in (f"zz_{v}", f"{v}_zz", v.upper(), v[:-1]):
            if x not in vs and x not in out:
                out.append(x)
    return out


def tlist(*x):
    return T("list", *[C(v) if not isinstance(v, Term) else v for v in x])


def tdict(d):
    return T("dict", *[(C(k), v if isinstance(v, Term) else C(v)) for k, v in d.items()])


def missing(t):
    """A lookup of a constant in a literal table that does not hold it."""
    for x in walk(t):
        if x.op == "item" and x.a[0].op == "dict" and x.a[1].op in ("const", "tuple") and all(
                isinstance(e, tuple) and isinstance(e[0], Term) and e[0].op in ("const", "tuple") for e in x.a[0].a):
            if not any(e[0] is x.a[1] for e in x.a[0].a):
                return True
    return False


def outcome(r, facts=(), secret=ZZ):
    """'raise' | 'return' | None.  facts: (predicate, bool) rewriting atoms of guards."""
    def world(g):
        m = {}
        for x in walk(g):
            for p, v in facts:
                if p(x):
                    m[x] = C(v)
        return subst(g, m) if m else g

    rs = [world(raise_guard(e)) for e in raises(r) if not caught(e)]
    ns = []
    for g, t, l in rets(r):
        g = world(g)
        if t.op == "noreturn" or isc(g, False) or missing(g) or missing(t):
            continue
        if not feasible(g) or implied(g, disj(rs)) and rs:
            continue
        ns.append(g)
    if any(isc(g, True) for g in rs):
        return "raise"
    # a lookup that fails on the way
    if any(e.kind in ("getitem", "call") and isc(world(guard_of(e)), True) and any(
            missing(x) for x in list(e.args or ()) + [e.term, e.value, e.fn] if isinstance(x, Term)) for e in r.events):
        return "raise"
    if not ns:
        return "raise"
    if any(contains(g, lambda y: y.op == "const" and isinstance(y.a[0], str) and (ZZ in y.a[0] or secret in y.a[0])) for g in ns):
        return None
    return "return"


def caught(e):
    return bool(getattr(e, "extra", None) and e.extra == "caught")


def site(proj, book, rule, name, r, want, facts=(), secret=ZZ):
    o = outcome(r, facts, secret)
    ok = None if o is None else o == want
    if not ok and o is not None and want == "return" and undecided_world(r):
        ok = None
    book.ob(rule, name, ok, f"{'no path returns' if o == 'raise' else 'a path returns normally' if o else 'undetermined'}", r.func.loc if hasattr(r, "func") else None)


def undecided_world(r):
    return False


def meth(proj, cls, name, heap=None, args=None, opaque=(), hook=None, kinds=None):
    f = proj.method(cls, name) if cls else proj.func(name)
    ev = World(proj, opaque=opq(*opaque) if opaque else None, kinds=kinds)
    if cls:
        # class level tables
        for c in reversed(proj.cls(cls).mro()):
            for n, x in c.attrs.items():
                if isinstance(x, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
                    v = lit(proj, c.mod, x)
                    if v is not None:
                        ev.heap[(SELF, n)] = v
    for k, v in (heap or {}).items():
        ev.heap[(SELF, k)] = v if isinstance(v, Term) else C(v)
    if hook:
        ev.hook = hook
    r = ev.run(f, cls=proj.cls(cls) if cls else None, args={k: v if isinstance(v, Term) else C(v) for k, v in (args or {}).items()})
    r.func = f
    r.ev = ev
    return r


def check(proj, book):
    for f in (binning, component, normalization, priors, posterior, maps, literature, kinds, formats, names, parameters, configs):
        book.step(f.__name__, f, proj, book)
    book.floor("reject", 8)


def binning(proj, book):
    sup = ("meshgrid", "equiprob", "irreg")
    for bt in sup + tuple(near(*sup)):
        for dim in (1, 2):
            h = {"_bins_type": bt, "_dim": dim, "_bins": tlist(*[C(3)] * dim) if bt == "equiprob" else tlist(*[par(f"b{i}") for i in range(dim)])}
            r = meth(proj, "Likelihood", "set_binning", h, opaque=("_make_data_hist", "_resolve_explicit_bins", "_validate_irreg_bins_2d",
                                                                  "get_equiprob_bins_1d", "get_equiprob_bins_2d"))
            bad = bt not in sup
            site(proj, book, "reject" if bad else "accept", f"bins_type={bt}:{dim}d", r, "raise" if bad else "return", secret=bt if bad else ZZ)
    for dim in (0, 3):
        for bt in ("meshgrid", "equiprob", "irreg"):
            h = {"_bins_type": bt, "_dim": dim, "_bins": tlist(*[par(f"b{i}") for i in range(dim)])}
            r = meth(proj, "Likelihood", "set_binning", h, opaque=("_make_data_hist", "_resolve_explicit_bins", "_validate_irreg_bins_2d",
                                                                  "get_equiprob_bins_1d", "get_equiprob_bins_2d"))
            site(proj, book, "reject", f"dim={dim}:{bt}", r, "raise")
    # bins of equiprobable binning are numbers
    r = meth(proj, "Likelihood", "set_binning", {"_bins_type": "equiprob", "_dim": 1, "_bins": tlist(tlist(0.5, 1.5))},
             opaque=("_make_data_hist", "get_equiprob_bins_1d", "get_equiprob_bins_2d"))
    site(proj, book, "reject", "equiprob:edges", r, "raise")


def component(proj, book):
    sup = ("meshgrid", "irreg")
    for bt in sup + tuple(near(*sup)) + ("equiprob",):
        bad = bt not in sup
        sec = bt if bad else ZZ
        r = meth(proj, "Component", "set_binning", args={"**kwargs": par("kw")}) if False else None
        f = proj.method("Component", "set_binning")
        ev = Eval(proj)
        kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
        names = {"bins": par("b"), "bins_type": C(bt)}
        r = ev.run(f, cls=proj.cls("Component"), args={kw: tdict(names)} if kw else {k: v for k, v in names.items()})
        r.func, r.ev = f, ev
        site(proj, book, "reject" if bad else "accept", f"component.bins_type={bt}", r, "raise" if bad else "return", secret=sec)
        for dim in (1, 2):
            if bt == "equiprob":
                continue
            r = meth(proj, "Component", "implement_binning", {"bins_type": bt, "bins": tlist(*[par(f"b{i}") for i in range(dim)])},
                     opaque=("make_hist_irreg_bin_1d", "make_hist_irreg_bin_2d", "make_hist_mesh_grid"))
            site(proj, book, "reject" if bad else "accept", f"histogram.bins_type={bt}:{dim}d", r, "raise" if bad else "return", secret=sec)
    r = meth(proj, "Component", "implement_binning", {"bins_type": "irreg", "bins": tlist(*[par(f"b{i}") for i in range(3)])},
             opaque=("make_hist_irreg_bin_1d", "make_hist_irreg_bin_2d", "make_hist_mesh_grid"))
    site(proj, book, "reject", "histogram.irreg:3d", r, "raise")
    r = meth(proj, "Component", "implement_binning", {"bins_type": NONE, "bins": tlist(par("b0"))},
             opaque=("make_hist_irreg_bin_1d", "make_hist_irreg_bin_2d", "make_hist_mesh_grid"))
    site(proj, book, "reject", "histogram.bins_type=None", r, "raise")
    # the kind of component a likelihood meets
    for m in ("_simulate_model_hist", "simulate_weighted_data"):
        try:
            r = meth(proj, "Likelihood", m)
        except AnalysisBroken:
            continue
        def isinst(x):
            return x.op == "call" and head(x.a[0]) == "builtins.isinstance" and any(
                contains(y, lambda z: z.op == "global" and ("Component" in z.a[0])) or "Component" in show(y) for y in x.a[1][1:])
        ok = None
        gs = []
        for e in raises(r):
            g = raise_guard(e)
            m_ = {x: FALSE for x in walk(g) if isinst(x)}
            if m_:
                g2 = subst(g, m_)
                gs.append(g2)
                ok = True if isc(g2, True) or feasible(g2) else ok
        disp = [x for e in r.events for x in walk(guard_of(e)) if isinst(x)]
        if ok is None:
            ok = False if disp and not raises(r) else None
        book.ob("reject", f"component_type:{m}", ok, "a component that is neither simulated nor fixed raises", r.func.loc)


def normalization(proj, book):
    sup = ("on_pdf", "on_sim")
    for nt in sup + tuple(near(*sup)):
        bad = nt not in sup
        r = meth(proj, "Component", "get_normalization", {"norm_type": nt})
        site(proj, book, "reject" if bad else "accept", f"norm_type={nt}", r, "raise" if bad else "return", secret=nt if bad else ZZ)


def priors(proj, book):
    sup = ("norm", "twohalfnorm", "uniform", "free", "fixed")
    for pt in sup + tuple(near(*sup)):
        bad = pt not in sup
        cfg = tdict({"p": tdict({"prior_type": pt, "prior_args": par("pa"), "allowed_range": tlist(par("lo"), par("hi")),
                                 "init_mean": par("im"), "init_std": par("is")})})
        h = {"par_config": cfg, "_parameter_dict": tdict({"p": 0})}
        r = meth(proj, "Parameter", "sample_prior", h, opaque=("errors_to_two_half_norm_sigmas", "rvs"))
        site(proj, book, "reject" if bad else "accept", f"prior_type={pt}", r, "raise" if bad else "return", secret=pt if bad else ZZ)
        # the prior is sampled when the parameters are made
    r = meth(proj, "Parameter", "__init__", opaque=("sample_prior", "sample_init"))
    cs = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).split(".")[-1] == "sample_prior"]
    ok = True if any(True for e in cs) else None
    if not cs:
        # nothing at construction looks at the type: the log prior itself has to reject it
        cfg = tdict({"p": tdict({"prior_type": ZZ, "prior_args": par("pa"), "allowed_range": tlist(par("lo"), par("hi")), "init_mean": par("im"), "init_std": par("is")})})
        r2 = meth(proj, "Parameter", "__init__", args={"parameter_config": cfg}, kinds={cfg: "dict"})
        r3 = meth(proj, "Parameter", "log_prior", {"par_config": cfg, "_parameter_fit": tlist("p"), "_parameter_dict": tdict({"p": par("v")})})
        o = outcome(r2), outcome(r3)
        ok = True if "raise" in o else False if o == ("return", "return") else None
    book.ob("reject", "prior_type:construction", ok, "an unknown prior type is rejected when the parameters are made", r.func.loc)


def posterior(proj, book):
    sup = ("mpe", "median", "random")
    for w in sup + tuple(near(*sup)):
        bad = w not in sup
        r = meth(proj, "Context", "get_post_parameters", args={"which": w})
        site(proj, book, "reject" if bad else "accept", f"which={w}", r, "raise" if bad else "return", secret=w if bad else ZZ)


def maps(proj, book):
    def hook(data):
        def f(ev, fn, args, kw, fr, ex):
            h = head(fn).split(".")[-1]
            if h == "load_json":
                return data
            if h == "get_file_path":
                return args[0] if args else par("path")
            if h == "_resolve_cached_config":
                return par("file")
            return None
        return f

    def data(ct, n=2, pdf="x"):
        return tdict({"coordinate_type": ct, "coordinate_name": tlist(*["a", "b", "c"][:n]) if n else C(pdf), "coordinate_system": par("cs"), "map": par("mp"),
                      "coordinate_lowers": tlist(*[par(f"l{i}") for i in range(n)]), "coordinate_uppers": tlist(*[par(f"u{i}") for i in range(n)])})
    ops = ("load_json", "get_file_path", "_resolve_cached_config", "_validate_log_coords", "pdf_to_cdf", "build_point", "build_regbin")
    sup = ("point", "log_point", "regbin", "log_regbin")
    for ct in sup + tuple(near(*sup)):
        bad = ct not in sup
        r = meth(proj, "Map", "build", opaque=ops, hook=hook(data(C(ct))))
        site(proj, book, "reject" if bad else "accept", f"coordinate_type={ct}", r, "raise" if bad else "return", secret=ct if bad else ZZ)
    for l in (["regbin", "log_regbin"], ["regbin", ZZ], [ZZ, "log_regbin"], ["point", "regbin"], ["regbin", "regbin", ZZ], ["log_regbin", "log_point"],
              ["regbin", "zz_regbin"], ["zz_log_regbin", "regbin"], ["regbin_zz", "regbin"], ["REGBIN", "regbin"], ["regbin", "log_regbi"]):
        good = l == ["regbin", "log_regbin"]
        r = meth(proj, "Map", "build", opaque=ops, hook=hook(data(tlist(*l), len(l))))
        site(proj, book, "accept" if good else "reject", "coordinate_type=" + "+".join(l), r, "return" if good else "raise",
             secret=next((x for x in l if x not in ("regbin", "log_regbin")), ZZ))
    ops2 = ops[:-2]
    for n in (1, 2, 3):
        for k in (1, 2, 3, 4):
            for l in ({("regbin",) * k, ("log_regbin",) + ("regbin",) * (k - 1)}):
                for where, kw in (("build", {"hook": hook(data(tlist(*l), n))}), ("build_regbin", {"args": {"data": data(tlist(*l), n)}})):
                    r = meth(proj, "Map", where, {"method": "IDW"}, opaque=ops2 + ("_get_regbin_interpolator",), **kw)
                    site(proj, book, "accept" if n == k else "reject", f"{where}:{'+'.join(l)}:{n}d", r, "return" if n == k else "raise")
    for m in ("IDW", "NN", "LERP", "idw", "nearest") + tuple(near("IDW", "NN", "LERP")):
        bad = m not in ("IDW", "NN", "LERP")
        r = meth(proj, "Map", "build_point", {"method": m}, args={"data": data(C("point"), 0)}, opaque=ops2)
        site(proj, book, "reject" if bad else "accept", f"method={m}:point", r, "raise" if bad else "return", secret=m if bad else ZZ)
        for n in (1, 2, 3, 4):
            bad2 = bad or n == 4 or (n == 1 and m == "NN")
            f = proj.cls("Map").find_method("_get_regbin_interpolator")
            if f is None:
                book.ob("reject", f"method={m}:{n}d", None, "no dispatch by dimension found", None)
                continue
            r = meth(proj, "Map", "_get_regbin_interpolator", {"method": m}, args={f.params[1]: C(n)})
            site(proj, book, "reject" if bad2 else "accept", f"method={m}:{n}d", r, "raise" if bad2 else "return", secret=m if bad else ZZ)


def literature(proj, book):
    sup = ("twohalfnorm", "norm", "band")
    for v in sup + tuple(x for x in near(*sup) if x != "halfnorm"):
        bad = v not in sup
        kw = proj.method("LikelihoodLit", "__init__").node.args.kwarg.arg
        cfg = tdict({"bins_on": tlist("x", "y"), "variable_type": v, "logpdf_args": par("la")})
        r = meth(proj, "LikelihoodLit", "__init__", args={kw: cfg})
        site(proj, book, "reject" if bad else "accept", f"variable_type={v}", r, "raise" if bad else "return", secret=v if bad else ZZ)
    for n in (1, 3):
        cfg = tdict({"bins_on": tlist(*["x", "y", "z"][:n]), "variable_type": "norm", "logpdf_args": par("la")})
        r = meth(proj, "LikelihoodLit", "__init__", args={kw: cfg})
        site(proj, book, "reject", f"literature:{n}d", r, "raise")


def formats(proj, book):
    def hook(ev, fn, args, kw, fr, ex):
        if head(fn).split(".")[-1] == "get_file_path":
            return args[0]
        return None
    for fmt in ("csv", "pkl", "txt", "json", "h5") + tuple(near("csv", "pkl")):
        bad = fmt not in ("csv", "pkl")
        r = meth(proj, None, "load_data", args={"file_name": "dir/data." + fmt}, hook=hook, opaque=("get_file_path",))
        site(proj, book, "reject" if bad else "accept", f"format={fmt}", r, "raise" if bad else "return", secret=fmt if bad else ZZ)


def kinds(proj, book):
    """Types of configuration values."""
    for where in ("value", "per-likelihood"):
        for k in ("int", "float", "list", "str", "NoneType", "tuple", "set", "bool"):
            v = par("v")
            d = tdict({"opt": v}) if where == "value" else tdict({"opt": tdict({"llh": v})})
            r = meth(proj, None, "set_global_config", args={"configs": d}, opaque=("get_file_path",), kinds={v: k})
            bad = k in ("NoneType", "tuple", "set")
            site(proj, book, "type" if bad else "accept", f"configuration:{where}:{k}", r, "raise" if bad else "return")
    d = tdict({"opt": tdict({"llh": par("v")})})
    r = meth(proj, None, "set_global_config", args={"configs": d}, opaque=("get_file_path",), kinds={par("v"): "dict"})
    site(proj, book, "type", "configuration:per-likelihood:dict", r, "raise")


def parameters(proj, book):
    for k in ("str", "dict", "list", "NoneType", "int", "float", "set"):
        v = par("parameter_config")
        r = meth(proj, "Parameter", "__init__", opaque=("init_parameter", "load_json", "sample_prior", "sample_init"), kinds={v: k})
        bad = k not in ("str", "dict")
        site(proj, book, "type" if bad else "accept", f"parameter_config:{k}", r, "raise" if bad else "return")
    for m in ("check_parameter_exist", "get_parameter", "__getitem__"):
        for k in ("int", "float", "NoneType", "tuple"):
            try:
                r = meth(proj, "Parameter", m, kinds={par("keys"): k})
            except AnalysisBroken:
                continue
            site(proj, book, "type", f"{m}:{k}", r, "raise")
    for k in ("int", "float", "NoneType", "tuple", "set"):
        r = meth(proj, "Parameter", "set_parameter", kinds={par("keys"): k})
        site(proj, book, "type", f"set_parameter:{k}", r, "raise")


def names(proj, book):
    for k in ("dict", "set", "int", "NoneType"):
        r = meth(proj, "ComponentSim", "deduce", kinds={par("data_names"): k},
                 opaque=("dependencies_deduce", "dependencies_simplify", "flush_source_code", "init_parameters"))
        site(proj, book, "type", f"deduce:{k}", r, "raise")


def configs(proj, book):
    r = meth(proj, "Config", "__init__", kinds={par("default"): "dict"})
    site(proj, book, "type", "default:dict", r, "raise")
    r = meth(proj, "Config", "__init__", kinds={par("default"): "float"})
    site(proj, book, "accept", "default:float", r, "return")
