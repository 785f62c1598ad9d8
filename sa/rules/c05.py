"""C05: shipped components, instructions, parameters and maps fit together."""

import ast
import json
import os

from ..help import *
from ..plug import Iface, Cfg, plugins
from ..proj import Class, Module, Func

META = {
    "level": "other",
    "technique": "declaration consistency analysis: dependency closure of declared plugin interfaces, cross-checked with the shipped configuration files",
    "explain": "The plugins each shipped component registers are read from the value flow of its constructor; from the declared inputs, outputs, "
               "parameters and options the dependency closure of its outputs is computed and checked for missing inputs, cycles, conflicting options and "
               "names that resolve to another class.  The same closure gives, for every shipped instruction file, the parameters needed, which are compared "
               "with those the parameter file provides.  Every map, data and parameter file is parsed and checked against the "
               "use made of it: number of coordinates, shape, interpolation method, ordering, priors and their arguments.",
    "rules": {
        "provide": "every input needed for a component's outputs is provided by a registered plugin",
        "acyclic": "the dependencies of a component's outputs have no cycle",
        "resolve": "every needed plugin's name means that plugin in the generated code",
        "options": "plugins registered together agree on the defaults of shared options; defaults and configured values have the form their option needs",
        "instruct": "an instruction file names existing classes and files, with complete binning",
        "parameters": "an instruction file provides exactly the parameters its components need",
        "map": "a map file has the coordinates and shape its use requires",
        "prior": "a parameter entry has a known prior with its arguments, an ordered range and a start value inside it",
        "file": "a file named in the source is shipped",
    },
    "assumptions": ["files not shipped with the package (installed elsewhere or downloaded) are outside the analysis"],
}
ROOT = {"batch_size"}
PRIORS = {"norm": ("mean", "std"), "twohalfnorm": ("mu", "sigma_pos", "sigma_neg"), "uniform": ("lower", "upper"), "free": (), "fixed": ("val",)}
LIT = {"twohalfnorm": {"mu", "sigma_pos", "sigma_neg"}, "norm": {"loc", "scale"}, "band": {"x", "y", "yerr_upper", "yerr_lower"}}


def check(proj, book):
    w = World(proj, book)
    book.step("components", components, w)
    book.step("values", values, w)
    book.step("instructs", instructs, w)
    book.step("maps", maps, w)
    book.step("priors", priors, w)
    book.step("files", files, w)
    book.floor("provide", 20)
    book.floor("map", 12)
    book.floor("prior", 40)
    book.floor("parameters", 4)


class World:
    def __init__(self, proj, book):
        self.proj, self.book = proj, book
        self.files = {}
        for rel in proj.shipped():
            self.files.setdefault(os.path.basename(rel), rel)
        self.ns = proj.namespace("appletree.plugins")
        self.comps = {}
        for n, c in proj.namespace("appletree.components").items():
            if isinstance(c, Class) and any(k.name == "Component" for k in c.mro()):
                self.comps[n] = c
        self.ifaces = {}
        self.regs = {}
        self.missing = {}

    def iface(self, c):
        if c.qual not in self.ifaces:
            self.ifaces[c.qual] = Iface(c)
        return self.ifaces[c.qual]

    def json(self, name):
        rel = self.files.get(os.path.basename(name))
        if rel is None:
            return None
        try:
            return json.loads(self.proj.text(rel))
        except ValueError as e:
            return e

    def registry(self, c):
        """([plugin classes in registration order] or None, why)."""
        if c.qual in self.regs:
            return self.regs[c.qual]
        self.gone = self.missing.setdefault(c.qual, [])
        self.regs[c.qual] = self._registry(c)
        return self.regs[c.qual]

    def _registry(self, c):
        if not any(k.name == "ComponentSim" for k in c.mro()):
            return None, "fixed"
        f = c.find_method("__init__")
        ev = Eval(self.proj, opaque=opq("register", "register_all", "set_binning"))
        r = ev.run(f, cls=c)
        out = []
        for e in r.events:
            if e.kind != "call" or not isinstance(e.fn, Term) or e.fn.op != "attr" or e.fn.a[1] not in ("register", "register_all") or e.fn.a[0] is not SELF:
                continue
            for a in list(e.args) + list(dict(e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs or ()).values()):
                got = self.expand(a, e.fn.a[1])
                if got is None:
                    return None, f"registers {show(a)[:80]}"
                out += got
        return out, ""

    def expand(self, a, how):
        if a.op in ("list", "tuple"):
            out = []
            for x in a.a:
                g = self.expand(x, how)
                if g is None:
                    return None
                out += g
            return out
        if a.op == "global":
            if how == "register_all":
                d = a.a[0]
                if d not in self.proj.modules:
                    d = self.proj.canon(d)
                if d in self.proj.modules:
                    return [c for n, c in self.proj.namespace(d).items() if isinstance(c, Class) and any(k.name == "Plugin" for k in c.mro())]
                return None
            c = self.proj.lookup_class(a.a[0])
            if c is None and self.absent(a.a[0]):
                self.gone.append(a.a[0])
                return []
            return [c] if c is not None else None
        return None

    def absent(self, d):
        """The dotted name lies in a module of the package that defines nothing of that name."""
        m, _, n = self.proj.canon(d).rpartition(".")
        return m in self.proj.modules and n not in self.proj.namespace(m) and not {n, "__getattr__"} & set(self.proj.modules[m].consts) and \
            "__getattr__" not in self.proj.modules[m].funcs


def tup(v):
    return [v] if isinstance(v, str) else list(v) if v is not None else None


def closure(w, reg, outs):
    """(needed plugins in order, missing inputs, cycle, undecided)."""
    prov = {}
    for c in reg:
        i = w.iface(c)
        ps = tup(i.provides)
        if ps is None:
            if c.name == "Plugin":
                continue
            return None
        for p in ps:
            prov[p] = c
    need, missing, cyc, state = [], [], [], {}

    def visit(d, chain):
        if d in ROOT:
            return True
        c = prov.get(d)
        if c is None:
            missing.append((d, chain[-1] if chain else None))
            return True
        if state.get(c.qual) == 1:
            cyc.append([x.name if isinstance(x, Class) else x for x in chain[chain.index(c):] + [c]])
            return True
        if state.get(c.qual) == 2:
            return True
        state[c.qual] = 1
        deps = tup(w.iface(c).depends_on)
        if deps is None:
            return False
        ok = all(visit(x, chain + [c]) for x in deps)
        state[c.qual] = 2
        need.append(c)
        return ok

    ok = all([visit(o, []) for o in outs])
    return need, missing, cyc, ok, prov


def outputs(w, c):
    """Data names a shipped component must be able to produce."""
    out = {"eff"}
    e = c.find_attr("norm_type")[1]
    if isinstance(e, ast.Constant) and e.value:
        out |= {"cs1", "cs2"}
    for name in sorted(w.files):
        if "/instructs/" not in w.files[name]:
            continue
        d = w.json(name)
        if not isinstance(d, dict):
            continue
        for llh in d.get("likelihoods", {}).values():
            for v in llh.get("components", {}).values():
                if (v if isinstance(v, str) else v.get("component_cls")) == c.name:
                    out |= set(tup(llh.get("bins_on", [])))
    return sorted(out)


def components(w):
    book = w.book
    for n, c in sorted(w.comps.items()):
        if c.mod.name.startswith("appletree.component") and not c.mod.name.startswith("appletree.components"):
            continue
        reg, why = w.registry(c)
        for d in w.missing.get(c.qual, ()):
            book.ob("resolve", f"{n}:{d}", False, f"{n} registers {d}, which does not exist", c.loc)
        if reg is None:
            if why != "fixed":
                book.ob("provide", n, None, why, c.loc)
            continue
        outs = outputs(w, c)
        r = closure(w, reg, outs)
        if r is None or not r[3]:
            book.ob("provide", n, None, "declared interfaces are not literal", c.loc)
            continue
        need, missing, cyc, _, prov = r
        for o in outs:
            ms = [(d, b) for d, b in missing if b is None and d == o]
            book.ob("provide", f"{n}:{o}", not ms, f"output {o} is {'not ' if ms else ''}provided", c.loc)
        for k in need:
            ms = [d for d, b in missing if b is k]
            book.ob("provide", f"{n}:{k.name}", not ms, f"input {ms} of {k.name} is not provided by any plugin {n} registers" if ms else "inputs provided", k.loc)
        book.ob("acyclic", n, not cyc, f"cycle {' -> '.join(cyc[0])}" if cyc else "no cycle", c.loc)
        for k in need:
            g = w.ns.get(k.name)
            book.ob("resolve", f"{n}:{k.name}", g is k, f"{k.name} of {k.qual} is {'found' if g is k else 'found as ' + (getattr(g, 'qual', None) or 'nothing')} in appletree.plugins", k.loc)
        # two plugins of one name would be one entry in the generated code
        names = {}
        for k in need:
            names.setdefault(k.name, set()).add(k.qual)
        dup = sorted(x for x, q in names.items() if len(q) > 1)
        book.ob("resolve", f"{n}:unique", not dup, f"plugins {dup} share a name" if dup else "names are unique", c.loc)
        # options
        seen = {}
        bad = None
        for k in reg:
            cs = w.iface(k).configs
            if cs is None:
                continue
            for cf in cs:
                d = cf.get("default")
                if cf.name in seen and seen[cf.name][0] != d and seen[cf.name][0] is not ... and d is not ... and not (seen[cf.name][1].qual == k.qual):
                    # only plugins that are still registered count
                    if {seen[cf.name][1].qual, k.qual} <= {x.qual for x in prov.values()}:
                        bad = (cf, seen[cf.name])
                seen[cf.name] = (d, k)
        book.ob("options", n, bad is None, f"option {bad[0].name} has defaults {bad[0].get('default')} and {bad[1][0]}" if bad else "agree", bad[0].loc if bad else c.loc)


# -- values of options
def fits(cf, v):
    """Why value v is not accepted by option cf; None if it is."""
    if cf.kind == "ConstantSet":
        if not isinstance(v, (list, tuple)) or len(v) != 2 or not all(isinstance(x, (list, tuple)) for x in v):
            return "is not [names, values]"
        names, vals = v
        if len(names) != len(vals):
            return f"has {len(vals)} values for {len(names)} names"
        if not all(isinstance(x, str) for x in names) or len(set(names)) != len(names):
            return f"has names {names}"
        if not vals or not all(isinstance(x, (list, tuple)) for x in vals) or len({len(x) for x in vals}) > 1 or not len(vals[0]):
            return "has values of different lengths"
        want = LIT.get(cf.name.split("_")[-1])
        if want is not None and set(names) != want:
            return f"has names {names}, not {sorted(want)}"
    elif cf.kind == "SigmaMap":
        if not isinstance(v, str) and not (isinstance(v, list) and len(v) in (3, 4) and all(isinstance(x, str) for x in v)):
            return "is neither a file nor three files with an optional parameter"
    elif cf.kind == "Map":
        if not isinstance(v, str):
            return "is no file"
    elif cf.kind == "Constant":
        if isinstance(v, (dict, type(None))):
            return f"is {v}"
    return None


def values(w):
    """Defaults, and values in instruction files, are accepted by the option they are for."""
    known, seen = {}, set()
    for k in plugins(w.proj):
        for cf in w.iface(k).configs or ():
            known.setdefault(cf.name, cf)
            if (cf.cls.qual, cf.name) in seen or "default" not in cf.kws:
                continue
            seen.add((cf.cls.qual, cf.name))
            v = cf.get("default")
            if v is None and cf.kind != "Constant":
                continue
            why = fits(cf, v) if v is not ... else None
            w.book.ob("options", f"{cf.cls.name}.{cf.name}", None if v is ... else why is None, f"default {'is no literal' if v is ... else why or 'is accepted'}", cf.loc)
    for name in sorted(w.files):
        if "/instructs/" not in w.files[name]:
            continue
        d = w.json(name)
        for o, v in (d.get("configs", {}) if isinstance(d, dict) else {}).items():
            if o not in known:
                continue
            for ln, x in v.items() if isinstance(v, dict) else [("", v)]:
                why = fits(known[o], x)
                w.book.ob("options", f"{name}:{o}{':' + ln if ln else ''}", why is None, f"value {why or 'is accepted'}", (w.files[name], 1, name))


# -- instruction files
def required(w, cf, conf, llh):
    """Parameter a sigma map needs, False if none, None if unknown."""
    v = conf.get(cf.name, cf.get("default"))
    if v is ...:
        return None
    if isinstance(v, dict):
        v = v.get(llh)
    if isinstance(v, list):
        return v[-1] if len(v) == 4 else cf.name + "_sigma"
    return False


def comp_needs(w, c, outs, conf, llh):
    reg, why = w.registry(c)
    if reg is None:
        return set() if why == "fixed" else None
    r = closure(w, reg, outs)
    if r is None or not r[3]:
        return None
    out = set()
    for k in r[0]:
        i = w.iface(k)
        if i.parameters is None or i.configs is None:
            return None
        out |= set(i.parameters)
        for cf in i.configs:
            if cf.kind == "SigmaMap":
                q = required(w, cf, conf, llh)
                if q is None:
                    return None
                if q:
                    out.add(q)
    return out


def instructs(w):
    book = w.book
    for name in sorted(w.files):
        rel = w.files[name]
        if "/instructs/" not in rel:
            continue
        loc = (rel, 1, name)
        d = w.json(name)
        if not isinstance(d, dict):
            book.ob("instruct", name, False, f"not a JSON object: {d}", loc)
            continue
        conf = d.get("configs", {})
        pc = d.get("par_config")
        par_config = w.json(pc) if isinstance(pc, str) else None
        book.ob("instruct", f"{name}:par_config", isinstance(par_config, dict), f"parameter file {pc} is {'shipped' if isinstance(par_config, dict) else 'missing or invalid'}", loc)
        needed, rates, source, provided, und = set(), [], [], set(par_config or {}), False
        for ln, llh in d.get("likelihoods", {}).items():
            tag = f"{name}:{ln}"
            typ = llh.get("type", "Likelihood")
            k = w.proj.namespace("appletree").get(typ)
            isl = isinstance(k, Class) and any(x.name == "Likelihood" for x in k.mro())
            book.ob("instruct", f"{tag}:type", isl, f"likelihood type {typ}", loc)
            lit = isl and any(x.name == "LikelihoodLit" for x in k.mro())
            on = tup(llh.get("bins_on", []))
            mine = set()
            for cn, cv in llh.get("components", {}).items():
                cls = cv if isinstance(cv, str) else cv.get("component_cls")
                c = w.comps.get(cls)
                book.ob("instruct", f"{tag}:{cn}", c is not None, f"component class {cls} is {'shipped' if c else 'unknown'}", loc)
                rates.append(cn + "_rate")
                mine.add(cn + "_rate")
                if c is None:
                    und = True
                    continue
                fixed = any(x.name == "ComponentFixed" for x in c.mro())
                if fixed:
                    fn = cv.get("file_name") if isinstance(cv, dict) else None
                    book.ob("instruct", f"{tag}:{cn}:file", fn is not None and os.path.basename(fn) in w.files, f"file {fn} of a fixed component is {'shipped' if fn and os.path.basename(fn) in w.files else 'missing'}", loc)
                    continue
                p = comp_needs(w, c, on + ["eff"], conf, ln)
                if p is None:
                    und = True
                else:
                    mine |= p
            for a, b in llh.get("parameter_alias", {}).items():
                if b in mine:
                    mine.discard(b)
                    mine.add(a)
            needed |= mine
            for a, b in llh.get("copy_parameters", {}).items():
                book.ob("instruct", f"{tag}:copy:{a}", par_config is None or b in par_config, f"{a} is copied from {b}", loc)
                source.append(b)
                provided.add(a)
                needed.add(a)
            binning(w, tag, llh, on, lit, loc)
            for o, v in conf.items():
                if isinstance(v, dict) and uses(w, llh, o):
                    book.ob("instruct", f"{tag}:option:{o}", ln in v, f"option {o} given per likelihood names {ln}" if ln in v else f"option {o} has no value for {ln}", loc)
        provided -= {s for s in source if s not in rates}
        if not isinstance(par_config, dict):
            continue
        extra, lack = sorted(provided - needed), sorted(needed - provided)
        book.ob("parameters", f"{name}:provided", None if und else not lack, f"parameters {lack} are needed but not in {pc}" if lack else f"{len(needed)} needed parameters are provided", loc)
        book.ob("parameters", f"{name}:needed", None if und else not extra, f"parameters {extra} of {pc} are needed by nothing" if extra else "no unneeded parameter", loc)
        for o, v in conf.items():
            for x in (v.values() if isinstance(v, dict) else [v]):
                for s in (x if isinstance(x, list) else [x]):
                    if isinstance(s, str) and s.endswith(".json"):
                        book.ob("instruct", f"{name}:{o}:{s}", os.path.basename(s) in w.files, f"map {s} is {'shipped' if os.path.basename(s) in w.files else 'missing'}", loc)


def uses(w, llh, o):
    for cv in llh.get("components", {}).values():
        c = w.comps.get(cv if isinstance(cv, str) else cv.get("component_cls"))
        reg = w.registry(c)[0] if c is not None else None
        for k in reg or ():
            if any(cf.name == o for cf in (w.iface(k).configs or ())):
                return True
    return False


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def binning(w, tag, llh, on, lit, loc):
    book = w.book
    if lit:
        vt = llh.get("variable_type")
        args = llh.get("logpdf_args")
        ok = len(on) == 2 and vt in LIT and isinstance(args, list) and len(args) == 2 and set(args[0]) == LIT[vt] and len(args[0]) == len(args[1]) and len({len(x) for x in args[1]}) == 1
        book.ob("instruct", f"{tag}:binning", ok, f"literature constraint {vt} over {on} with {args[0] if isinstance(args, list) and args else args}", loc)
        book.ob("instruct", f"{tag}:components", len(llh.get("components", {})) == 1, "one component", loc)
        return
    bt, bins = llh.get("bins_type"), llh.get("bins")
    why = None
    if bt not in ("meshgrid", "equiprob", "irreg"):
        why = f"binning type {bt}"
    clips = ["clip"] if len(on) == 1 else ["x_clip", "y_clip"]
    for c in clips:
        v = llh.get(c)
        if not (isinstance(v, list) and len(v) == 2 and all(num(x) for x in v) and v[0] < v[1]):
            why = why or f"{c} is {v}"
    if not isinstance(bins, list) and not (len(on) == 1 and isinstance(bins, int)):
        why = why or f"bins are {bins}"
    elif isinstance(bins, list) and not why:
        if len(on) == 2 and len(bins) != 2:
            why = f"{len(bins)} binnings for {len(on)} observables"
        elif bt == "equiprob" and not all(isinstance(b, int) for b in bins):
            why = "equiprobable binning needs numbers of bins"
        elif bt == "irreg" and len(on) == 2 and isinstance(bins[0], list) and isinstance(bins[1], list):
            if len(bins[0]) != len(bins[1]) + 1 or len({len(b) for b in bins[1]}) != 1:
                why = "irregular binning does not match"
            elif any(a >= b for row in [bins[0]] + bins[1] for a, b in zip(row, row[1:])):
                why = "bin edges are not increasing"
    book.ob("instruct", f"{tag}:binning", why is None, why or "complete", loc)
    fn = llh.get("data_file_name")
    rel = w.files.get(os.path.basename(fn)) if isinstance(fn, str) else None
    book.ob("instruct", f"{tag}:data", rel is not None, f"data file {fn} is {'shipped' if rel else 'missing'}", loc)
    if rel and rel.endswith(".csv"):
        cols = w.proj.text(rel).split("\n", 1)[0].strip().split(",")
        miss = [o for o in on if o not in cols]
        book.ob("instruct", f"{tag}:columns", not miss, f"data file {fn} has no column {miss}" if miss else "columns present", loc)
    elif rel:
        book.ob("instruct", f"{tag}:suffix", rel.endswith(".pkl"), f"data format of {fn}", loc)


# -- maps
def dims(r, name):
    """[(number of coordinates or None, names)] of the uses of map ``name`` in an evaluated simulate."""
    out = []
    for e in r.events:
        if e.kind == "call" and isinstance(e.fn, Term) and e.fn.op == "attr" and e.fn.a[1] == "apply" and e.fn.a[0] is attr(SELF, name) and e.args:
            out.append(width(canon(e.args[0])) + (e.loc,))
    return out


def width(t):
    """(number of coordinates, their names, last axis runs over the coordinates?) of the positions handed to a map."""
    flip = False
    while True:
        n, args, kw = call_of(t)
        if t.op == "attr" and t.a[1] == "T" or n in ("transpose", "swapaxes", "moveaxis"):
            flip, t = not flip, t.a[0] if t.op == "attr" else args[0]
        elif n in ("asarray", "array") and args and args[0].op not in ("list", "tuple"):
            t = args[0]
        else:
            break
    if n in ("stack", "column_stack", "vstack", "dstack", "array", "asarray") and args and args[0].op in ("list", "tuple"):
        xs = args[0].a
        ax = kw.get("axis", args[1] if n == "stack" and len(args) > 1 else None)
        last = n == "column_stack" if ax is None else {0: False, 1: True, -1: True}.get(ax.a[0] if ax.op == "const" else None)
        return len(xs), [coordinate(x) for x in xs], None if last is None or n == "dstack" else last != flip
    if t.op == "param" or t.op == "item" and t.a[0].op == "call" or t.op == "bin":
        return 1, [t.a[0] if t.op == "param" else None], True
    return None, [], None


def call_of(t):
    if t.op == "f":
        return t.a[0], t.a[1], dict(t.a[2])
    if t.op == "call":
        return head(t.a[0]).rsplit(".", 1)[-1], t.a[1], dict(t.a[2]) if len(t.a) > 2 else {}
    return None, (), {}


def coordinate(x):
    if x.op == "param":
        return x.a[0]
    if x.op == "f" and x.a[0] == "sqrt" and not ({y.a[0] for y in walk(x) if y.op == "param"} - {"x", "y", "rec_x", "rec_y"}):
        return "r"
    return None


def shape(x):
    out = []
    while isinstance(x, list):
        out.append(len(x))
        if x and any(shape(y) != shape(x[0]) for y in x):
            return None
        x = x[0] if x else None
    return out if x is None or num(x) else None


def maps(w):
    from ..plug import plugins
    book = w.book
    tables = interpolators(w)
    uses_ = {}
    for c in sorted(plugins(w.proj), key=lambda c: c.qual):
        i = w.iface(c)
        for cf in i.configs or ():
            if cf.kind in ("Map", "SigmaMap"):
                f = c.find_method("simulate")
                ev = Eval(w.proj, opaque=opq("apply", "uniform", "normal", "binomial"))
                r = ev.run(f, cls=c)
                uses_.setdefault(cf.name, []).append((c, cf, dims(r, cf.name)))
    named = {}
    for o, us in uses_.items():
        for c, cf, ds in us:
            d = cf.get("default")
            for s in (d if isinstance(d, list) else [d])[:3]:
                if isinstance(s, str):
                    named.setdefault(s, []).append((o, c, cf, ds))
    for name in sorted(w.files):
        if "/instructs/" in w.files[name]:
            d = w.json(name)
            for o, v in (d.get("configs", {}) if isinstance(d, dict) else {}).items():
                for x in (v.values() if isinstance(v, dict) else [v]):
                    for s in (x[:3] if isinstance(x, list) else [x]):
                        if isinstance(s, str) and o in uses_:
                            named.setdefault(s, [])
                            for c, cf, ds in uses_[o]:
                                if (o, c, cf, ds) not in named[s]:
                                    named[s].append((o, c, cf, ds))
    for s, us in sorted(named.items()):
        d = w.json(s)
        loc = us[0][2].loc
        if os.path.basename(s) not in w.files:
            book.ob("map", s, False, f"default map {s} of {us[0][0]} is not shipped", loc)
            continue
        loc = (w.files[os.path.basename(s)], 1, s)
        nd, why = form(d)
        book.ob("map", f"{s}:form", None if nd is None and why is None else why is None, why or f"{nd} coordinates", loc)
        if why is not None or nd is None:
            continue
        names = tup(d.get("coordinate_name"))
        for o, c, cf, ds in us:
            for n, args, last, l in ds:
                if n is not None and n > 1:
                    book.ob("map", f"{s}:{o}:{c.name}:axis", last, f"the coordinates of {o} in {c.name} run along the {'last' if last else 'first'} axis", l)
                book.ob("map", f"{s}:{o}:{c.name}", None if n is None else n == nd, f"{c.name} evaluates {o} with {n} coordinates, {s} has {nd}", l)
                if n is not None and n > 1 and all(args) and len(names) == n:
                    bare = [a[4:] if a.startswith("rec_") else a for a in args]
                    if set(bare) == set(names):
                        book.ob("map", f"{s}:{o}:{c.name}:order", bare == names, f"{c.name} evaluates {o} at {args}, {s} has coordinates {names}", l)
            m = cf.get("method", "IDW")
            if m is ... or tables is None:
                continue
            pts, regs = tables
            kind = "point" if "coordinate_system" in d else nd
            ok = m in pts if kind == "point" else m in regs.get(nd, {m})
            book.ob("map", f"{s}:{o}:{c.name}:method", ok, f"interpolation {m} of {o} for a {'point' if kind == 'point' else str(nd) + '-dimensional binned'} map", cf.loc)
    # shipped maps in general
    for name, rel in sorted(w.files.items()):
        if "/maps/" in rel and name not in named:
            nd, why = form(w.json(name))
            book.ob("map", f"{name}:form", why is None, why or f"{nd} coordinates", (rel, 1, name))


def interpolators(w):
    """Names of the interpolation methods the map class declares: (point methods, {dimension: methods})."""
    c = w.proj.lookup_class("appletree.config.Map")
    if c is None:
        return None
    pts = regs = None
    for n, e in c.attrs.items():
        if isinstance(e, ast.Dict) and e.keys and all(isinstance(k, ast.Constant) for k in e.keys):
            if all(isinstance(k.value, str) for k in e.keys):
                pts = {k.value for k in e.keys}
            elif all(isinstance(k.value, int) for k in e.keys) and all(isinstance(v, ast.Dict) for v in e.values):
                regs = {k.value: {x.value for x in v.keys if isinstance(x, ast.Constant)} for k, v in zip(e.keys, e.values)}
    return (pts, regs or {}) if pts else None


def form(d):
    """(number of coordinates, defect)."""
    if not isinstance(d, dict):
        return None, f"not a JSON object: {str(d)[:60]}"
    for k in ("coordinate_type", "coordinate_name", "map"):
        if k not in d:
            return None, f"no {k}"
    ct = d["coordinate_type"]
    if ct in ("point", "log_point"):
        cs = d.get("coordinate_system")
        s = shape(cs) if cs is not None else None
        m = shape(d["map"])
        if s is None or m is None or not s or s[0] < 2:
            return None, "coordinate_system or map is not a regular array"
        if s[0] != m[0]:
            return None, f"{s[0]} coordinates for {m[0]} values"
        if len(s) == 1:
            if any(a >= b for a, b in zip(cs, cs[1:])):
                return None, "coordinates are not increasing"
            if ct == "log_point" and cs[0] <= 0:
                return None, "logarithmic coordinates are not positive"
            if d["coordinate_name"] == "cdf" and not (cs[0] == 0 and cs[-1] == 1):
                return None, f"cumulative probabilities run from {cs[0]} to {cs[-1]}"
            return 1, None
        return s[1], None
    cts = ct if isinstance(ct, list) else [ct]
    if not all(c in ("regbin", "log_regbin") for c in cts):
        return None, f"coordinate type {ct}"
    lo, up, nm = d.get("coordinate_lowers"), d.get("coordinate_uppers"), tup(d["coordinate_name"])
    m = shape(d["map"])
    if not (isinstance(lo, list) and isinstance(up, list)) or m is None:
        return None, "no bounds or irregular map"
    if not (len(lo) == len(up) == len(nm) == len(m)) or isinstance(ct, list) and len(ct) != len(lo):
        return None, f"{len(lo)} lower bounds, {len(up)} upper bounds, {len(nm)} names, map of {len(m)} dimensions"
    if any(a >= b for a, b in zip(lo, up)):
        return None, "bounds are not ordered"
    for i, a in enumerate(lo):
        if (ct[i] if isinstance(ct, list) else ct) == "log_regbin" and a <= 0:
            return None, "logarithmic bounds are not positive"
    return len(m), None


# -- parameters
def priors(w):
    book = w.book
    for name, rel in sorted(w.files.items()):
        if "/parameters/" not in rel:
            continue
        loc = (rel, 1, name)
        d = w.json(name)
        if not isinstance(d, dict):
            book.ob("prior", name, False, f"not a JSON object: {str(d)[:60]}", loc)
            continue
        for p, s in d.items():
            why = prior(s)
            book.ob("prior", f"{name}:{p}", why is None, why or "consistent", loc)


def prior(s):
    pt = s.get("prior_type")
    if pt not in PRIORS:
        return f"prior type {pt}"
    a = s.get("prior_args") or {}
    miss = [k for k in PRIORS[pt] if k not in a or not num(a[k])]
    if miss:
        return f"prior {pt} lacks {miss}"
    if pt == "fixed":
        return None
    if any(k in a and a[k] <= 0 for k in ("std", "sigma_pos", "sigma_neg")):
        return "width of the prior is not positive"
    if pt == "uniform" and a["lower"] >= a["upper"]:
        return "bounds of the uniform prior are not ordered"
    r, m, sd = s.get("allowed_range"), s.get("init_mean"), s.get("init_std")
    if not (isinstance(r, list) and len(r) == 2 and all(num(x) for x in r) and r[0] < r[1]):
        return f"allowed range is {r}"
    if not num(m) or not num(sd) or sd < 0:
        return f"start value {m} +- {sd}"
    if not r[0] <= m <= r[1]:
        return f"start value {m} outside {r}"
    c = a.get("mean", a.get("mu"))
    if c is not None and not r[0] <= c <= r[1]:
        return f"prior centre {c} outside {r}"
    if pt == "uniform" and (a["upper"] < r[0] or a["lower"] > r[1]):
        return "prior and allowed range do not overlap"
    return None


def files(w):
    """File names handed to the file lookup anywhere in the package."""
    n = 0
    for f in w.proj.all_funcs():
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str):
                d = w.proj.canon(f.dotted(c.func)) if f.dotted(c.func) else None
                if d and d.rsplit(".", 1)[-1] in ("get_file_path", "load_json", "load_data", "_get_abspath") and d.startswith("appletree."):
                    n += 1
                    s = c.args[0].value
                    w.book.ob("file", f"{f.qual.split('.', 1)[-1]}:{s}", os.path.basename(s) in w.files, f"{s} is {'shipped' if os.path.basename(s) in w.files else 'not shipped'}", (f.mod.rel, c.lineno, f.qual))
    w.book.info["file_names"] = n
