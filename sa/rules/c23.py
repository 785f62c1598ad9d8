"""C23: lineages cover everything that determines the result."""

import ast

from ..help import *
from ..world import World
from ..report import Book
from ..terms import show

META = {
    "level": "other",
    "technique": "information-flow (injectivity) analysis: every determining attribute must be recoverable from the lineage term",
    "explain": "The lineage property of every class is evaluated to a term over the attributes of the object.  For each attribute that "
               "determines the result the analysis decides whether the term determines the attribute: it occurs in it under operations that "
               "keep distinct values distinct (containers, unfiltered comprehensions over all elements, tolist, digest of a whole file), and "
               "not only under operations that drop information.  The digest function, the hash and the serialisability of every leaf are decided likewise.",
    "rules": {
        "covers": "every determining attribute can be recovered from the lineage",
        "digest": "the digest covers the whole file, byte by byte",
        "same": "the file whose digest enters is the file that was loaded",
        "hash": "lineage_hash is a hash of the lineage and nothing else",
        "pure": "no clock, random state, object identity or process state enters a lineage",
        "json": "every leaf of a lineage is JSON serialisable when instructions and maps are",
        "dump": "dump_lineage writes the lineage itself",
    },
    "assumptions": ["sha256 and strax.deterministic_hash are collision free", "bytes read from a file until an empty block are the whole file"],
}
OPQ = opq("lineage", "lineage_hash", "get_file_path", "calculate_sha256", "required_parameter", "get_configs", "load_data", "load_json")
INJ = {"tuple", "list", "dict", "sorted_items", "tolist", "copy", "deepcopy", "asarray", "array", "dumps", "deterministic_hash", "str", "float", "int", "immutabledict", "OrderedDict", "hexdigest", "items", "frozendict"}
LOSSY = {"len", "basename", "set", "frozenset", "sum", "min", "max", "any", "all", "bool", "type", "round", "hash", "id", "dirname", "isinstance", "hasattr", "mean", "sorted", "keys", "shape", "abs",
         "splitext", "lower", "upper", "strip", "unique", "sort", "argsort", "median", "std", "var", "diff", "prod"}
IMPURE = ("time.", "random.", "numpy.random.", "uuid.", "os.getpid", "os.environ", "os.getenv", "datetime.", "secrets.", "os.urandom", "socket.", "platform.", "getpass.", "builtins.id", "builtins.hash", "os.getcwd",
          "os.path.getmtime", "os.stat")


def both(xs):
    xs = list(xs)
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


def absent(c, x):
    """The condition c says that x does not exist or is None or is empty."""
    if c.op == "not" and c.a[0].op == "call" and head(c.a[0].a[0]) == "builtins.hasattr" and x.op == "attr" and c.a[0].a[1][0] is x.a[0] and x.a[1].startswith("bins") and c.a[0].a[1][1].op == "const" \
            and str(c.a[0].a[1][1].a[0]).startswith("bins"):
        return True  # bins and bins_type are set together
    if c.op == "cmp" and c.a[0] in ("is", "==") and NONE in c.a[1:] and x in c.a[1:]:
        return True
    if c.op == "not":
        d = c.a[0]
        if d is x:
            return True
        if d.op == "call" and head(d.a[0]) == "builtins.hasattr" and x.op == "attr" and d.a[1][0] is x.a[0] and isc(d.a[1][1], x.a[1]):
            return True
        if d.op == "call" and head(d.a[0]) == "builtins.len" and d.a[1][0] is x:
            return True
        if d.op == "or":
            return any(absent(neg(y), x) for y in d.a)
        return False
    if c.op in ("and",):
        return any(absent(y, x) for y in c.a)
    return False


MAPPINGS = set()  # attributes known to be dictionaries: iterating one gives its keys


def mapping(v):
    return isinstance(v, Term) and (v.op == "dict" or v.op == "comp" and v.a[0] == "dict" or v.op == "call" and head(v.a[0]) in ("builtins.dict", "collections.OrderedDict"))


def inj(t, x, depth=0):
    """Does t determine x?  True | False | None."""
    if t is x:
        return True
    if not isinstance(t, Term):
        return False
    if not occurs(t, x):
        return None if contains(t, lambda y: y.op in ("unknown", "opaque", "havoc")) else False
    if depth > 40:
        return None
    r = lambda y: inj(y, x, depth + 1)
    if t.op == "dict":
        ents = list(t.a)
        out = []
        for i, (k, v) in enumerate(ents):
            if k is not None and any(k2 is k for k2, _ in ents[i + 1:]):
                continue
            out.append(r(v))
        return both(out)
    if t.op in ("tuple", "list"):
        return both(r(y) for y in t.a)
    if t.op == "phi":
        c, a, b = t.a
        ra = True if absent(c, x) else r(a)
        rb = True if absent(neg(c), x) else r(b)
        if ra is True and rb is True:
            return True
        return None if None in (ra, rb) else False
    if t.op == "comp":
        kind, body, lid, src, conds = t.a
        if not isinstance(src, Term):
            return None
        if src in MAPPINGS and src is x:
            e, bs = T("elem", lid, src), body if isinstance(body, tuple) else (body,)
            if not any(isinstance(b, Term) and (occurs(b, item(x, e)) or contains(b, lambda y: y is x or y.op == "call" and y.a[0].op == "attr" and y.a[0].a[0] is x)) for b in bs):
                return False
        if occurs(src, x) and (s := r(srcof(src))) is not False or src is x:
            el = T("elem", lid, src)
            if conds:
                return None if all(vacuous(c) for c in conds) else False
            if kind == "set":
                return None
            if kind == "dict":
                body = T("tuple", *body) if isinstance(body, tuple) else body
                if isinstance(body, Term) and body.op == "tuple" and len(body.a) == 2:
                    k, v = body.a
                    if k is not el and not same_key(k, el):
                        return None
                    val = item(x, el)
                    got = through(v, val) if occurs(v, val) else through(v, el)
                    return got
                return None
            return through(body, el)
        return None if occurs(body if isinstance(body, Term) else T("tuple", *body), x) else False
    if t.op == "call":
        fn, args, kw = t.a
        n = head(fn).split(".")[-1]
        if fn.op == "attr" and occurs(fn.a[0], x):
            if n in INJ:
                return r(fn.a[0])
            if n in LOSSY or n == "get" or r(fn.a[0]) is False and not any(isinstance(y, Term) and occurs(y, x) for y in args):
                return False
            return None
        vals = [y for y in args if isinstance(y, Term)] + [v for _, v in kw]
        if n in ("sorted", "list", "tuple", "set", "frozenset", "join", "fromkeys") and vals and vals[0] in MAPPINGS:
            return False
        if n in INJ:
            return both(r(y) for y in vals)
        if n == "sorted":
            return r(vals[0]) and None
        if n in LOSSY or all(r(y) is False for y in vals):
            return False
        return None
    if t.op == "attr":
        if t.a[0] is x:
            return t.a[1] in ("lineage", "lineage_hash")
        return None if r(t.a[0]) is not False else False
    if t.op == "item":
        if occurs(t.a[0], x):
            k = t.a[1]
            lit = k.op == "elem" and isinstance(k.a[1], Term) and k.a[1].op in ("tuple", "list", "const")
            return False if k.op in ("const", "slice") or lit or r(t.a[0]) is False else None
        return None
    if t.op == "slice_of":
        lo, hi, st = t.a[1].a
        return r(t.a[0]) if lo is NONE and hi is NONE and st is NONE else False
    if t.op in ("slice", "cmp", "in"):
        return False
    return None


def same_key(k, el):
    return k.op == "call" and head(k.a[0]) == "builtins.str" and k.a[1] == (el,)


def vacuous(c):
    """A filter that may well let every element pass."""
    return c.op == "call" and head(c.a[0]) in ("builtins.hasattr", "builtins.isinstance") or c.op == "cmp" and NONE in c.a[1:] and any(
        isinstance(y, Term) and y.op in ("elem", "item") for y in c.a[1:])


def through(v, e):
    """Does the body v of a comprehension determine the element e?"""
    if v is e:
        return True
    if v.op == "attr" and v.a[1] in ("lineage", "lineage_hash"):
        return True
    return inj(v, e)


def ret(proj, cls, name, heap=None):
    f = proj.method(cls, name)
    e = World(proj, opaque=OPQ)
    for k, v in (heap or {}).items():
        e.heap[(SELF, k)] = v
    r = e.run(f, cls=proj.cls(cls))
    r.func, r.loc, r.ev = f, f.loc, e
    return r


NEEDS = {
    "Constant": ["value"],
    "Map": ["method"],
    "SigmaMap": ["method", "median", "lower", "upper"],
    "ConstantSet": ["value"],
    "Plugin": ["depends_on", "provides", "parameters"],
    "ComponentSim": ["rate_name", "norm_type", "bins", "bins_type"],
    "ComponentFixed": ["rate_name", "norm_type", "bins", "bins_type"],
    "Likelihood": ["components"],
    "LikelihoodLit": ["components"],
    "Context": ["par_config", "likelihoods"],
}
FILES = {"Map": "build", "ComponentFixed": "deduce", "Likelihood": "__init__"}


def lineages(proj, book):
    for cls, names in NEEDS.items():
        book.step(cls, one, proj, book, cls, names)


def init_heap(proj, cls):
    """Constructor attributes that are the configuration or one of its entries, as aliases."""
    f = proj.method(cls, "__init__")
    e = World(proj, opaque=opq("set_binning", "_sanity_check", "load_data", "warn"))
    r = e.run(f, cls=proj.cls(cls))
    out = {}
    for (o, k), v in r.heap.items():
        if o is SELF and isinstance(v, Term) and (v.op == "param" or v.op == "item" and v.a[0].op == "param" and v.a[1].op == "const"):
            out[k] = v
    return out


def one(proj, book, cls, names):
    heap = init_heap(proj, cls) if cls in ("Likelihood", "LikelihoodLit") else {}
    r = ret(proj, cls, "lineage", heap)
    t = r.ret
    if t is None:
        book.ob("covers", cls, None, "lineage not evaluated", r.loc)
        return
    unknown = contains(t, lambda y: y.op == "call" and any(a is SELF for a in y.a[1]) and head(y.a[0]) not in ("builtins.hasattr", "builtins.getattr") or
                       y.op == "attr" and y.a[1] == "__dict__")
    MAPPINGS.clear()
    if cls == "ConstantSet":
        MAPPINGS.update(attr(SELF, n) for n in names if mapping(ret(proj, cls, "build").heap.get((SELF, n))))
    for n in names:
        x = attr(SELF, n)
        got = inj(t, x)
        if got is False and unknown:
            got = None
        if got is False and not occurs(t, x) and any(o is SELF and k == n for o, k in r.heap):
            got = None
        book.ob("covers", f"{cls}.{n}", got, f"{n} {'can be recovered from' if got else 'may be lost in' if got is None else 'does not reach' if not occurs(t, x) else 'is not determined by'} the lineage", r.loc)
    if cls in ("Likelihood", "LikelihoodLit"):
        cs = [y for v in heap.values() for y in walk(v) if y.op == "param" and y.a[0].lstrip("*") == "config"]
        got = inj(t, cs[0]) if cs else None
        book.ob("covers", f"{cls}.config", None if got is False and unknown else got, f"the likelihood's configuration {'reaches' if got else 'does not fully reach'} the lineage", r.loc)
    if cls == "Context":
        context(proj, book, r)
    if cls == "SigmaMap":
        x = [y for y in walk(t) if y.op == "call" and head(y.a[0]) in (".required_parameter", ".get_configs")]
        known = {"llh_name", "method", "median", "lower", "upper", "name", "lineage", "type", "help", "default"}
        other = [y for y in walk(t) if y.op == "attr" and y.a[1] not in known or y.op == "global" and y.a[0] not in ("appletree.utils.FULL_PATH_LINEAGE",)]
        got = both(inj(t, y) for y in x) if x else False if not other else None
        book.ob("covers", "SigmaMap.parameter", got, f"the scaling parameter of the map {'reaches' if got else 'does not reach'} the lineage", r.loc)
    if cls == "ComponentSim":
        code = [y for y in walk(t) if y.op == "attr" and y.a[0] is SELF and y.a[1] in ("code", "_code")]
        got = both(inj(t, y) for y in code) if code else False
        book.ob("covers", "ComponentSim.code", got, f"the simulation code {'reaches' if got else 'does not reach'} the lineage", r.loc)
    if cls in ("ComponentSim", "Plugin"):
        parts(proj, book, cls, r)
    if cls in FILES:
        files(proj, book, cls, r, heap)
    pure(book, cls, t, r.loc)
    serial(proj, book, cls, t, r.loc)


def parts(proj, book, cls, r):
    """Lineages of the plugin instances of a component, of the options of a plugin."""
    n = 0
    for c in walk(r.ret):
        if c.op != "comp" or not contains(T("tuple", *[y for y in (c.a[1] if isinstance(c.a[1], tuple) else (c.a[1],)) if isinstance(y, Term)]), lambda y: y.op == "attr" and y.a[1] in ("lineage", "lineage_hash")):
            continue
        n += 1
        src = srcof(c.a[3]) if isinstance(c.a[3], Term) else None
        lost = bool(c.a[4]) and not all(vacuous(x) for x in c.a[4])
        sub = src is not None and src.op == "slice_of"
        body = c.a[1] if isinstance(c.a[1], tuple) else (c.a[1],)
        v = body[-1]
        whole = v.op == "attr" and v.a[1] in ("lineage", "lineage_hash") or v.op in ("dict", "tuple")
        keyed = c.a[0] != "dict" or contains(body[0], lambda y: y.op == "elem")
        ok = False if lost or sub or not keyed else True if whole and not c.a[4] else None
        book.ob("covers", f"{cls}.parts", ok, f"lineage of {'every' if ok else 'not every'} element of {show(src)[:60] if src is not None else '?'}", r.loc)
    if not n:
        lin = contains(r.ret, lambda y: y.op == "attr" and y.a[1] in ("lineage", "lineage_hash") and y.a[0] is not SELF)
        book.ob("covers", f"{cls}.parts", None if lin or contains(r.ret, lambda y: y.op in ("loopout", "closure")) else False, "the lineages of the parts do not enter", r.loc)


def keys_of(proj):
    import json
    import os
    ks = None
    d = os.path.join(proj.repo, "appletree", "instructs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            k = set(json.load(open(os.path.join(d, f))))
            ks = k if ks is None else ks | k
    return ks or set()


def context(proj, book, r):
    x = attr(SELF, "instruct")
    t = r.ret
    if t.op != "dict":
        book.ob("covers", "Context.instruct", inj(t, x), "the lineage is not a dictionary", r.loc)
        return
    known = keys_of(proj)
    seen, lost, over = None, [], False
    for i, (k, v) in enumerate(flat(t)):
        if k is None and inj(v, x) is True or k is not None and inj(v, x) is True:
            seen = i
            if k is not None:
                over = True
            lost = []
        elif k is not None and k.op == "const" and seen is not None and not over:
            if k.a[0] in known and k.a[0] not in ("likelihoods", "par_config"):
                lost.append(k.a[0])
        if k is None and seen == i and any(k2 is not None and isc(k2, "likelihoods") for k2, _ in flat(t)[:i]):
            lost.append("likelihoods (digests of their data)")
    got = inj(t, x) if seen is None else not lost
    book.ob("covers", "Context.instruct", got, "the instruction is in the lineage" if got else f"lost from the instruction: {lost or 'everything'}", r.loc)


def flat(t):
    out = []
    for k, v in t.a:
        if k is None and v.op == "dict":
            out += flat(v)
        else:
            out.append((k, v))
    return out


def file_of(p):
    while p.op == "call" and head(p.a[0]).split(".")[-1] in ("get_file_path", "str", "abspath", "realpath") and p.a[1]:
        p = p.a[1][0]
    return p


def files(proj, book, cls, r, heap):
    t = r.ret
    ds = [y for y in walk(t) if y.op == "call" and head(y.a[0]).endswith("calculate_sha256")]
    other = [y for y in walk(t) if y.op == "call" and ("hash" in head(y.a[0]) or "digest" in head(y.a[0]) or "sha" in head(y.a[0])) and not head(y.a[0]).endswith("calculate_sha256")]
    if not ds:
        book.ob("covers", f"{cls}.content", None if other or contains(t, lambda y: y.op in ("loopout",)) else False, "no digest of the file's content enters the lineage", r.loc)
        return
    got = both(inj(t, d) for d in ds)
    book.ob("covers", f"{cls}.content", got, f"the digest of the file {'reaches' if got else 'does not fully reach'} the lineage", r.loc)
    name = {file_of(d.a[1][0]) for d in ds if d.a[1]}
    # the file that is loaded
    f = proj.method(cls, FILES[cls])
    e = World(proj, opaque=opq("load_data", "load_json", "get_file_path", "set_binning", "_sanity_check", "implement_binning", "build_regbin", "build_point", "_resolve_cached_config"))
    q = e.run(f, cls=proj.cls(cls))
    loads = [ev for ev in q.events if ev.kind == "call" and ev.fn is not None and head(ev.fn).split(".")[-1] in ("load_data", "load_json", "read_csv", "read_pickle")]
    if not loads:
        book.ob("same", cls, None, "loading of the file not recognised", f.loc)
        return
    for ev in loads:
        p = file_of(ev.args[0])
        names = {subst(n, {attr(SELF, k): v for (o, k), v in q.heap.items() if o is SELF and isinstance(v, Term)}) for n in name}
        names = {file_of(n) for n in names} | name
        ok = any(p is n for n in names)
        if not ok:
            ok = None if any(undecidable(n) for n in names) or undecidable(p) or p.op == "phi" else False
        book.ob("same", cls, ok, f"loaded from {show(p)[:80]}, digest of {', '.join(show(n)[:60] for n in name)}", ev.loc)


def pure(book, cls, t, loc):
    bad = [y for y in walk(t) if y.op == "global" and y.a[0].startswith(IMPURE) or y.op == "call" and head(y.a[0]) in ("builtins.id", "builtins.hash")]
    book.ob("pure", cls, not bad, f"the lineage depends on {show(bad[0])[:80]}" if bad else "the lineage is a function of the object and its files", loc)


def serial(proj, book, cls, t, loc):
    """Leaves in value position."""
    arrays = {"bins", "map", "coordinate_system", "coordinate_lowers", "coordinate_uppers", "data", "eff", "hist"}
    bad, n = [], 0

    def leaf(x, g=()):
        nonlocal n
        if x.op == "dict":
            for k, v in x.a:
                if k is not None and k.op in ("tuple", "list", "dict"):
                    bad.append(("a key that is no string", k))
                leaf(v, g)
        elif x.op in ("tuple", "list"):
            for v in x.a:
                leaf(v, g)
        elif x.op == "phi":
            leaf(x.a[1], g + (x.a[0],))
            leaf(x.a[2], g + (neg(x.a[0]),))
        elif x.op == "comp":
            if x.a[0] == "set":
                bad.append(("a set", x))
            elif x.a[0] == "gen":
                bad.append(("a generator", x))
            b = x.a[1]
            leaf(b[-1] if isinstance(b, tuple) else b, g)
        elif x.op == "set" or x.op == "call" and head(x.a[0]) in ("builtins.set", "builtins.frozenset"):
            bad.append(("a set", x))
        elif x.op == "call" and head(x.a[0]) in ("builtins.tuple", "builtins.list", "builtins.dict") and x.a[1]:
            y = x.a[1][0]
            if y.op == "attr" and y.a[1] in arrays:
                bad.append(("arrays", x))
            elif y.op == "comp" and y.a[0] == "gen":
                b = y.a[1]
                leaf(b[-1] if isinstance(b, tuple) else b, g)
            else:
                leaf(y, g)
        elif x.op == "call" and head(x.a[0]) in (".digest", "builtins.iter", "builtins.zip", "builtins.map"):
            bad.append(("no JSON value", x))
        elif x.op == "call" and head(x.a[0]).split(".")[-1] in ("array", "asarray"):
            bad.append(("an array", x))
        elif x.op == "attr" and x.a[0] is SELF and x.a[1] in arrays and not any(absent(c, x) for c in g):
            bad.append(("an array", x))
        elif x.op == "attr" and x.a[1] in ("__class__", "needed_parameters", "instances"):
            bad.append(("no JSON value", x))
        elif x.op == "elem" and isinstance(x.a[1], Term) and x.a[1].op == "attr" and x.a[1].a[1] in arrays:
            bad.append(("an array", x))
        else:
            n += 1
    if cls == "ConstantSet":
        b = ret(proj, cls, "build")
        v = b.heap.get((SELF, "value"))
        if v is not None:
            t = subst(t, {attr(SELF, "value"): v})
            for y in walk(ret(proj, cls, "lineage").ret):
                if y.op == "item" and y.a[0] is attr(SELF, "value") and contains(v, lambda z: z.op == "call" and head(z.a[0]).split(".")[-1] in ("array", "asarray")):
                    pass
            raw = ret(proj, cls, "lineage").ret
            d = item(raw, C("value"))
            if contains(v, lambda z: z.op == "call" and head(z.a[0]).split(".")[-1] in ("array", "asarray")) and d.op in ("attr", "comp") and not contains(
                    d, lambda z: z.op == "call" and head(z.a[0]).split(".")[-1] in ("tolist", "list", "float", "str", "tuple")):
                bad.append(("arrays", d))
    leaf(t)
    book.ob("json", cls, not bad, f"{show(bad[0][1])[:80]} is {bad[0][0]}" if bad else f"{n} leaves are plain values", loc)


def hashes(proj, book):
    done = set()
    for cls in ("Config", "Plugin", "Component", "Likelihood", "Context"):
        for c in [cls] + [s for s in ("Constant", "Map", "SigmaMap", "ConstantSet", "ComponentSim", "ComponentFixed", "LikelihoodLit") if proj.cls(cls) in proj.cls(s).mro()]:
            f = proj.method(c, "lineage_hash")
            if f.qual in done:
                continue
            done.add(f.qual)
            r = ret(proj, c, "lineage_hash")
            t = r.ret
            x = attr(SELF, "lineage")
            if t is None:
                book.ob("hash", c, None, "lineage_hash not evaluated", r.loc)
                continue
            got = inj(t, x)
            extra = [y for y in walk(t) if y.op == "attr" and y.a[0] is SELF and y is not x] + [y for y in walk(t) if y.op == "global" and y.a[0].startswith(IMPURE)]
            bad = extra or contains(t, lambda y: y.op == "call" and head(y.a[0]) in ("builtins.hash", "builtins.id"))
            if bad and extra and extra[0].op == "attr" and got is True and not extra[0].a[1].startswith("__"):
                got = False
            elif bad:
                got = False
            book.ob("hash", c, got, f"the hash is {show(t)[:100]}", r.loc)


def dump(proj, book):
    f = proj.func("dump_lineage")
    r = run(proj, None, "dump_lineage")
    ent = [a.arg for a in f.node.args.args][-1]
    x = attr(par(ent), "lineage")
    ws = [(e, e.args[-1]) for e in r.events if e.kind == "call" and e.fn is not None and (head(e.fn) in (".write", ".write_text"))]
    ws += [(e, T("call", e.fn, (e.args[0],), tuple(e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs or ()))) for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn) == "json.dump" and e.args]
    if not ws:
        book.ob("dump", "dump_lineage", None, "writing not recognised", r.loc)
    for e, v in ws:
        ok = None
        for y in walk(v):
            if y.op == "call" and head(y.a[0]) in ("json.dumps", "json.dump") and y.a[1]:
                ok = inj(y.a[1][0], x)
                if any(k == "skipkeys" and not isc(q, False) for k, q in y.a[2]):
                    ok = False
        if ok is None and not occurs(v, x) and not undecidable(v):
            ok = False
        book.ob("dump", "dump_lineage", ok, f"writes {show(v)[:100]}", e.loc)


# ---- digest of a file

class Unclear(Exception):
    pass


class Blocks:
    """Typestate of the blocks read: (name of the block not yet hashed, whether it is known empty/nonempty, end of file seen)."""

    ONCE = ("read", "read_bytes", "readall")
    PART = ("read", "readline", "read1")

    def __init__(self, node):
        self.node, self.exits, self.lost = node, [], []

    # state: (pending name | None, kind of what was read: "any"|"some"|"none", eof)
    def reads(self, n):
        """'all' | 'part' if n is a call that reads the file."""
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.ONCE + self.PART):
            return None
        a = n.args[0] if n.args else n.keywords[0].value if n.keywords else None
        if n.func.attr == "readline":
            return "part"
        if a is None or isinstance(a, ast.Constant) and a.value in (None, -1) or ast.unparse(a) == "-1":
            return "all"
        return "part"

    def hashing(self, n):
        """The argument hashed if n updates or builds a digest."""
        if isinstance(n, ast.Call) and n.args and (isinstance(n.func, ast.Attribute) and n.func.attr == "update" or (
                n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")).startswith(("sha", "md5", "blake"))):
            return n.args[0]
        return None

    def expr(self, n, st):
        """States after evaluating n."""
        out = st
        if isinstance(n, ast.NamedExpr):
            return self.assign(n.target.id, n.value, st)
        h = self.hashing(n)
        if h is not None:
            if isinstance(h, ast.Name):
                return {(None, k, e) if p == h.id else (p, k, e) for p, k, e in st}
            r = self.reads(h)
            if r:
                return {(p, "any", True if r == "all" else e) for p, k, e in self.over(st)}
            if isinstance(h, ast.NamedExpr):
                st = self.expr(h, st)
                return {(None, k, e) if p == h.target.id else (p, k, e) for p, k, e in st}
            if isinstance(h, ast.Subscript) and isinstance(h.value, ast.Name) and any(p == h.value.id for p, _, _ in st):
                raise Unclear("part of a block is hashed")
            raise Unclear("something else is hashed")
        if self.reads(n):
            raise Unclear("a block is read and used in an unknown way")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "seek" and n.args:
            k = [a.value if isinstance(a, ast.Constant) else None for a in n.args]
            if k[0] == 0 and (len(k) == 1 or k[1] == 0):
                return {(p, kind, False) for p, kind, e in st}
            if isinstance(k[0], int) and k[0] > 0 and (len(k) == 1 or k[1] in (0, 1)):
                self.lost.append("the beginning of the file is skipped")
                return st
            raise Unclear("the position in the file is changed")
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                out = self.expr(c, out)
        return out

    def over(self, st):
        """Another read: what is pending and not known to be empty is lost."""
        for p, k, e in st:
            if p is not None and k != "none":
                self.lost.append("a block read is overwritten before it is hashed")
        return {(None, k, e) for p, k, e in st}

    def assign(self, name, v, st):
        r = self.reads(v)
        if r:
            return {(name, "any", True if r == "all" else e) for p, k, e in self.over(st)}
        if any(isinstance(x, ast.Name) and any(p == x.id for p, _, _ in st) for x in ast.walk(v)) and self.hashing(v) is None:
            if not (isinstance(v, ast.Call) and getattr(v.func, "id", "") == "len" or isinstance(v, (ast.Compare, ast.UnaryOp))):
                raise Unclear("a block is used in an unknown way")
        return self.expr(v, st)

    def test(self, c, st):
        """(states if c holds, states if not)."""
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            a, b = self.test(c.operand, st)
            return b, a
        if isinstance(c, ast.Constant):
            return (st, set()) if c.value else (set(), st)
        if isinstance(c, ast.NamedExpr):
            st = self.expr(c, st)
            c = c.target
        if isinstance(c, ast.BoolOp):
            raise Unclear("a compound condition")
        if isinstance(c, ast.Name):
            return self.split(c.id, st)
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            a, b, o = c.left, c.comparators[0], c.ops[0]
            if isinstance(a, ast.NamedExpr):
                st = self.expr(a, st)
                a = a.target
            n = a.id if isinstance(a, ast.Name) else None
            ln = isinstance(a, ast.Call) and getattr(a.func, "id", "") == "len" and a.args and isinstance(a.args[0], ast.Name)
            if n is not None and isinstance(b, ast.Constant) and b.value in (b"", ""):
                if b.value == "" and not self.text:
                    return ((set(), st) if isinstance(o, (ast.Eq, ast.Is)) else (st, set()))
                t, f = self.split(n, st)
                return (f, t) if isinstance(o, ast.Eq) else (t, f) if isinstance(o, ast.NotEq) else self.unknown(c, st)
            if ln:
                n = a.args[0].id
                if isinstance(b, ast.Constant) and b.value == 0:
                    t, f = self.split(n, st)
                    if isinstance(o, ast.Eq):
                        return f, t
                    if isinstance(o, (ast.Gt, ast.NotEq)):
                        return t, f
                    return self.unknown(c, st)
                short = {(p, k, True) for p, k, e in st}
                if isinstance(o, (ast.Lt, ast.NotEq)):
                    return short, {(p, "some" if p == n else k, e) for p, k, e in st}
                if isinstance(o, (ast.GtE, ast.Eq)):
                    return {(p, "some" if p == n else k, e) for p, k, e in st}, short
            return self.unknown(c, st)
        return self.unknown(c, st)

    def unknown(self, c, st):
        if any(self.reads(x) or self.hashing(x) is not None for x in ast.walk(c)):
            raise Unclear("a read in a condition")
        return st, st

    def split(self, n, st):
        t, f = set(), set()
        for p, k, e in st:
            if self.cur is not None and n != self.cur:
                t.add((p, k, e))
                f.add((p, k, e))
                continue
            if k in ("any", "some"):
                t.add((p, "some", e))
            if k in ("any", "none"):
                f.add((None if p == n else p, "none", True))
        return t, f

    def block(self, body, st):
        """(states falling through, states breaking, states continuing)."""
        br, co = set(), set()
        for s in body:
            if not st:
                break
            st, b, c = self.stmt(s, st)
            br |= b
            co |= c
        return st, br, co

    def stmt(self, s, st):
        if isinstance(s, (ast.Break,)):
            return set(), st, set()
        if isinstance(s, ast.Continue):
            return set(), set(), st
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.expr(s.value, st)
            self.exits += [x for x in st]
            return set(), set(), set()
        if isinstance(s, ast.Raise):
            return set(), set(), set()
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            if self.reads(s.value):
                self.cur = s.targets[0].id
            return self.assign(s.targets[0].id, s.value, st), set(), set()
        if isinstance(s, ast.Expr):
            return self.expr(s.value, st), set(), set()
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.If):
            t, f = self.test(s.test, st)
            a = self.block(s.body, t)
            b = self.block(s.orelse, f)
            return tuple(x | y for x, y in zip(a, b))
        if isinstance(s, ast.While):
            if isinstance(s.test, ast.NamedExpr):
                self.cur = s.test.target.id
            seen, out, br = set(), set(), set()
            todo = set(st)
            while todo - seen:
                seen |= todo
                t, f = self.test(s.test, todo)
                out |= f
                n, b, c = self.block(s.body, t)
                br |= b
                todo = n | c
            x, b, c = self.block(s.orelse, out)
            return x | br, b, c
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
            it = s.iter
            kind = None
            if isinstance(it, ast.Call) and getattr(it.func, "id", "") == "iter" and len(it.args) == 2 and isinstance(it.args[0], ast.Lambda) and self.reads(it.args[0].body) == "part":
                if isinstance(it.args[1], ast.Constant) and it.args[1].value in ((b"",) if not self.text else (b"", "")):
                    kind = "blocks"
                elif isinstance(it.args[1], ast.Constant):
                    self.lost.append(f"blocks are read until {it.args[1].value!r}")
                    return st, set(), set()
            elif isinstance(it, ast.Name) and it.id in self.files:
                kind = "blocks"
            if any(self.reads(x) for x in ast.walk(it)) and kind is None:
                raise Unclear("a loop over reads")
            seen, out, br, todo = set(), set(), set(), set(st)
            if kind:
                self.cur = s.target.id
            while todo - seen:
                seen |= todo
                if kind:
                    base = self.over(todo)
                    out |= {(None, "none", True) for _ in base}
                    t = {(s.target.id, "some", e) for p, k, e in base}
                else:
                    out |= todo
                    t = todo
                n, b, c = self.block(s.body, t)
                br |= b
                todo = n | c
            x, b, c = self.block(s.orelse, out)
            return x | br, b, c
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
            return st, set(), set()
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if any(isinstance(x, ast.Name) and x.id == self.cur or self.reads(x) or self.hashing(x) is not None for x in ast.walk(s)):
                raise Unclear("a block is used in an unknown way")
            return st, set(), set()
        raise Unclear(type(s).__name__)

    def run(self):
        self.cur = None
        self.files = {i.optional_vars.id for w in ast.walk(self.node) if isinstance(w, ast.With) for i in w.items if isinstance(i.optional_vars, ast.Name)}
        st, _, _ = self.block(self.node.body, {(None, "none", False)})
        for p, k, e in list(st) + self.exits:
            if p is not None and k != "none":
                self.lost.append("the last block read is not hashed")
            if not e:
                self.lost.append("the digest is returned before the end of the file")
        return self.lost



def digest(proj, book):
    f = proj.func("calculate_sha256")
    loc = lambda n: (f.loc[0], n.lineno, f.qual)
    path = f.node.args.args[0].arg
    opens = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == "open" or isinstance(n.func, ast.Attribute) and n.func.attr in ("open", "read_bytes", "read_text"))]
    if len(opens) != 1:
        book.ob("digest", "open", None, f"{len(opens)} files opened", f.loc)
        return
    o = opens[0]
    mode = None
    if isinstance(o.func, ast.Name) or o.func.attr == "open":
        args = o.args[1:] if isinstance(o.func, ast.Name) else o.args
        m = args[0] if args else next((k.value for k in o.keywords if k.arg == "mode"), None)
        mode = m.value if isinstance(m, ast.Constant) else "r" if m is None else None
        book.ob("digest", "mode", None if mode is None else "b" in mode and "r" in mode, f"opened with mode {mode!r}", loc(o))
        if isinstance(o.func, ast.Name):
            a0 = o.args[0] if o.args else None
            book.ob("digest", "path", True if isinstance(a0, ast.Name) and a0.id == path else False if isinstance(a0, ast.Constant) else None, "the file given is opened", loc(o))
    else:
        book.ob("digest", "mode", o.func.attr == "read_bytes", f"read with {o.func.attr}", loc(o))
    reads = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("read", "readline", "readlines", "read1", "readinto", "seek", "read_bytes")]
    fd = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")) == "file_digest"]
    if fd and not reads:
        book.ob("digest", "whole", True, "hashlib.file_digest reads the whole file", loc(fd[0]))
        return
    if any(n.func.attr in ("truncate", "readinto") for n in reads):
        book.ob("digest", "whole", None, "the position in the file is moved", f.loc)
    elif reads or any(isinstance(n, ast.For) for n in ast.walk(f.node)):
        bl = Blocks(f.node)
        bl.text = not (mode and "b" in mode)
        try:
            lost = bl.run()
            book.ob("digest", "whole", not lost, lost[0] if lost else "every block until the end of the file is hashed", loc(reads[0]) if reads else f.loc)
        except Unclear as e:
            book.ob("digest", "whole", None, str(e), f.loc)
    else:
        book.ob("digest", "whole", None if len([n for n in ast.walk(f.node) if isinstance(n, ast.Call)]) > 4 else False, "the content is not read", f.loc)
    r = run(proj, None, "calculate_sha256")
    t = r.ret
    if t is not None:
        cut = contains(t, lambda y: y.op == "slice") or t.op == "item"
        full = t.op == "call" and head(t.a[0]) in (".hexdigest",)
        book.ob("digest", "value", True if full else False if cut or t.op == "const" else None, f"returns {show(t)[-60:]}", r.loc)


def check(proj, book):
    for f in (lineages, hashes, dump, digest):
        book.step(f.__name__, f, proj, book)
    book.floor("covers", 20)
    book.floor("hash", 4)
