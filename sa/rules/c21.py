"""C21: backend metadata written after sampling can rebuild the context; stored text is parsed, never executed."""

from ..help import *

META = {
    "level": "other",
    "technique": "effect extraction (which value is stored under which attribute name, in which encoding) matched with the reads of from_backend",
    "explain": "Every store into the attributes of the backend file reachable from a fit is collected with its value term; the reads "
               "of from_backend and of the plotter are collected likewise.  Names, encoding and decoding must correspond, the stored "
               "value must be the context's own, and the store must follow the sampling on every path.",
    "rules": {
        "stored": "instructions, batch size, prior configuration, best fit, parameter order, configuration and version are stored",
        "json": "structured values are stored as JSON text of the value itself",
        "options": "the JSON options drop nothing",
        "read": "every attribute read back is one that is written (or that emcee writes), and decoded as written",
        "no_exec": "nothing read from the file is evaluated as code",
        "rebuild": "the rebuilt context is made from exactly the instructions read, with the stored walkers and batch size, without resetting the file",
        "after": "metadata are stored after sampling, in fitting and in its continuation, with the batch size used",
        "mode": "the file is opened for update, never truncated",
    },
    "assumptions": ["emcee stores nwalkers, ndim, iteration, has_blobs and accepted in the group"],
}
EMCEE = {"nwalkers", "ndim", "iteration", "has_blobs", "version", "random_state"}
EXEC = ("builtins.eval", "builtins.exec", "builtins.compile", "pickle.loads", "ast.literal_eval", "yaml.load", "marshal.loads",
        "dill.loads", "jsonpickle.decode")


def base_of(t):
    while t.op == "setitem":
        t = t.a[0]
    return t


def is_attrs(t):
    t = base_of(t)
    return t.op == "attr" and t.a[1] == "attrs"


def writes(r):
    """(key term, value, event) for every store into an .attrs mapping."""
    out = []
    for e in r.events:
        if e.kind == "mutate" and e.args and is_attrs(e.args[0]):
            if e.fn is not None and str(getattr(e, "extra", "")) == "pop":
                continue
            if len(e.args) == 2 and isinstance(e.args[1], Term) and e.value is not None:
                out.append((e.args[1], e.value, e))
            for x in e.args[1:]:
                if x.op == "dict":
                    out += [(kv[0], kv[1], e) for kv in x.a if isinstance(kv, tuple)]
        elif e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[1] in ("create", "modify", "__setitem__", "update") and is_attrs(e.fn.a[0]):
            if e.fn.a[1] == "update":
                for x in e.args or ():
                    if x.op == "dict":
                        out += [(kv[0], kv[1], e) for kv in x.a if isinstance(kv, tuple)]
            elif len(e.args) >= 2:
                out.append((e.args[0], e.args[1], e))
    return out


def undumps(v):
    """(kind, inner): json text of inner, raw value, or other."""
    if v.op == "call" and v.a[0].op == "global":
        n = v.a[0].a[0]
        if n in ("json.dumps", "simplejson.dumps", "ujson.dumps") and v.a[1]:
            return "json", v.a[1][0], v
        if n in ("builtins.str", "builtins.repr", "pprint.pformat", "pickle.dumps"):
            return "text", v.a[1][0] if v.a[1] else v, v
    if v.op in ("fstr",):
        return "text", v, v
    return "raw", v, v


def check(proj, book):
    w = book.step("written", written, proj, book) or {}
    book.step("options", options, proj, book)
    book.step("read", read, proj, book, w)
    book.step("after", after, proj, book)
    book.floor("stored", 4)
    book.floor("rebuild", 2)
    book.floor("after", 2)


def written(proj, book):
    r = run(proj, "Context", "_dump_meta", opaque=opq("get_post_parameters", "lineage", "get_all_parameter"))
    ws = writes(r)
    pm = attr(SELF, "par_manager")
    want = {
        "instruct": ("json", attr(SELF, "instruct")),
        "par_config": ("json", attr(pm, "par_config")),
        "config": ("json", attr(SELF, "config")),
        "batch_size": ("raw", par("batch_size")),
        "metadata": ("json", None),
        "post_parameters": ("json", None),
        "parameter_fit": ("raw", None),
    }
    found = {}
    unknown = [k for k, _, _ in ws if k.op != "const"]
    for k, v, e in ws:
        if k.op == "const":
            found.setdefault(k.a[0], []).append((v, e))
    backend = T("cmp", "is", attr(SELF, "backend_h5"), NONE)
    for k, (enc, val) in want.items():
        if k not in found:
            book.ob("stored", k, None if unknown or not ws else False, f"{k} is not stored in the backend", r.loc)
            continue
        for v, e in found[k][-1:]:
            g = subst(conj(e.guard), {backend: FALSE, neg(backend): TRUE, attr(SELF, "backend_h5"): C("file")})
            g = simp_none(g)
            ok = True if isc(g, True) else None if contains(g, lambda x: x.op in ("unknown", "except", "loopvar")) else (
                None if feasible(g) and not definite_skip(g) else False)
            book.ob("stored", k, ok, f"{k} is stored when {show(g)[:100]}", e.loc)
            kind, inner, call = undumps(v)
            if enc == "json":
                ok = kind == "json"
                if kind == "raw":
                    ok = None if inner.op in ("call", "unknown", "phi") else False
                book.ob("json", k, ok, f"{k} is stored as {show(v)[:120]}", e.loc)
                if kind == "json" and any(kk == "skipkeys" and not isc(q, False) for kk, q in call.a[2]):
                    book.ob("options", k, False, "skipkeys drops entries", e.loc)
            elif kind == "text":
                book.ob("json", k, None, f"{k} is stored as text", e.loc)
            if k == "parameter_fit":
                x = strip(inner)
                while x.op == "call" and fname(x.a[0]) in ("array", "list", "tuple") and len(x.a[1]) == 1 or \
                        x.op == "call" and x.a[0] in (G("builtins.list"), G("builtins.tuple")) and len(x.a[1]) == 1:
                    x = x.a[1][0]
                here = subst(run(proj, "Parameter", "parameter_fit").ret, {SELF: pm}) if "parameter_fit" in proj.cls("Parameter").methods else None
                ok = True if x is attr(pm, "parameter_fit") or here is not None and canon(x) is canon(here) or strip(inner) is here else None
                if x in (attr(pm, "par_config"), attr(SELF, "par_config")) or x.op == "const" or x.op == "attr" and x.a[0] is pm:
                    ok = False
                book.ob("stored", k + ":value", ok, f"the value stored as {k} is {show(inner)[:120]}", e.loc)
            if val is not None and kind in ("json", "raw"):
                x = strip(inner)
                ok = True if x is val else None
                if ok is None and enc == "raw" and x.op == "call" and fname(x.a[0]) in ("toint", "array") and x.a[1] and x.a[1][0] is val:
                    ok = True
                if ok is None:
                    # another field of the context, or a constant, instead of the value
                    ok = False if x.op in ("const", "attr", "param", "dict") or (enc == "json" and k == "par_config" and x is attr(SELF, "par_config") and False) else None
                    if k == "par_config" and x is attr(SELF, "par_config"):
                        ok = True
                    if ok is None and x.op == "comp" and x.a[0] == "dict" and x.a[3] is val:
                        k_, v_ = x.a[1].a[:2] if x.a[1].op == "tuple" else (None, None)
                        el = T("elem", x.a[2], val)
                        if k_ is el and v_ is idx(val, el):
                            cond = conj(x.a[4])
                            ok = True if isc(cond, True) else False if not contains(cond, lambda y: y.op in ("unknown", "except")) and any(
                                y.op == "cmp" and y.a[0] in ("==", "!=", "in", "not in") and y.a[1] is el and y.a[2].op in ("const", "tuple", "set", "list")
                                or y.op == "cmp" and y.a[0] in ("==", "!=") and y.a[2] is el and y.a[1].op == "const" for y in walk(cond)) else None
                    if k == "config" and x.op == "call" and contains(x, lambda y: y is attr(SELF, "instruct")):
                        ok = None
                book.ob("stored", k + ":value", ok, f"the value stored as {k} is {show(inner)[:120]}", e.loc)
            if k == "metadata" and kind == "json":
                ok = contains(inner, lambda x: x.op == "const" and x.a[0] == "version" or x.op == "global" and "version" in x.a[0]
                              or x.op == "attr" and "version" in x.a[1])
                book.ob("stored", k + ":version", ok or None, "the metadata contain the version", e.loc)
            if k == "post_parameters" and kind == "json":
                x = strip(inner)
                ok = x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get_post_parameters"
                book.ob("stored", k + ":value", True if ok and (not x.a[1] or isc(x.a[1][0], "mpe")) and all(isc(q, "mpe") for _, q in x.a[2])
                        else False if ok else None, f"best fit stored is {show(inner)[:100]}", e.loc)
    # open mode
    for e in r.events:
        if e.kind == "call" and head(e.fn) == "h5py.File":
            m = arg(e, 1, "mode")
            ok = None if m is None or m.op != "const" else m.a[0] in ("r+", "a")
            if m is None:
                ok = False  # the default mode is read only
            book.ob("mode", "_dump_meta", ok, f"opened with mode {show(m) if m is not None else 'r'}", e.loc)
    return found


def strip(t):
    while t.op == "call" and head(t.a[0]).split(".")[-1] in ("deepcopy", "copy", "dict") and (t.a[1] or t.a[0].op == "attr"):
        t = t.a[1][0] if t.a[1] else t.a[0].a[0]
    return t


def simp_none(g):
    def f(x):
        if x.op == "cmp" and x.a[0] in ("is", "is not", "==", "!=") and x.a[1].op == "const" and x.a[2].op == "const":
            eq = x.a[1].a[0] == x.a[2].a[0] and type(x.a[1].a[0]) is type(x.a[2].a[0])
            return C(eq if x.a[0] in ("is", "==") else not eq)
        return x
    return conj((rewrite(g, f),))


def definite_skip(g):
    return False


def options(proj, book):
    for m in proj.modules.values():
        for v in m.consts.get("JSON_OPTIONS", []):
            if v is None:
                continue
            import ast
            if isinstance(v, ast.Dict):
                d = {k.value: x for k, x in zip(v.keys, v.values) if isinstance(k, ast.Constant)}
                bad = [k for k in ("skipkeys",) if k in d and not (isinstance(d[k], ast.Constant) and d[k].value is False)]
                book.ob("options", "JSON_OPTIONS", not bad, f"options {sorted(d)}", (m.rel, v.lineno, "JSON_OPTIONS"))


def attrs_map(t):
    """The attributes of an HDF5 object, or a copy of them as a dictionary."""
    t = strip(t)
    if t.op == "comp" and t.a[0] == "dict":
        return False
    return t.op == "attr" and t.a[1] == "attrs"


def attr_reads(t):
    """(key, term) of every constant subscript of an .attrs mapping inside t."""
    out = []
    for x in walk(t):
        if x.op == "item" and x.a[1].op == "const" and attrs_map(x.a[0]):
            out.append((x.a[1].a[0], x))
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("get", "__getitem__") and attrs_map(x.a[0].a[0]) \
                and x.a[1] and x.a[1][0].op == "const":
            out.append((x.a[1][0].a[0], x))
    return out


def terms(r):
    for e in r.events:
        for x in list(e.args or ()) + [e.value, e.term] + [v for _, v in (e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs or ())]:
            if isinstance(x, Term):
                yield x, e
    yield r.ret, None


def read(proj, book, w):
    r = run(proj, "Context", "from_backend", opaque=opq("get_file_path", "pre_fitting", "set_global_config"))
    names = set()
    for x, e in terms(r):
        for k, t in attr_reads(x):
            names.add((k, t))
    for k in sorted({k for k, _ in names}):
        book.ob("read", "from_backend:" + k, True if k in w or k in EMCEE else (None if not w else False), f"attribute {k} is read back", r.loc)
    isread = lambda k: (lambda x: any(t is x and kk == k for kk, t in names))
    # nothing evaluated
    for e in r.events:
        if e.kind == "call" and head(e.fn) in EXEC:
            bad = any(contains(a, lambda x: x.op == "attr" and x.a[1] == "attrs" or x.op == "call" and head(x.a[0]) == "h5py.File") for a in e.args)
            book.ob("no_exec", f"from_backend:{head(e.fn)}", False if bad else None, f"{head(e.fn)} is applied to {show(e.args[0])[:100] if e.args else ''}", e.loc)
    # the instructions
    made = [e for e in r.events if e.kind == "call" and (e.fn is T("param", "cls") or e.fn is not None and e.fn.op == "global" and e.fn.a[0].endswith(".Context"))]
    for e in made:
        ins = arg(e, 0, "instruct")
        kind = None
        if ins is not None:
            x = ins
            if x.op == "call" and head(x.a[0]) == "json.loads" and x.a[1]:
                y = x.a[1][0]
                y = y.a[0].a[0] if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "decode" else y
                kk = [k for k, t in names if t is y]
                kind = True if kk == ["instruct"] else False if kk else None
            elif x.op == "call" and head(x.a[0]) in EXEC:
                kind = False
            elif x.op == "pop" or x.op in ("setitem", "delitem"):
                y = x
                while y.op in ("pop", "setitem", "delitem"):
                    y = y.a[0]
                if y.op == "call" and head(y.a[0]) == "json.loads" and x.op != "setitem":
                    kind = False  # an instruction that was stored is dropped
            elif any(t is x for _, t in names):
                kind = False  # text is handed over undecoded
        book.ob("rebuild", "instruct", kind, f"the context is rebuilt from {show(ins)[-160:] if ins is not None else '?'}", e.loc)
        book.ob("no_exec", "from_backend", False if ins is not None and ins.op == "call" and head(ins.a[0]) in EXEC else True,
                "instructions are parsed as data", e.loc)
    f = proj.method("Context", "pre_fitting")
    dflt = {}
    a = f.node.args
    import ast
    for n, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            dflt[n.arg] = C(d.value)
    order_ = [x.arg for x in a.args][1:]
    for e in r.events:
        if e.kind == "call" and head(e.fn) == ".pre_fitting":
            for p in ("nwalkers", "batch_size"):
                v = arg(e, order_.index(p) if p in order_ else None, p)
                v0 = v
                while v is not None and v.op == "call" and head(v.a[0]) in ("builtins.int", "numpy.int64") and v.a[1]:
                    v = v.a[1][0]
                ok = None
                if v is None:
                    ok = False
                else:
                    kk = [k for k, t in names if t is v]
                    ok = kk == [p] if kk else (False if v.op == "const" else None)
                    if ok is None:
                        # a value computed from the one stored: with a stored 1234567 (no multiple of anything) it has to come out
                        z = subst(v, {t: C(1234567) for k, t in names if k == p})
                        z = rewrite(z, lambda x: binop(x.a[0], x.a[1], x.a[2]) if x.op == "bin" else x)
                        if z.op == "const":
                            ok = z.a[0] == 1234567
                book.ob("rebuild", p, ok, f"{p} of the rebuilt context is {show(v0)[-120:] if v0 is not None else 'the default'}", e.loc)
            v = arg(e, order_.index("reset") if "reset" in order_ else None, "reset", dflt.get("reset"))
            book.ob("rebuild", "reset", True if v is None or isc(v, False) else False if isc(v, True) else None, "the file read is not reset", e.loc)
    hb = [(k, v) for k, v in r.heap.items() if isinstance(k, tuple) and k[1] == "backend_h5"]
    for e in r.events:
        if e.kind == "call" and head(e.fn) == "h5py.File":
            m = arg(e, 1, "mode")
            book.ob("mode", "from_backend", True if m is None or isc(m, "r", "r+", "a") else False if m.op == "const" else None,
                    "the backend is opened without truncation", e.loc)
    # the plotter
    r2 = run(proj, "Plotter", "__init__")
    for x, e in terms(r2):
        for k, t in attr_reads(x):
            book.ob("read", "Plotter:" + k, True if k in w or k in EMCEE else (None if not w else False), f"attribute {k} is read by the plotter", r2.loc)
    for e in r2.events:
        if e.kind == "call" and head(e.fn) in EXEC:
            bad = any(contains(a, lambda x: x.op == "attr" and x.a[1] == "attrs") for a in e.args)
            book.ob("no_exec", "Plotter", False if bad else None, f"{head(e.fn)} on stored text", e.loc)
    import itertools
    for k, t in attr_reads_heap(r2):
        enc = [undumps(v)[0] for v, _ in w.get(k, [])]
        if enc and enc[-1] == "json":
            book.ob("read", f"Plotter:{k}:decode", decode_ok(r2, t), f"stored JSON text {k} is decoded as JSON", r2.loc)


def attr_reads_heap(r):
    out = {}
    for v in r.heap.values():
        for k, t in attr_reads(v):
            out[k] = t
    return out.items()


def decode_ok(r, t):
    for v in r.heap.values():
        if occurs(v, t):
            if contains(v, lambda x: x.op == "call" and head(x.a[0]) == "json.loads" and x.a[1] and occurs(x.a[1][0], t)):
                return True
            return False if v is t or contains(v, lambda x: x.op == "call" and head(x.a[0]) in EXEC) else None
    return None


def after(proj, book):
    for m in ("fitting", "continue_fitting"):
        r = run(proj, "Context", m, opaque=opq("_set_backend", "_dump_meta", "_sanity_check", "sample_init", "pre_fitting"))
        runs = [i for i, e in enumerate(r.events) if e.kind == "call" and head(e.fn).split(".")[-1] in ("run_mcmc", "sample")]
        dumps = [i for i, e in enumerate(r.events) if e.kind == "call" and head(e.fn).split(".")[-1] == "_dump_meta"]
        if not dumps:
            ws = writes(r)
            hidden = any(e.kind == "call" and e.fn is not None and e.fn.op == "attr" and e.fn.a[0] is SELF and
                         e.fn.a[1] not in ("pre_fitting", "_sanity_check", "_set_backend") for e in r.events)
            late = bool(ws) and bool(runs)
            book.ob("after", m, True if late else None if hidden or not runs else False, "no metadata are stored after sampling", r.loc)
            continue
        if not runs:
            book.ob("after", m, None, "no sampling call found", r.loc)
            continue
        last = r.events[dumps[-1]]
        e0 = r.events[runs[-1]]
        extra = [g for g in last.guard if g not in e0.guard]
        extra = [g for g in extra if not subsumed(g)]
        ok = dumps[-1] > runs[-1]
        if ok and extra:
            # conditional: on some path nothing is stored after the run
            ok = False if not any(contains(g, lambda x: x.op in ("unknown", "except")) for g in extra) and all(
                has_backend_test(g) is None for g in extra) else (True if all(has_backend_test(g) for g in extra) else None)
        book.ob("after", m, ok, f"metadata are stored {'after' if dumps[-1] > runs[-1] else 'before'} sampling"
                + (f" only if {show(extra[0])[:80]}" if extra else ""), last.loc)
        bs = arg(last, 0, "batch_size")
        book.ob("after", m + ":batch_size", False if bs is None else True if bs is par("batch_size") else (
            False if bs.op in ("const", "param") else None), f"batch size stored is {show(bs)[:60] if bs is not None else 'missing'}", last.loc)


def subsumed(g):
    return isc(g, True)


def has_backend_test(g):
    return True if contains(g, lambda x: x.op == "attr" and x.a[1] in ("backend_h5", "_backend")) else None
