"""C27: the unused-configuration check reports exactly the options configured and never read."""

from ..help import *
from ..terms import show
from .c11 import CFG, D, V, VA, VB, after, ev, final
from .c20 import tdict

META = {
    "level": "other",
    "technique": "read/write effect analysis of the configuration table: which operations record a key as read, on which paths of setting, building and clearing they occur",
    "explain": "The methods of the recording table are evaluated to find which record their key.  Setting configuration and registering plugins must use "
               "none of these on an option; every lookup made by a build must use one of them on the option's name on each path that returns; "
               "clearing must empty options and records; and the set reported is evaluated, element by element, in the four cases configured/read.",
    "rules": {
        "table": "reading an entry records its key and returns the stored value; storing stores; records start empty",
        "set": "setting configuration records no option as read",
        "build": "an option a build reads is recorded (and a default it stores counts as used)",
        "register": "registering plugins and showing the configuration record no option as read",
        "clear": "clearing forgets options and records",
        "report": "what is reported is exactly the set of configured options without record, and only if there is one",
    },
    "assumptions": ["methods of dict that RecordingDict does not override do not call its overridden methods (CPython semantics of dict)"],
}
TAB = G(CFG[1])
KEY = par("key")


def table_class(proj):
    """The class of the configuration table."""
    import ast
    m = proj.modules.get("appletree.share")
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_cached_configs" for t in s.targets):
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                return s.value.func.id
    return None


def records(proj, cname, name):
    """(does method `name` record its key, evaluation): True/False/None; False if not overridden."""
    c = proj.cls(cname)
    f = next((k.methods[name] for k in c.mro() if name in k.methods), None)
    if f is None:
        return False, None
    f = f[0] if isinstance(f, (list, tuple)) else f
    pos = [a.arg for a in f.node.args.args[1:]]
    args = {pos[0]: KEY} if pos and name in ("__getitem__", "__setitem__", "get", "setdefault", "pop", "__contains__", "__delitem__") else {}
    r = run(proj, cname, name, args=args)
    g = [e for e in r.events if e.kind == "mutate" and e.args and any(x.op == "attr" and x.a[0] is SELF for x in walk(e.args[0]) if isinstance(x, Term))
         and e.fn in ("add", "update", "append", "setitem")]
    hs = {k[1]: v for k, v in r.heap.items() if k[0] is SELF}
    if name == "update":
        # updates go through item assignment?
        item_ = [e for e in r.events if e.kind == "mutate" and e.fn == "setitem" and e.args and e.args[0] is SELF]
        if item_ or g:
            w = True if g else records(proj, cname, "__setitem__")[0]
            return w, r
        return False, r
    out = False
    for k, v in hs.items():
        if not isinstance(v, Term):
            continue
        if contains(v, lambda x: x is KEY):
            a = holds(v, KEY, attr(SELF, k))
            out = True if a is True or out is True else None if a is None or out is None else False
    return out, r


def holds(v, key, old):
    """Is key in set v on every path (given nothing about the old set)?"""
    if v.op == "setadd":
        return True if v.a[1] is key else holds(v.a[0], key, old)
    if v is old:
        return False
    if v.op == "phi":
        # adding only what is missing is adding
        c, a, b = v.a
        ins = T("cmp", "in", key, old)
        if c is ins and a is old:
            return holds(b, key, old)
        if c is neg(ins) and b is old:
            return holds(a, key, old)
        x, y = holds(a, key, old), holds(b, key, old)
        return x if x == y else (None if None in (x, y) else False)
    if v.op in ("union",) or v.op == "bin" and v.a[0] == "|":
        xs = [x for x in v.a if isinstance(x, Term)]
        return True if any(x.op in ("set", "list", "tuple") and key in x.a for x in xs) else None
    if v.op == "setitem" and v.a[1] is key:
        return True
    return None


def on_table(b):
    while isinstance(b, Term) and b.op in ("setitem", "dictmerge", "phi", "loopvar", "loopout", "last", "mutated", "delitem"):
        xs = [x for x in b.a if isinstance(x, Term)]
        if b.op == "phi":
            return any(on_table(x) for x in b.a[1:])
        if b.op in ("loopvar", "loopout", "last"):
            return any(contains(x, lambda y: y is TAB) for x in xs) or CFG[1] in str(b.a[1])
        b = xs[0] if xs else None
    return b is TAB or isinstance(b, Term) and b.op == "place" and b.a and b.a[-1] == CFG[1]


def touches(r):
    """Operations on the table: (operation, key term, event)."""
    out = []
    for e in r.events:
        if e.kind == "getitem" and e.args and on_table(e.args[0]):
            out.append(("__getitem__", e.args[1], e))
        elif e.kind == "mutate" and e.args and on_table(e.args[0]):
            n = {"setitem": "__setitem__", "delitem": "__delitem__"}.get(e.fn, e.fn)
            k = e.args[1] if len(e.args) > 1 else None
            if n == "update" and isinstance(k, Term) and k.op == "dict":
                for x in k.a:
                    if isinstance(x, tuple):
                        out.append((n, x[0], e))
                continue
            out.append((n, k, e))
        elif e.kind == "call" and e.fn is not None:
            fn = dotted(e.fn)
            if fn.op == "attr" and on_table(fn.a[0]):
                out.append((fn.a[1], e.args[0] if e.args else None, e))
            elif fn.op in ("attr", "global") and e.args and on_table(e.args[0]) and head(fn).startswith(("dict.", "builtins.dict.")):
                # the method of the plain dictionary, whatever the table's class does
                out.append(("dict." + head(fn).split(".")[-1], e.args[1] if len(e.args) > 1 else None, e))
    return out


def check(proj, book):
    cn = table_class(proj)
    book.floor("table", 2)
    book.floor("report", 1)
    book.floor("set", 1)
    if cn is None or cn not in ("dict",) and not proj.cls(cn):
        book.ob("table", "class", None, "class of the configuration table not recognised")
        book.ob("table", "class2", None, "")
        return
    rec = {}

    def R(n):
        if n not in rec:
            rec[n] = records(proj, cn, n)[0]
        return rec[n]
    for f in (table, setting, build, base_url, register, clear, report):
        book.step(f.__name__, f, proj, book, cn, R)


def super_call(t, name, *args):
    return isinstance(t, Term) and t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == name and (
        t.a[0].a[0].op == "super" or head(t.a[0].a[0]) == "builtins.dict" or t.a[0].a[0] is G("builtins.dict")) and all(a in t.a[1] for a in args)


def table(proj, book, cn, R):
    ok, r = records(proj, cn, "__getitem__")
    book.ob("table", "getitem:records", ok if r is not None else False, "reading an entry records its key", r.loc if r else None)
    if r is not None:
        v = r.ret
        book.ob("table", "getitem:value", super_call(v, "__getitem__", KEY) or (None if undecidable(v) or v.op == "phi" else False), f"returns {show(v)[:80]}", r.loc)
    c = proj.cls(cn)
    w, r = records(proj, cn, "__setitem__")
    if r is not None:
        done = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).endswith(".__setitem__") and len(e.args) >= 2 and e.args[-2] is KEY]
        ok = any(isc(conj(e.guard), True) for e in done)
        book.ob("table", "setitem:stores", ok or (None if done or calls(r, "update", "setdefault") else False), "storing stores the value given", r.loc)
    if any("clear" in k.methods for k in c.mro()):
        r = run(proj, cn, "clear")
        up = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).endswith(".clear")]
        book.ob("clear", "table", any(isc(conj(e.guard), True) and (e.fn.a[0].op == "super" or head(e.fn.a[0]) == "builtins.dict") for e in up) or (
            None if up else False), "clearing clears the options", r.loc)
        acc = record_attr(proj, cn)
        if acc is None:
            book.ob("clear", "records", None, "attribute of the records not recognised", r.loc)
        else:
            v = r.heap.get((SELF, acc))
            ok = False if v is None or v is attr(SELF, acc) else True if v.op == "cleared" or empty(v) else None
            book.ob("clear", "records", ok, f"records after clearing are {show(v)[:60] if v is not None else 'kept'}", r.loc)
    elif R("__getitem__"):
        book.ob("clear", "records", False, "clearing keeps the records", None)


def record_attr(proj, cn):
    _, r = records(proj, cn, "__getitem__")
    if r is None:
        return None
    for k, v in r.heap.items():
        if k[0] is SELF and isinstance(v, Term) and contains(v, lambda x: x is KEY):
            return k[1]
    return None


def empty(v):
    return v.op in ("set", "list", "dict", "tuple") and not v.a or v.op == "call" and head(v.a[0]) in ("builtins.set", "builtins.dict", "builtins.list") and not v.a[1]


def setting(proj, book, cn, R):
    f = proj.func("set_global_config")
    r = run(proj, None, "set_global_config", opaque=opq("get_file_path"))
    ts = touches(r)
    if not ts:
        book.ob("set", "none", None, "no operation on the table recognised", r.loc)
    for n, k, e in ts:
        w = R(n)
        book.ob("set", f"{n}:{e.loc[1] - f.loc[1]}", None if w is None else not w, f"{n} on the table {'records the option as read' if w else 'does not record'}", e.loc)


def build(proj, book, cn, R):
    """Every lookup of an option by a build records it."""
    own = attr(SELF, "name")
    for cls, m, op in (("Config", "_resolve_cached_config", ()), ("Constant", "build", ()), ("Map", "build", ("get_file_path", "load_json", "build_point", "build_regbin")),
                       ("ConstantSet", "build", ()), ("SigmaMap", "get_configs", ())):
        f = proj.method(cls, m)
        if f is None:
            continue
        r = run(proj, cls, m, opaque=opq(*op), args={"llh_name": C("A")} if m != "_resolve_cached_config" else {"llh_name": C("A"), "transform": NONE})
        ts = [(n, k, e) for n, k, e in touches(r) if k is own]
        if not ts:
            book.ob("build", f"{cls}.{m}", None, "no operation on the option's entry recognised", r.loc)
            continue
        ins = T("cmp", "in", own, TAB)
        for world in (True, False):
            def put(g):
                return subst(g, {ins: C(world), neg(ins): C(not world)})
            live = [(n, e) for n, k, e in ts if feasible(put(guard_of(e)))]
            read = [(n, e) for n, e in live if R(n) and isc(drop(put(guard_of(e))), True)]
            val = [(n, e) for n, e in live if n.split(".")[-1] in ("__getitem__", "get", "setdefault", "pop", "__setitem__", "update")]
            inst = f"{cls}.{m}:{'configured' if world else 'default'}"
            if not read:
                w = in_worlds(proj, cls, m, op, world, R)
                if w is not None:
                    book.ob("build", inst, w[0], w[1], r.loc)
                    continue
            if read:
                book.ob("build", inst, True, f"{read[0][0]} records the option", read[0][1].loc)
            elif any(R(n) is None or R(n) for n, e in live):
                book.ob("build", inst, None, "recorded on some paths", r.loc)
            elif world:
                book.ob("build", inst, False if val else None, f"a configured option is used ({', '.join(sorted({n for n, e in val}))}) without being recorded as read", (val or [(0, r)])[0][1].loc)
            else:
                st = [n for n, e in live if n in ("__setitem__", "update", "setdefault")]
                book.ob("build", inst, False if st else True, "a default in use is stored without being recorded" if st else "the default is not stored", r.loc)


def base_url(proj, book, cn, R):
    """The base address of the maps is an option too: where it is used it is recorded."""
    r = run(proj, None, "get_file_path", opaque=opq("download", "urlopen"))
    ops = [(n, e) for n, k, e in touches(r) if isinstance(k, Term) and isc(k, "url_base") and n != "__contains__"]
    if not ops:
        book.ob("build", "url_base", None, "no use of the base address recognised", r.loc)
        return
    rec = [n for n, e in ops if R(n)]
    book.ob("build", "url_base", True if rec else None if any(R(n) is None for n, _ in ops) else False, f"{rec[0]} records the option" if rec else
            f"the base address is used ({ops[0][0]}) without being recorded as read", ops[0][1].loc)


def in_worlds(proj, cls, m, op, configured, R):
    """(verdict, detail) from the lookup evaluated in worlds with known tables, or None."""
    if cls == "ConstantSet":
        return None
    out = []
    for v, want in ((V, V), (tdict({"A": VA, "B": VB}), VA)) if configured else ((None, None),):
        table = tdict({"other": VB, **({"opt": v} if configured else {})})
        heap = {"name": "opt", "default": D, "llh_name": C("A")}
        args = {"llh_name": C("A"), **({"transform": NONE} if m == "_resolve_cached_config" else {})}
        r = ev(proj, cls, m, table, heap, args, opaque=op, kinds={V: "str", VA: "str", VB: "str", D: "str"})
        got = final(r, r.heap.get((SELF, {"Constant": "value", "Map": "file_path"}.get(cls, "-"))))
        ops = []
        for e in r.events:
            if e.kind in ("getitem", "mutate") and len(e.args or ()) > 1 and e.args[0].op == "dict" and any(
                    isinstance(k, Term) and isc(k, "other") for k, _ in e.args[0].a) and isc(e.args[1], "opt"):
                ops.append((R("__getitem__" if e.kind == "getitem" else {"setitem": "__setitem__"}.get(e.fn, e.fn)), isc(guard_of(e), True)))
        if any(a is True and g for a, g in ops):
            out.append(True)
        elif any(a is not False for a, g in ops) or not isinstance(got, Term):
            return None
        elif configured:
            out.append(False if got is want else None)
        else:
            x = after(r)
            out.append(True if x == "absent" else False if isinstance(x, Term) and x.op in ("param", "call") else None)
    v = False if False in out else None if None in out else True
    if v is None:
        return None
    return v, ("recorded" if v else "a configured option is used without being recorded as read" if configured else "a default in use is stored without being recorded")


def drop(g):
    """Guard without conditions about the default and the value itself."""
    if g.op == "and":
        return conj(tuple(drop(x) for x in g.a))
    s = show(g)[:400]
    if "default" in s or "transform" in s or "isinstance" in s:
        return C(True)
    return g


def register(proj, book, cn, R):
    for m in ("register", "show_config"):
        r = run(proj, "ComponentSim", m, opaque=opq("dependencies_deduce"))
        n = 0
        for op, k, e in touches(r):
            if isinstance(k, Term) and k.op == "const":
                continue
            w = R(op)
            n += 1
            book.ob("register", f"{m}:{op}:{n}", None if w is None else not w, f"{op} on the table {'records' if w else 'does not record'}", e.loc)
        if not n:
            book.ob("register", f"{m}:none", True, "does not touch the table", r.loc)


def clear(proj, book, cn, R):
    r = run(proj, None, "clear_cache")
    for name in ("_cached_configs", "_cached_functions"):
        t = G("appletree.share." + name)
        ev = [e for e in r.events if (e.kind == "mutate" and e.fn == "clear" and e.args[0] is t or e.kind == "call" and e.fn is not None and e.fn is attr(t, "clear"))]
        h = r.heap.get((G("::"), "appletree.share." + name))
        ok = any(isc(conj(e.guard), True) for e in ev)
        book.ob("clear", name, ok or (None if h is not None and h is not t and not ev else False), f"clear_cache {'clears' if ok else 'does not clear'} {name}", r.loc)


def dotted(s):
    """Attributes of the table, written as attributes."""
    def f(x):
        if x.op == "global" and x.a[0].startswith(CFG[1] + "."):
            t = TAB
            for n in x.a[0][len(CFG[1]) + 1:].split("."):
                t = T("attr", t, n)
            return t
        return x
    return rewrite(s, f)


def member(s, k, acc):
    """Condition under which k is in the collection s, over atoms 'configured' and 'read'."""
    s = dotted(fuse(s))
    if s is TAB:
        return par("configured")
    if s is T("attr", TAB, acc):
        return par("read")
    if s.op == "call":
        h = head(s.a[0])
        if h in ("builtins.set", "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.frozenset", "builtins.dict") and s.a[1]:
            return member(s.a[1][0], k, acc)
        if s.a[0].op == "attr":
            b, n = s.a[0].a[0], s.a[0].a[1]
            if n in ("keys", "copy") and not s.a[1]:
                return member(b, k, acc)
            if n in ("difference", "intersection", "union", "symmetric_difference") and s.a[1]:
                x, y = member(b, k, acc), member(s.a[1][0], k, acc)
                return combine({"difference": "-", "intersection": "&", "union": "|", "symmetric_difference": "^"}[n], x, y)
    if s.op == "bin" and s.a[0] in ("-", "&", "|", "^"):
        return combine(s.a[0], member(s.a[1], k, acc), member(s.a[2], k, acc))
    if s.op == "comp" and s.a[0] in ("list", "set", "gen"):
        _, body, lid, src, conds = s.a
        if not isinstance(src, Term):
            return None
        el = T("elem", lid, src)
        if body is not el:
            return None
        m = member(src, k, acc)
        if m is None:
            return None
        for c in conds:
            x = cond(c, el, acc, k)
            if x is None:
                return None
            m = conj((m, x))
        return m
    if s.op in ("set", "list", "tuple") and not s.a:
        return C(False)
    if s.op == "phi":
        return None
    return None


def cond(c, el, acc, k):
    if c.op == "cmp" and c.a[0] in ("in", "not in") and c.a[1] is el:
        m = member(c.a[2], k, acc)
        return None if m is None else m if c.a[0] == "in" else neg(m)
    if c.op == "not":
        x = cond(c.a[0], el, acc, k)
        return None if x is None else neg(x)
    if c.op in ("and", "or"):
        xs = [cond(y, el, acc, k) for y in c.a]
        return None if None in xs else (conj if c.op == "and" else disj)(tuple(xs))
    return None


def combine(op, x, y):
    if x is None or y is None:
        return None
    if op == "-":
        return conj((x, neg(y)))
    if op == "&":
        return conj((x, y))
    if op == "|":
        return disj((x, y))
    return disj((conj((x, neg(y))), conj((neg(x), y))))


def report(proj, book, cn, R):
    r = run(proj, None, "check_unused_configs")
    acc = record_attr(proj, cn)
    # checking does not change the records
    for n_, kk, ev in touches(r):
        if R(n_):
            book.ob("report", f"pure:{n_}", False, f"checking uses {n_}, which records the option as read", ev.loc)
    ws = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn).split(".")[-1] in ("warn", "warning", "print")]
    if not ws:
        book.ob("report", "warns", None if calls(r) else False, "nothing is reported", r.loc)
        return
    e = ws[-1]
    k = par("option")
    cand = []
    for x in walk(e.args[0]) if e.args else ():
        if isinstance(x, Term) and x.op in ("call", "bin", "comp"):
            m = member(x, k, acc) if acc else None
            if m is not None:
                cand.append((x, m))
    if not cand:
        book.ob("report", "set", None, "set reported not recognised", e.loc)
        return
    x, m = cand[0]
    CONF, READ = par("configured"), par("read")
    for c in (True, False):
        for d in (True, False):
            v = subst(m, {CONF: C(c), READ: C(d)})
            want = c and not d
            book.ob("report", f"configured={c}:read={d}", None if v.op != "const" else v.a[0] is want or bool(v.a[0]) == want,
                    f"an option {'configured' if c else 'not configured'} and {'read' if d else 'not read'} is {'reported' if isc(v, True) else 'not reported'}", e.loc)
    # reported exactly when the set is not empty
    g = conj(e.guard)
    okg = None
    core = g
    n = T("call", G("builtins.len"), (x,), ())
    if g is x or any(g is y for y in (T("cmp", ">", n, C(0)), T("cmp", "!=", n, C(0)), T("call", G("builtins.bool"), (x,), ()), T("cmp", ">=", n, C(1)), n)):
        okg = True
    elif isc(g, True):
        okg = False
    else:
        y, miss = dotted(g), False
        while y.op == "not":
            y, miss = y.a[0], not miss
        gm = member(y, k, acc) if acc else None
        if gm is not None:
            okg = not miss and all(isc(subst(disj((conj((gm, neg(m))), conj((neg(gm), m)))), {CONF: C(a), READ: C(b)}), False) for a in (True, False) for b in (True, False))
            if not okg and not miss:
                okg = False
    book.ob("report", "when", okg, f"reported if {show(g)[:100]}", e.loc)
