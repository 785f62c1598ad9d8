"""C06: the deduced workflow runs each needed plugin once, after its inputs; the generated code binds names correctly."""

import ast
import re

from ..help import *
from ..plug import Iface, plugins

META = {
    "level": "other",
    "technique": "value-flow extraction of the dependency walk plus parsing of the symbolic template of the generated code",
    "explain": "The dependency walk is reduced to the entries it records, the names it recurses into, their guards and their order; the combination of "
               "recording order and traversal order decides, for every acyclic graph, whether a plugin comes after all providers of its inputs "
               "(induction in DESIGN.md).  The text of the generated simulation is extracted as a template with symbolic parts, parsed as "
               "Python with one instance of every loop body, and its bindings, arguments and return value are traced to the worksheet entries.",
    "rules": {
        "walk": "every name other than the no-dependency name is recorded with its registered provider and recursed into with that provider's inputs; "
                "no provider is an error",
        "order": "the recording order and the order of traversal put a plugin after every provider of its inputs",
        "once": "the worksheet has one entry per plugin, its name, outputs and inputs",
        "register": "the latest registered plugin is the provider of each of its outputs",
        "code": "the generated code is valid and defines the simulation of key, the no-dependency name and parameters, over the worksheet in order",
        "binding": "each plugin is called with key, parameters and its inputs in declared order; key and outputs are bound in declared order; "
                   "outputs superseded by another provider are discarded",
        "result": "the simulation returns the key and the requested outputs in requested order, the efficiency last unless suppressed",
        "compile": "the function that is executed is the one just generated, for this likelihood",
    },
    "assumptions": ["registered plugin graphs are acyclic (shipped ones: C05)", "Python class names identify plugins within a component"],
}
REG = attr(SELF, "_plugin_class_registry")
NODEP = par("nodep_data_name")
CLS = "ComponentSim"


def regof(t):
    """el if t is the registered provider of el."""
    if t.op == "item" and t.a[0] is REG:
        return t.a[1]
    return None


def needed(g, el, want=True):
    """Guard g in the world where el is an ordinary name."""
    def f(x):
        if x.op == "cmp" and x.a[0] in ("==", "!=", "is", "is not") and {x.a[1], x.a[2]} == {el, NODEP}:
            return C((x.a[0] in ("!=", "is not")) == want)
        if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[1] is el and x.a[2].op in ("tuple", "list", "set") and NODEP in x.a[2].a:
            rest = tuple(y for y in x.a[2].a if y is not NODEP)
            if not rest or not want:
                return C((x.a[0] == "not in") == want)
            return T("cmp", x.a[0], el, T(x.a[2].op, *rest))
        return x
    return rewrite(g, f)


def excluded(proj, g, el):
    """A name that some plugin provides and for which the guard fails, or None."""
    names = set()
    for x in walk(g):
        if x.op == "cmp" and x.a[1] is el:
            names |= {y.a[0] for y in walk(x.a[2]) if y.op == "const" and isinstance(y.a[0], str)}
        if x.op == "cmp" and x.a[2] is el and x.a[1].op == "const":
            names |= {x.a[1].a[0]}
    given = {n for c in plugins(proj) for n in Iface(c).provides or ()}
    for n in sorted(x for x in names & given if isinstance(x, str)):
        def f(x):
            if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[1] is el and srcof(x.a[2]) is REG:
                return C(x.a[0] == "in")
            if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[1] is el and x.a[2].op in ("tuple", "list", "set") and all(
                    y.op == "const" for y in x.a[2].a):
                return C((n in [y.a[0] for y in x.a[2].a]) == (x.a[0] == "in"))
            if x.op == "cmp" and x.a[0] in ("==", "!=") and el in (x.a[1], x.a[2]):
                y = x.a[2] if x.a[1] is el else x.a[1]
                if y.op == "const":
                    return C((y.a[0] == n) == (x.a[0] == "=="))
            return x
        if isc(rewrite(g, f), False):
            return n
    return None


def seen_before(g, el):
    return any(x.op == "cmp" and x.a[0] in ("in", "not in") and occurs(x.a[1], el) and contains(
        x.a[2], lambda y: y is par("dependencies") or y.op == "loopvar" and "dependencies" in str(y.a[1])) for x in walk(g))


def provided(g, el):
    """g only says that el has a provider."""
    def f(x):
        if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[1] is el and srcof(x.a[2]) is REG:
            return C(x.a[0] == "in")
        return x
    return isc(rewrite(g, f), True)


def field(v, k):
    if v.op == "dict":
        for kk, vv in v.a:
            if isc(kk, k):
                return vv
    return None


def walk_rule(proj, book):
    r = run(proj, CLS, "dependencies_deduce", opaque=opq("dependencies_deduce"))
    loc = r.loc
    app = []
    for e in r.events:
        els = {x for y in list(e.args or ()) + list(e.guard) for x in walk(y) if x.op == "elem" and through(x)[0] is not x}
        if els and e.kind in ("mutate", "call", "raise", "handler"):
            # elements of a selection of the names: the names, where the selection holds
            m = {x: through(x)[0] for x in els}
            extra = tuple(c for x in els for c in through(x)[1])
            e.args = tuple(subst(x, m) for x in e.args or ())
            if isinstance(e.kwargs, dict):
                e.kwargs = {k: subst(x, m) for k, x in e.kwargs.items()}
            elif e.kwargs:
                e.kwargs = tuple((k, subst(x, m)) for k, x in e.kwargs)
            e.guard = tuple(subst(x, m) for x in e.guard) + extra
    front = False
    for i, e in enumerate(r.events):
        if e.kind == "mutate" and head(e.fn).lstrip(".") == "append" and len(e.args) == 2 and any(
                regof(x) is not None for x in walk(e.args[1])):
            app.append((i, e))
        if e.kind == "mutate" and head(e.fn).lstrip(".") == "insert" and len(e.args) == 3 and isc(e.args[1], 0) and any(
                regof(x) is not None for x in walk(e.args[2])):
            e.args = (e.args[0], e.args[2])
            front = True
            app.append((i, e))
    rec = [(i, e) for i, e in enumerate(r.events) if e.kind == "call" and e.fn is not None and head(e.fn).split(".")[-1] == "dependencies_deduce"]
    if len(app) != 1 or len(rec) != 1:
        book.ob("walk", "shape", False if not rec and app else None, f"{len(app)} recorded entries, {len(rec)} recursive calls", loc)
        return None
    (ia, ea), (ir, er) = app[0], rec[0]
    entry = ea.args[1]
    el = next(regof(x) for x in walk(entry) if regof(x) is not None)
    ela = el
    ok_el = el.op == "elem" and el.a[1] is par("data_names")
    fields = {}
    plug = next((k for k in ("plugin",) if field(entry, k) is not None), None)
    if entry.op == "dict":
        fields = {cval(k): v for k, v in entry.a if k.op == "const"}
    pk = [k for k, v in fields.items() if v is T("item", REG, el)]
    book.ob("walk", "entry", ok_el and len(pk) == 1 if entry.op == "dict" else None,
            f"recorded entry is {show(entry)[:160]}", ea.loc)
    for k, v in fields.items():
        if v.op == "attr" and v.a[1] in ("depends_on", "provides", "parameters") and v.a[0].op == "item" and v.a[0].a[0] is REG:
            book.ob("walk", f"entry:{k}", v.a[0].a[1] is el, f"{k} of the entry is {show(v)[:100]}", ea.loc)
    # guards
    g = needed(conj(tuple(x for x in ea.guard)), el)
    if isc(g, True):
        v = True
    elif isc(g, False):
        v = False
    else:
        # an entry left out because it was recorded before loses the occurrence that fixes the order
        v = False if seen_before(g, el) and ia < ir or excluded(proj, g, el) else True if provided(g, el) else None
    book.ob("walk", "recorded", v, f"recorded under {show(g)[:160]}", ea.loc)
    g0 = needed(conj(tuple(x for x in ea.guard)), el, False)
    book.ob("walk", "nodep", False if isc(g0, True) else True if isc(g0, False) else None,
            f"the name without dependency is recorded under {show(g0)[:100]}", ea.loc)
    # recursion
    names = arg(er, 0, "data_names")
    deps = arg(er, 1, "dependencies")
    nod = arg(er, 2, "nodep_data_name")
    base = names.a[0] if names is not None and names.op == "attr" and names.a[1] == "depends_on" else None
    e2 = regof(base) if base is not None else None
    good = e2 is not None and e2.op == "elem" and e2.a[1] is par("data_names")
    book.ob("walk", "recursion", True if good else False if names is not None and names.op == "attr" and names.a[1] != "depends_on" or names is par("data_names") else None,
            f"recursion into {show(names)[:120] if names is not None else 'nothing'}", er.loc)
    if e2 is not None:
        g = needed(conj(er.guard), e2)
        if isc(g, True):
            v = True
        elif isc(g, False):
            v = False
        else:
            v = False if seen_before(g, e2) and ia < ir or excluded(proj, g, e2) else True if provided(g, e2) else None
        book.ob("walk", "recursion:guard", v, f"recursion under {show(g)[:160]}", er.loc)
        g0 = needed(conj(er.guard), e2, False)
        book.ob("walk", "recursion:nodep", False if isc(g0, True) else True if isc(g0, False) else None,
                f"recursion for the name without dependency under {show(g0)[:100]}", er.loc)
    book.ob("walk", "recursion:nodep_name", False if nod is None or isc(nod, *NODEPC) else same(nod, NODEP),
            f"the name without dependency handed down is {show(nod)[:60] if nod is not None else 'the default'}", er.loc)
    kept = deps is not None and not isc(deps, None)
    lost = not kept and r.ret is not None and not contains(r.ret, lambda x: x.op == "call" and head(x.a[0]).endswith("dependencies_deduce") or x.op == "fold" or x.op == "loopout")
    book.ob("walk", "recursion:result", True if kept else False if lost else None,
            "entries of the recursion are added to the same list" if kept else "the recursion records into a list of its own", er.loc)
    # missing provider
    swallowed = []
    for h in r.events:
        if h.kind == "handler":
            rs = [x for x in raises(r) if x.kind == "raise" and implied(conj(h.guard), guard_of(x))]
            if not rs:
                swallowed.append(h)
    gets = [x for x in walk(entry) if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get" and x.a[0].a[0] is REG]
    book.ob("walk", "unknown", not swallowed and not gets, "a name without provider is an error" if not swallowed else
            "a name without provider is passed over", (swallowed[0].loc if swallowed else ea.loc))
    # entries put in front are read in the opposite order
    return "pre" if (ia < ir) != front else "post"


NODEPC = ("batch_size", None)


def direction(src):
    """('rev'|'fwd', True) traversal of the parameter `dependencies`."""
    d = "fwd"
    for _ in range(5):
        if src is par("dependencies"):
            return d
        if src.op == "slice_of" and src.a[1].op == "slice" and isc(src.a[1].a[0], None) and isc(src.a[1].a[1], None) and isc(src.a[1].a[2], -1):
            d = "rev" if d == "fwd" else "fwd"
            src = src.a[0]
        elif src.op == "call" and src.a[0].op == "global" and src.a[0].a[0] in ("builtins.reversed",) and len(src.a[1]) == 1:
            d = "rev" if d == "fwd" else "fwd"
            src = src.a[1][0]
        elif src.op == "call" and src.a[0].op == "global" and src.a[0].a[0] in ("builtins.list", "builtins.tuple") and len(src.a[1]) == 1:
            src = src.a[1][0]
        elif src.op == "call" and src.a[0].op == "global" and src.a[0].a[0] in ("builtins.sorted", "builtins.set"):
            return "unordered"
        else:
            return None
    return None


def simplify_rule(proj, book, pre):
    """Fields of a worksheet entry: ['__name__', 'provides', 'depends_on'] by position."""
    r = run(proj, CLS, "dependencies_simplify")
    loc = r.loc
    w = r.heap.get((SELF, "worksheet"))
    if w is None:
        w = r.heap.get(T("place", SELF, "worksheet"))
    w = flatten(fuse(w)) if w is not None else None
    if w is not None and w.op == "comp" and isinstance(w.a[3], Term) and w.a[3].op == "call" and w.a[3].a[0] in (
            G("builtins.set"), G("builtins.frozenset"), G("builtins.sorted")):
        book.ob("order", "traversal", False, f"the worksheet follows {show(w.a[3])[:100]}", loc)
        return None
    if w is None or w.op != "comp" or w.a[0] != "list":
        book.ob("once", "worksheet", None, f"worksheet is {show(w)[:200] if w is not None else 'not set'}", loc)
        return None
    _, body, lid, src, conds = w.a
    d = direction(src) if isinstance(src, Term) else None
    if pre and d:
        ok = d != "unordered" and (pre, d) in (("pre", "rev"), ("post", "fwd"))
        book.ob("order", "traversal", ok, f"entries recorded {'before' if pre == 'pre' else 'after'} those of their inputs, traversed {d}", loc)
    else:
        book.ob("order", "traversal", None, f"traversal of {show(src)[:100] if isinstance(src, Term) else src}", loc)
    el = T("elem", lid, src)
    P = item(el, C("plugin"))
    want = {attr(P, "__name__"): "__name__", attr(P, "provides"): "provides", attr(P, "depends_on"): "depends_on",
            item(el, C("depends_on")): "depends_on", P: "plugin"}
    fs = None
    if body.op in ("list", "tuple"):
        fs = [want.get(x) for x in body.a]
        for n in ("__name__", "provides", "depends_on"):
            k = fs.count(n)
            bad = item(el, C("provides")) in body.a and n == "provides"
            book.ob("once", f"entry:{n}", True if k == 1 else False if bad or None not in fs else None,
                    f"worksheet entry is {show(body)[-160:]}", loc)
    else:
        book.ob("once", "entry", None, f"worksheet entry is {show(body)[:160]}", loc)
    # one entry per plugin
    seen = []
    other = []
    for g in conds:
        if g.op == "cmp" and g.a[0] == "not in":
            seen.append(g)
        else:
            other.append(g)
    key = [g.a[1] for g in seen]
    if not seen and not other:
        book.ob("once", "dedupe", False, "a plugin needed twice gets two entries", loc)
    else:
        ok = len(seen) == 1 and key[0] in (attr(P, "__name__"), P) and not other
        bad = len(seen) == 1 and not other and key[0] is item(el, C("provides"))
        book.ob("once", "dedupe", True if ok else False if bad else None,
                f"an entry is left out when {show(neg(conj(conds)))[-160:]}", loc)
        if ok:
            # what is remembered is the same key, for every entry made
            lv = seen[0].a[2]
            adds = [e for e in r.events if e.kind == "mutate" and head(e.fn).lstrip(".") in ("append", "add") and len(e.args) == 2
                    and (e.args[0] is lv or e.args[0].op == "loopvar" and lv.op == "loopvar" and e.args[0].a == lv.a)]
            if lv.op == "loopvar" and lv.a[1].startswith("worksheet"):
                adds = []
            if adds:
                a = adds[-1]
                ok = a.args[1] is key[0] and implied(conj(conds), guard_of(a))
                book.ob("once", "remembered", ok, f"{show(a.args[1])[-60:]} is remembered", a.loc)
            else:
                book.ob("once", "remembered", None, "no record of the entries made", loc)
    return fs


def register_rule(proj, book):
    pc = par("plugin_class")
    r = run(proj, CLS, "register", kinds={pc: "type"})
    loc = r.loc
    v = r.heap.get((SELF, "_plugin_class_registry"))
    if v is None:
        book.ob("register", "provider", None, "registry is not updated here", loc)
        return
    for x in list(walk(v)):
        pass
    base = v
    # leave out the branch for lists of plugins
    m = {x: C(False) for x in walk(v) if x.op == "call" and fname_(x) == "isinstance" and x.a[1][0] is pc}
    base = subst(v, m)
    ok = None
    if base.op == "dictmerge":
        a, b = base.a
        if a is REG and b.op == "comp" and not b.a[4] and b.a[1].op == "tuple":
            k, val = b.a[1].a
            ok = val is pc and k.op == "elem"
        elif b is REG:
            ok = False
        elif a is REG and b.op == "comp" and any(occurs(g, REG) for g in b.a[4]):
            ok = False
    elif base.op == "loopout" and base.a[2] is REG:
        # an entry already present wins in some pass
        new = base.a[3]
        lv = next((x for x in walk(new) if x.op == "loopvar" and x.a[0] == base.a[0]), None)
        if lv is not None and new.op == "setitem" and new.a[0] is lv:
            v = new.a[2]
            if v is pc:
                ok = True
            elif v.op == "call" and v.a[0] is attr(lv, "get") and len(v.a[1]) == 2 and v.a[1][1] is pc:
                ok = False
        elif lv is not None and new.op == "phi" and new.a[0].op == "cmp" and new.a[0].a[0] in ("in", "not in") and new.a[0].a[2] is lv:
            keep, put = new.a[1:] if new.a[0].a[0] == "in" else (new.a[2], new.a[1])
            if keep is lv and put.op == "setitem" and put.a[2] is pc:
                ok = False
    elif any(e.kind in ("call", "mutate") and head(e.fn).lstrip(".") == "setdefault" and e.args and (
            e.args[0] is REG or getattr(e.fn, "a", (None,))[0] is REG) for e in r.events):
        ok = False
    book.ob("register", "provider", ok, f"registry becomes {show(base)[:200]}", loc)


def fname_(x):
    return x.a[0].a[0].split(".")[-1] if x.a[0].op == "global" else None


# ---------------------------------------------------------------------------------------------- generated code

class Template:
    """Text with symbolic parts, every loop body once."""

    def __init__(self, wsrc):
        self.wsrc = wsrc
        self.tok = {}      # term -> token
        self.loops = []    # (lid, src, conds)
        self.why = None

    def token(self, t):
        t = self.norm(t)
        if t not in self.tok:
            self.tok[t] = f"Q{len(self.tok)}q"
        return self.tok[t]

    def norm(self, t):
        def f(x):
            if x.op == "elem" and isinstance(x.a[1], Term) and self.is_ws(x.a[1]):
                return T("elem", 0, self.wsrc)
            return x

        def g(x):
            # an entry of a table made for every worksheet entry, read for the same entry
            if x.op == "item" and x.a[0].op == "comp" and x.a[0].a[0] == "dict" and not x.a[0].a[4] and x.a[0].a[1].op == "tuple" \
                    and isinstance(x.a[0].a[3], Term):
                _, body, lid, src, _ = x.a[0].a
                el = T("elem", lid, src)
                k = subst(body.a[0], {el: T("elem", 0, self.wsrc)}) if self.is_ws(src) else None
                if k is not None and f_(x.a[1]) is k:
                    return subst(body.a[1], {el: T("elem", 0, self.wsrc)})
            return x
        f_ = lambda x: rewrite(x, f)
        t = fuse(t)
        t = rewrite(t, lambda x: flatten(x) if x.op == "comp" else x)
        return f_(rewrite(f_(t), g))

    def is_ws(self, s):
        return s is self.wsrc

    def text(self, t):
        if t.op == "const" and isinstance(t.a[0], str):
            return t.a[0]
        if t.op == "fstr":
            return "".join(self.text(x) for x in t.a)
        if t.op == "bin" and t.a[0] == "+":
            return self.text(t.a[1]) + self.text(t.a[2])
        if t.op == "fold" and t.a[0] == "+":
            c = t.a[2]
            if c.op == "comp":
                return self.text(t.a[1]) + self.loop(c)
        if t.op == "join" and isinstance(t.a[0], (Term, str)):
            sep = t.a[0].a[0] if isinstance(t.a[0], Term) else t.a[0]
            s = t.a[1]
            if "\n" in sep or sep == "":
                ps = self.parts(s, sep)
                if ps is not None:
                    return sep.join(ps)
            if s.op == "comp" and (sep == "" or "\n" in sep):
                return self.loop(s, sep)
            if s.op in ("list", "tuple") and not any(x.op == "star" for x in s.a):
                return sep.join(self.text(x) for x in s.a)
            if s.op == "bin" and s.a[0] == "+" :
                a, b = s.a[1:]
                return self.text(T("join", t.a[0], a)) + sep + self.text(T("join", t.a[0], b))
            if sep.strip() == "," and sep:
                return self.token(T("seq", s))
            self.why = f"join with {sep!r}"
        return self.token(t)

    def parts(self, s, sep):
        """The texts that are joined, one per element; a loop's elements once."""
        if s.op in ("list", "tuple"):
            out = []
            for x in s.a:
                y = self.parts(x.a[0], sep) if x.op == "star" else [self.text(x)]
                if y is None:
                    return None
                out += y
            return out
        if s.op == "bin" and s.a[0] == "+":
            a, b = self.parts(s.a[1], sep), self.parts(s.a[2], sep)
            return None if a is None or b is None else a + b
        if s.op == "append":
            a = self.parts(s.a[0], sep)
            return None if a is None else a + [self.text(s.a[1])]
        if s.op == "comp" and s.a[0] in ("list", "gen"):
            return [self.loop(s, mark="\n" in sep)]
        if s.op == "call" and s.a[0].op == "global" and s.a[0].a[0] in ("builtins.list", "builtins.tuple") and len(s.a[1]) == 1:
            return self.parts(s.a[1][0], sep)
        return None

    def loop(self, c, sep="", mark=False):
        c = flatten(fuse(c))
        _, body, lid, src, conds = c.a
        n = len(self.loops)
        self.loops.append((lid, src, conds))
        b = self.text(body)
        if "\n" in b or "\n" in sep or mark:
            lines = (b + sep).split("\n")
            return "\n".join((ln + f"  #L{n}" if ln.strip() else ln) for ln in lines)
        return b


def order_of_ws(src, ws):
    """'fwd', 'rev', 'unordered' or None."""
    d = "fwd"
    for _ in range(4):
        if src is ws:
            return d
        if src.op == "slice_of" and src.a[0] is ws:
            s = src.a[1]
            if s.op == "slice" and isc(s.a[2], -1) and isc(s.a[0], None) and isc(s.a[1], None):
                return "rev"
            return "part"
        if src.op == "call" and src.a[0].op == "global" and len(src.a[1]) >= 1:
            n = src.a[0].a[0]
            if n in ("builtins.list", "builtins.tuple"):
                src = src.a[1][0]
                continue
            if n == "builtins.reversed":
                return "rev" if src.a[1][0] is ws else None
            if n in ("builtins.sorted", "builtins.set"):
                return "unordered" if contains(src, lambda x: x is ws) else None
        return None
    return None


def code_rule(proj, book, fs):
    ws = attr(SELF, "worksheet")
    pos = {n: i for i, n in enumerate(fs or []) if n}
    for nodep in ("batch_size", "energy"):
        dn = par("data_names")
        r = run(proj, CLS, "flush_source_code", args={"func_name": C("simulate"), "nodep_data_name": C(nodep)}, kinds={dn: "list"},
                opaque=lambda f: f.name in ("__setitem__",))
        loc = r.loc
        code = r.heap.get((SELF, "_code"))
        if code is None:
            e = next((e for e in r.events if e.kind in ("setprop", "setattr") and head(e.fn).lstrip(".") == "code"), None)
            code = e.value if e is not None else None
        if code is None:
            book.ob("code", nodep, None, "no generated text found", loc)
            continue
        m = {}
        for x in walk(code):
            if x.op == "call" and fname_(x) == "isinstance" and len(x.a[1]) == 2 and x.a[1][0] is dn:
                m[x] = C(contains(x.a[1][1], lambda y: y.op == "global" and y.a[0] == "builtins.list"))
        code = subst(code, m)
        t = Template(ws)
        text = t.text(code)
        try:
            tree = ast.parse(text)
        except SyntaxError as ex:
            clean = not t.why and not any(undecidable(x) for x in t.tok)
            book.ob("code", f"{nodep}:parses", False if clean else None, f"generated text does not parse: {ex}; {t.why}", loc)
            continue
        book.ob("code", f"{nodep}:parses", True, "generated text parses", loc)
        term = {v: k for k, v in t.tok.items()}
        lines = text.split("\n")

        def loop_of(node):
            mm = re.search(r"#L(\d+)", lines[node.lineno - 1])
            return t.loops[int(mm.group(1))] if mm else None

        def name(node):
            """(parts) of an identifier: constants and terms"""
            s = node.id if isinstance(node, ast.Name) else node if isinstance(node, str) else None
            if s is None:
                return None
            return tuple(term.get(p, p) for p in re.split(r"(Q\d+q)", s) if p)

        W = T("elem", 0, ws)
        NAME = item(W, C(pos["__name__"])) if "__name__" in pos else None
        PROV = item(W, C(pos["provides"])) if "provides" in pos else None
        DEP = item(W, C(pos["depends_on"])) if "depends_on" in pos else None
        fn = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
        if len(fn) != 1:
            book.ob("code", f"{nodep}:function", None, f"{len(fn)} functions", loc)
            continue
        fn = fn[0]
        a = [x.arg for x in fn.args.args]
        book.ob("code", f"{nodep}:signature", fn.name == "simulate" and a == ["key", nodep, "parameters"], f"def {fn.name}({', '.join(a)})", loc)
        # decorator
        decs = [ast.dump(d) for d in fn.decorator_list]
        src = [ast.unparse(d) for d in fn.decorator_list]
        imports = {}
        for n in tree.body:
            if isinstance(n, ast.ImportFrom):
                for al in n.names:
                    imports[al.asname or al.name] = (n.module, al.name, n)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    imports[al.asname or al.name] = (None, al.name, n)
        jitted = [d for d in fn.decorator_list if any(isinstance(x, ast.Name) and x.id == "jit" or isinstance(x, ast.Attribute) and x.attr == "jit"
                                                      for x in ast.walk(d))]
        static = None
        if jitted:
            static = []
            for x in ast.walk(jitted[0]):
                if isinstance(x, ast.keyword):
                    try:
                        v = ast.literal_eval(x.value)
                    except ValueError:
                        static = None
                        break
                    if x.arg == "static_argnums":
                        static += [a[i] for i in (v if isinstance(v, (tuple, list)) else (v,)) if -len(a) <= i < len(a)]
                    elif x.arg == "static_argnames":
                        static += list(v) if isinstance(v, (tuple, list)) else [v]
        want = ["batch_size"] if nodep == "batch_size" else []
        if static is not None:
            book.ob("code", f"{nodep}:static", sorted(static) == want, f"static arguments are {static}, expected {want}", loc)
        else:
            book.ob("code", f"{nodep}:static", True if not fn.decorator_list else None, f"decorators {src}", loc)
        # free names
        defs = {x.id for n in tree.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(imports) | set(a)
        free = {x.id for n in tree.body for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - defs
        free = {x for x in free if not re.fullmatch(r"Q\d+q", x) and x not in ("list", "tuple", "dict")}
        book.ob("code", f"{nodep}:names", not free, f"names used but not defined in the generated text: {sorted(free)}", loc)
        # instances
        insts = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                insts[name(n.targets[0])] = n
        # body
        stm = [s for s in fn.body if not isinstance(s, (ast.Pass, ast.Expr))]
        work = [s for s in stm if isinstance(s, ast.Assign)]
        ret = [s for s in stm if isinstance(s, ast.Return)]
        if len(work) != 1 or len(ret) != 1 or len(stm) != 2:
            book.ob("binding", f"{nodep}:shape", None, f"body of {len(stm)} statements", loc)
            continue
        s = work[0]
        lp = loop_of(s)
        if lp is None:
            book.ob("code", f"{nodep}:loop", None, "plugin call is not generated in a loop", loc)
            continue
        d = order_of_ws(lp[1], ws)
        book.ob("code", f"{nodep}:loop", (d == "fwd" and not lp[2]) if d else None, f"plugin calls are generated over {show(lp[1])[:80]} ({d}) if {[show(x)[:60] for x in lp[2]]}", loc)
        # call
        c = s.value
        okc = isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
        if not okc:
            book.ob("binding", f"{nodep}:call", None, ast.unparse(s), loc)
            continue
        inst = insts.get(name(c.func))
        book.ob("binding", f"{nodep}:instance", inst is not None, f"instance {ast.unparse(c.func)} is {'made' if inst is not None else 'not made'} in the generated text", loc)
        if inst is not None:
            il = loop_of(inst)
            d = order_of_ws(il[1], ws) if il else None
            book.ob("code", f"{nodep}:instances", None if not d else d != "part" and not il[2], f"instances over {show(il[1])[:60] if il else '-'}", loc)
            k = inst.value
            cn = name(k.func)
            if NAME is not None:
                book.ob("binding", f"{nodep}:class", cn == (NAME,) if cn and len(cn) == 1 and isinstance(cn[0], Term) else None,
                        f"instance of {show(cn[0])[-60:] if cn and isinstance(cn[0], Term) else cn}", loc)
            la = k.args[0] if k.args else next((w.value for w in k.keywords if w.arg == "llh_name"), None)
            ll = None
            if isinstance(la, ast.Constant) and isinstance(la.value, str):
                ll = name(la.value)
            book.ob("binding", f"{nodep}:likelihood", False if la is None else ll == (attr(SELF, "llh_name"),) if ll is not None else None,
                    f"instance is made for likelihood {ast.unparse(la) if la is not None else None}", loc)
            imp = [v for kx, v in imports.items() if name(kx) == cn]
            book.ob("code", f"{nodep}:import", True if imp and imp[0][0] == "appletree.plugins" else None if imp else False,
                    "plugin class is imported from appletree.plugins" if imp else "plugin class is not imported", loc)
        cargs = [x.value if isinstance(x, ast.Starred) else x for x in c.args] + [w.value for w in c.keywords]
        ca = [name(x) for x in cargs]
        if len(ca) < 2:
            book.ob("binding", f"{nodep}:arguments", False, ast.unparse(s), loc)
        else:
            ok = ca[0] == ("key",) and ca[1] == ("parameters",)
            rest = ca[2:]
            if DEP is not None:
                seq = rest[0][0] if len(rest) == 1 and rest[0] and len(rest[0]) == 1 and isinstance(rest[0][0], Term) else None
                ok2 = seq is T("seq", DEP)
                unk = seq is not None and not ok2 and undecidable(seq)
                book.ob("binding", f"{nodep}:arguments", True if ok and ok2 else None if ok and (unk or seq is None) else False,
                        f"called with {ast.unparse(c)[:60]}: {show(seq)[-120:] if seq is not None else rest}", loc)
        # targets
        tg = s.targets[0]
        ta = [name(x.value if isinstance(x, ast.Starred) else x) for x in (tg.elts if isinstance(tg, (ast.Tuple, ast.List)) else [tg])]
        if PROV is not None:
            seq = ta[1][0] if len(ta) == 2 and ta[1] and len(ta[1]) == 1 and isinstance(ta[1][0], Term) else None
            v, why = outputs(seq, PROV, NAME)
            if not ta or ta[0] != ("key",):
                v, why = False, f"first target is {ta[0] if ta else None}"
            book.ob("binding", f"{nodep}:targets", v, f"outputs bound: {why}", loc)
        # return
        rv = ret[0].value
        ok, why = None, ast.unparse(ret[0])
        if isinstance(rv, ast.Tuple) and len(rv.elts) == 2:
            k = name(rv.elts[0])
            lst = rv.elts[1]
            if isinstance(lst, (ast.List, ast.Tuple)) and len(lst.elts) == 1:
                q = name(lst.elts[0].value if isinstance(lst.elts[0], ast.Starred) else lst.elts[0])
                q = q[0] if q and len(q) == 1 and isinstance(q[0], Term) else None
                if q is not None and q.op == "seq":
                    ok = k == ("key",) and q.a[0] is dn
                    why += " of " + show(q.a[0])[:100]
                    if k == ("key",) and not ok and (undecidable(q.a[0]) or q.a[0].op == "phi"):
                        ok = None
            elif k is not None and k != ("key",):
                ok = False
        book.ob("result", f"{nodep}:return", ok, why, loc)
        # instances kept for plotting etc.
        # code is what is executed
        cp = r.heap.get((SELF, "_compile"))
        if cp is not None and cp.op in ("partial",):
            okx = len(cp.a[1]) >= 2 and subst(cp.a[1][0], m) is code
            tgt = cp.a[1][1] if len(cp.a[1]) >= 2 else None
            if tgt is not None and okx and tgt.op == "call" and head(tgt.a[0]) in ("builtins.globals", "builtins.locals", "builtins.dict", "builtins.vars"):
                okx = False   # never reaches the table the simulation is taken from
            book.ob("compile", f"{nodep}:exec", okx, f"compile executes the generated text in {show(tgt)[:60] if tgt is not None else 'the current scope'}", loc)


def outputs(seq, PROV, NAME):
    """Targets of a plugin call: its outputs in order, superseded ones discarded."""
    if seq is None or seq.op != "seq":
        return None, "?"
    s = seq.a[0]
    if s is PROV:
        return False, "every output is bound, also those another plugin is registered to provide"
    if s.op == "comp":
        _, body, lid, src, conds = s.a
        if src is not PROV:
            if isinstance(src, Term) and src.op == "call" and fname_(src) in ("sorted", "set", "reversed"):
                return False, f"outputs in the order of {show(src)[-60:]}"
            return None, show(s)[:160]
        if conds:
            return False, "outputs are left out of the targets"
        el = T("elem", lid, src)
        if body is el:
            return False, "every output is bound, also those another plugin is registered to provide"
        if body.op == "phi":
            c, a, b = body.a
            own = own_test(c, el, NAME)
            if own is None:
                return None, show(body)[:200]
            keep, drop = (a, b) if own else (b, a)
            if keep is el and drop.op == "const" and isinstance(drop.a[0], str) and drop.a[0].startswith("_"):
                return True, "outputs in order, superseded ones discarded"
            if keep is not el and drop is el:
                return False, "the plugin's own outputs are discarded"
        return None, show(body)[:200]
    if s.op == "call" and fname_(s) in ("sorted", "set", "reversed"):
        return False, f"outputs in the order of {show(s)[-60:]}"
    return None, show(s)[:160]


def own_test(c, el, NAME):
    """True/False if c tests that el is provided by this plugin / by another."""
    p = item(REG, el)
    if c.op == "cmp" and c.a[0] in ("==", "!=", "is", "is not"):
        s = {c.a[1], c.a[2]}
        if s == {attr(p, "__name__"), NAME}:
            return c.a[0] in ("==", "is")
    return None


def deduce_rule(proj, book):
    dn = par("data_names")
    for noeff in (False, True):
        r = run(proj, CLS, "deduce", opaque=opq("dependencies_deduce", "dependencies_simplify", "flush_source_code"),
                args={"force_no_eff": C(noeff)}, kinds={dn: "list"})
        loc = r.loc
        tag = "no_eff" if noeff else "eff"
        dd, ds, fl = (calls(r, n) for n in ("dependencies_deduce", "dependencies_simplify", "flush_source_code"))
        if len(dd) != 1 or len(ds) != 1 or len(fl) != 1:
            book.ob("result", f"deduce:{tag}", None, "workflow is not built by one call of each step", loc)
            continue
        m = {}
        for e in (dd[0], fl[0]):
            for x in walk(arg(e, 0, "data_names", C(None))):
                if x.op == "call" and fname_(x) == "isinstance" and x.a[1][0] is dn:
                    m[x] = C(True)
        n1, n2 = (subst(arg(e, 0, "data_names", C(None)), m) for e in (dd[0], fl[0]))
        book.ob("result", f"deduce:{tag}:same", n1 is n2 or (None if undecidable(n1) or undecidable(n2) else False),
                f"names deduced {show(n1)[:100]} and returned {show(n2)[:100]}", loc)
        v, why = eff_last(n2, dn, noeff)
        book.ob("result", f"deduce:{tag}:eff", v, why, loc)
        st = r.heap.get((SELF, "force_no_eff"))
        old = attr(SELF, "force_no_eff")
        if st is not None:
            st = canon(subst(st, m))
        ok = (False if st is None or st is old else True if isc(st, noeff) else False if st.op == "const" else None)
        book.ob("result", f"deduce:{tag}:kept", ok, f"the component remembers force_no_eff as {show(st)[:60] if st is not None else 'it was before'}", loc)
        nd = [arg(e, 2, "nodep_data_name") for e in (dd[0], fl[0])]
        for q, e in zip(nd, ("deduce", "code")):
            book.ob("result", f"deduce:{tag}:nodep:{e}", False if q is None else same(q, NODEP), f"name without dependency is {show(q)[:60] if q is not None else 'the default'}", loc)
        dep = arg(ds[0], 0, "dependencies")
        book.ob("result", f"deduce:{tag}:tree", dep is dd[0].term or (None if dep is None or undecidable(dep) or dep.op != "call" else
                dep.op == "call" and head(dep.a[0]).endswith("dependencies_deduce")), "the deduced tree is simplified", loc)
        i = [r.events.index(e) for e in (dd[0], ds[0], fl[0])]
        book.ob("result", f"deduce:{tag}:order", i == sorted(i), "deduce, simplify, generate", loc)
        fnm = arg(fl[0], 1, "func_name")
        book.ob("result", f"deduce:{tag}:func", False if fnm is None else same(fnm, par("func_name")), f"function name {show(fnm)[:40] if fnm is not None else 'default'}", loc)


def eff_last(t, dn, noeff):
    E = C("eff")

    def base(x):
        """True: requested names in order without eff; False: definitely not; None."""
        x0 = x
        if x.op == "call" and fname_(x) in ("list", "tuple") and len(x.a[1]) == 1:
            return "all" if base(x.a[1][0]) == "all" else base(x.a[1][0])
        if x is dn:
            return "all"
        if x.op == "list" and len(x.a) == 1 and x.a[0].op == "star":
            return base(x.a[0].a[0])
        if x.op == "call" and fname_(x) in ("set", "sorted", "frozenset"):
            return "mixed"
        if x.op == "bin" and x.a[0] in ("-", "&", "|", "^") and any(y.op in ("set",) or y.op == "call" and fname_(y) in ("set", "frozenset") for y in x.a[1:]):
            return "mixed" if occurs(x, dn) else None   # a set has no order
        if x.op == "remove" and x.a[1] is E:
            b = base(x.a[0])
            return "without" if b in ("all", "without") else b
        if x.op == "phi":
            c = x.a[0]
            pos_, neg_ = x.a[1], x.a[2]
            if c.op == "cmp" and c.a[0] in ("in", "not in") and c.a[1] is E:
                if c.a[0] == "not in":
                    pos_, neg_ = neg_, pos_
                if base(pos_) == "without" and base(neg_) in ("all", "without"):
                    return "without"
                if base(pos_) == base(neg_) or base(pos_) == "mixed":
                    return base(pos_)
            return None
        if x.op == "comp" and x.a[0] in ("list", "gen") and x.a[1].op == "elem" and len(x.a[4]) == 1:
            g = x.a[4][0]
            if g.op == "cmp" and g.a[0] == "!=" and {g.a[1], g.a[2]} == {x.a[1], E} and base(x.a[3]) == "all":
                return "without"
        return None

    last = None
    if t.op == "append":
        t = binop("+", t.a[0], T("list", t.a[1]))
    if t.op == "bin" and t.a[0] == "+" and t.a[2].op in ("list", "tuple"):
        last, t0 = list(t.a[2].a), t.a[1]
    elif t.op in ("list", "tuple") and t.a and t.a[-1] is E and len(t.a) == 2 and t.a[0].op == "star":
        last, t0 = [E], t.a[0].a[0]
    elif t.op == "bin" and t.a[0] == "+" and t.a[1].op in ("list", "tuple") and t.a[1].a == (E,):
        return False, f"the efficiency comes first: {show(t)[:120]}"
    else:
        t0 = t
    b = base(t0)
    d = show(t)[:160]
    if b is None and t.op == "phi" and not noeff and t.a[0].op == "cmp" and t.a[0].a[0] in ("in", "not in") and t.a[0].a[1] is E:
        there = t.a[1] if t.a[0].a[0] == "in" else t.a[2]
        if base(there) == "all":
            return False, "an efficiency already requested stays where it is: " + d
    if b is None:
        return None, d
    if noeff:
        return (b == "without" and last is None) or (None if b == "without" else False), d
    if last is None:
        return False, "the efficiency is not the last requested name: " + d
    return b == "without" and last == [E], d


def compile_rule(proj, book):
    r = run(proj, CLS, "compile")
    v = r.heap.get((SELF, "simulate"))
    want = idx(T("global", "appletree.share._cached_functions"), attr(SELF, "llh_name"), attr(SELF, "func_name"))
    book.ob("compile", "simulate", same(v, want) if v is not None else None, f"simulate is {show(v)[:120] if v is not None else 'not set'}", r.loc)
    ev = [e for e in r.events if e.kind == "call" and head(e.fn).lstrip(".") in ("_compile", "exec", "builtins.exec")]
    st = [i for i, e in enumerate(r.events) if e.kind == "setattr"]
    book.ob("compile", "executed", bool(ev) and not conj(ev[0].guard) is None and isc(conj(ev[0].guard), True) or (False if not ev else None),
            "the generated text is executed first", r.loc)


def check(proj, book):
    pre = book.step("walk", walk_rule, proj, book)
    fs = book.step("simplify", simplify_rule, proj, book, pre)
    book.step("register", register_rule, proj, book)
    book.step("code", code_rule, proj, book, fs)
    book.step("deduce", deduce_rule, proj, book)
    book.step("compile", compile_rule, proj, book)
