"""C24: resources resolve to the first existing candidate in the documented order."""

import ast
import itertools

from ..help import *
from ..terms import show
from .c11 import ev, fold

META = {
    "level": "other",
    "technique": "exhaustive abstract evaluation of the file lookup over all worlds of existing candidates",
    "explain": "The lookup is evaluated over all paths with the existence of every candidate (the name itself, below the search base, below each package "
               "folder, in the auxiliary package, downloadable) as a free boolean, in every combination, with and without a configured absolute or "
               "relative search base.  In each combination the path returned must be the first candidate that exists, or the lookup must raise.",
    "rules": {
        "order": "the first existing candidate in the documented order is returned",
        "none": "a name found nowhere raises",
        "exists": "every candidate of the package is tested under the path that is returned",
        "readers": "the readers of resources open the path the lookup returns",
    },
    "assumptions": ["os.path and pathlib existence tests have no side effects and do not change during a lookup"],
}
SUBS = ("maps", "data", "parameters", "instructs")
FN = par("fname")
URL = par("url_base")
STR = {"builtins.str", "os.fspath", "pathlib.Path", "os.path.abspath", "pathlib.PurePath", "os.path.normpath", "pathlib.PosixPath"}


def pieces(t):
    """Leaves of a path expression in order, or None."""
    if t is FN or t is URL or t.op == "const":
        return [t]
    if t.op == "bin" and t.a[0] == "/":
        a, b = pieces(t.a[1]), pieces(t.a[2])
        return None if a is None or b is None else a + b
    if t.op == "call":
        h = head(t.a[0])
        if h == "os.path.join":
            out = []
            for x in t.a[1]:
                p = pieces(x)
                if p is None:
                    return None
                out += p
            return out
        if h in STR and len(t.a[1]) == 1:
            return pieces(t.a[1][0])
        if h.endswith("resources.files") and len(t.a[1]) == 1 and isc(t.a[1][0], "appletree"):
            return [C("<pkg>")]
        if h in (".joinpath",):
            out = pieces(t.a[0].a[0])
            for x in t.a[1]:
                p = pieces(x)
                if p is None or out is None:
                    return None
                out = out + p
            return out
        if h in (".as_posix", ".resolve", ".absolute", ".__str__", ".__fspath__") and not t.a[1]:
            return pieces(t.a[0].a[0])
        if h in ("os.path.basename", ".lower", ".upper", ".title", ".swapcase") and contains(t, lambda x: x is FN):
            x = t.a[1][0] if t.a[1] else t.a[0].a[0]
            return [C("<changed name>")] if pieces(x) == [FN] else None
        if h == "os.path.dirname" and t.a[1] and t.a[1][0].op in ("global", "attr") and "__file__" in show(t.a[1][0]):
            return [C("<pkg>")]
    if t.op in ("global",) and t.a[0] in ("appletree.utils.PARPATH", "appletree.share.PARPATH"):
        return None
    return None


def candidate(t):
    """Which candidate path a term is: 'self', 'url', a package folder, 'aux', 'download'; None if unknown."""
    p = pieces(t)
    if p is not None:
        k = [x.a[0] if x.op == "const" else x.a[0] for x in p]
        if k == ["fname"]:
            return "self"
        if k == ["url_base", "fname"]:
            return "url"
        if len(k) == 3 and k[0] == "<pkg>" and k[2] == "fname" and k[1] in SUBS:
            return k[1]
        if len(k) == 2 and k[0] == "<pkg>" and k[1] == "fname":
            return "pkg?"
        if "<changed name>" in k or k[-1] == "fname" and (k[0] == "url_base" or k[0] == "<pkg>") and all(isinstance(x, str) and x and x.isidentifier() for x in k[1:-1]):
            return "elsewhere"   # no file there, in the worlds considered
        return None
    for x in walk(t):
        if x.op == "call":
            n = head(x.a[0]).split(".")[-1]
            if n == "get_abspath" and "ntauxfiles" in show(x.a[0])[:200] and x.a[1] and x.a[1][0] is FN:
                return "aux"
            if n == "download_single" and x.a[1] and x.a[1][0] is FN:
                return "download"
    return None


class World:
    def __init__(self, d, handlers):
        self.d, self.handlers = d, handlers
        self.unknown = set()

    def atom(self, x):
        """Truth of an atom in this world, or None."""
        d = self.d
        if x.op == "call":
            h = head(x.a[0])
            n = h.split(".")[-1]
            if n in ("isfile", "exists", "lexists", "is_file"):
                t = x.a[0].a[0] if h.startswith(".") and not x.a[1] else x.a[1][0] if x.a[1] else None
                c = candidate(t) if t is not None else None
                return d.get(c) if c in d else False if c == "elsewhere" else None
            if n in ("startswith", "isabs", "is_absolute"):
                t = x.a[1][0] if n == "isabs" else x.a[0].a[0]
                p = pieces(t)
                if p == [URL]:
                    return d["abs"]
                if p == [FN]:
                    return d["fabs"]
            if h == "builtins.bool" and len(x.a[1]) == 1:
                return self.atom(x.a[1][0])
        if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[1] is FN and "list_private_files" in show(x.a[2])[:200]:
            return d["aux"] == (x.a[0] == "in")
        if x.op == "global" and x.a[0].endswith("NT_AUX_INSTALLED"):
            return d["aux_installed"]
        if x.op == "global" and x.a[0].endswith("SKIP_MONGO_DB"):
            return d["skip"]
        if x is URL or x.op == "attr" and x.a[0] is URL:
            return True
        if x.op == "except":
            k = self.handlers.get(x)
            if k == "pkg":
                return not any(d[s] for s in SUBS)
            if k == "download":
                return not d["download"]
        return None

    def put(self, g):
        m = {}
        for x in walk(g):
            if x.op in ("call", "cmp", "global", "except", "param", "attr") and x not in m:
                v = self.atom(x)
                if v is not None:
                    m[x] = C(v)
        # a truth value of the search base itself is only meant in a condition
        m = {k: v for k, v in m.items() if not (k is URL and any(y.op == "call" and any(a is k for a in y.a[1]) for y in walk(g)))}
        return truth(fold(subst(g, m))) if m else truth(g)


def truth(g):
    """Paths are true, and not None."""
    def path(x):
        return isinstance(x, Term) and x.op in ("call", "bin") and candidate(x) not in (None, "pkg?")

    def f(x):
        if x.op == "not" and path(x.a[0]):
            return C(False)
        if x.op in ("and", "or") and any(path(y) for y in x.a):
            return (conj if x.op == "and" else disj)(tuple(C(True) if path(y) else y for y in x.a))
        if x.op == "phi" and path(x.a[0]):
            return x.a[1]
        if x.op == "cmp" and x.a[0] in ("is", "==", "is not", "!=") and (path(x.a[1]) and x.a[2] is NONE or path(x.a[2]) and x.a[1] is NONE):
            return C(x.a[0] in ("is not", "!="))
        return x
    return rewrite(g, f)


def handlers_of(proj, r):
    """Kind of each exception handler: what its try body does."""
    out = {}
    for e in r.events:
        if e.kind != "handler":
            continue
        ids = [x for g in e.guard for x in walk(g) if x.op == "except"]
        if not ids:
            continue
        c = e.guard[-1]
        if c.op != "except":
            continue
        f = next((m for m in proj.modules.values() if m.rel == e.loc[0]), None) if hasattr(proj, "modules") else None
        tree = f.tree if f is not None else None
        if tree is None:
            continue
        for t in ast.walk(tree):
            if isinstance(t, ast.Try) and any(h.lineno == e.loc[1] for h in t.handlers):
                src = " ".join(ast.dump(s) for s in t.body)
                dl, ab = "download_single" in src, not ("download_single" in src)
                out[c] = "download" if dl else "pkg" if ab else None
    return out


def lookup(proj, book):
    f = proj.func("get_file_path")
    pname = f.node.args.args[0].arg
    n = 0
    for tag, table in (("no_base", {}), ("base", {"url_base": URL})):
        r = ev(proj, None, "get_file_path", table, {}, {pname: FN}, kinds={FN: "str", URL: "str"})
        hs = handlers_of(proj, r)
        # the tests made: every candidate of the package by its own path
        seen = set()
        for x in {y for g, t, l in rets(r) for z in (g, t) for y in walk(z)} | {y for e in r.events for g in e.guard for y in walk(g)}:
            if x.op == "call" and head(x.a[0]).split(".")[-1] in ("isfile", "exists", "is_file", "lexists"):
                t = x.a[0].a[0] if head(x.a[0]).startswith(".") and not x.a[1] else x.a[1][0] if x.a[1] else None
                c = candidate(t) if t is not None else None
                seen.add(c)
                book.ob("exists", f"{tag}:{c}:test", True if c and c not in ("pkg?", "elsewhere") else None, f"existence test of {show(t)[:80] if t is not None else '?'}", f.loc)
        keys = ["fabs", "self"] + (["url", "abs"] if table else []) + list(SUBS) + ["aux", "aux_installed", "skip", "download"]
        bad = set()
        for vals in itertools.product((False, True), repeat=len(keys)):
            d = dict(zip(keys, vals))
            if d["aux"] and not d["aux_installed"] or d["download"] and d["skip"]:
                continue
            if d["fabs"] and any(d[k] != d["self"] for k in ("url",) + SUBS if k in d):
                continue  # an absolute name joined to anything is the name itself
            d.setdefault("url", False)
            d.setdefault("abs", False)
            order = [("self", d["self"]), ("url", d["url"] and d["abs"])] + [(s, d[s]) for s in SUBS] + [
                ("aux", d["aux"]), ("download", d["download"])]
            want = next((k for k, v in order if v), "raise")
            got = result(World(d, hs), r)
            if d["fabs"] and got in ("url",) + SUBS:
                got = "self"
            n += 1
            if got == want:
                continue
            here = ",".join(k for k, v in order if v) or "nothing"
            key = (want, got)
            if key in bad:
                continue
            bad.add(key)
            rule = "none" if want == "raise" else "order"
            book.ob(rule, f"{tag}:{want}:{got}", None if got is None else False,
                    f"with {here} existing the result is {got}, expected {want}", f.loc)
        for rule in ("order", "none"):
            if not any((w == "raise") == (rule == "none") for w, g in bad):
                book.ob(rule, f"{tag}:all", True, "all combinations of existing candidates", f.loc)
    book.info["worlds"] = n


def result(w, r):
    gs = [w.put(raise_guard(e)) for e in raises(r) if not (getattr(e, "extra", None) and e.extra == "caught")]
    out = set()
    for g, t, l in rets(r):
        g, t = w.put(g), w.put(t)
        if isc(g, False):
            continue
        if not w.d["download"] and contains(t, lambda x: x.op == "call" and head(x.a[0]).endswith(".download_single")):
            continue  # the download raised
        if not isc(g, True) and candidate(g) is None:
            return None
        while t.op == "phi":
            if isc(t.a[0], True):
                t = t.a[1]
            elif isc(t.a[0], False):
                t = t.a[2]
            else:
                return None
        if t.op == "noreturn":
            out.add("raise")
            continue
        out.add("None" if t is NONE else candidate(t))
    if not out:
        return "raise" if any(isc(g, True) for g in gs) else None
    if len(out) == 1:
        return out.pop()
    return None


def readers(proj, book):
    """load_json and load_data open what the lookup returned."""
    for name, a in (("load_json", "file_name"), ("load_data", "file_name")):
        f = proj.func(name)
        p = f.node.args.args[0].arg
        r = run(proj, None, name, opaque=opq("get_file_path"), args={p: FN})
        got = False
        for e in r.events:
            if e.kind != "call" or e.fn is None:
                continue
            n = head(e.fn).split(".")[-1]
            if n in ("open", "read_csv", "read_pickle", "read_text", "read_json"):
                x = e.args[0] if e.args else e.fn.a[0] if e.fn.op == "attr" else None
                if x is None:
                    continue
                got = True
                ok = contains(x, lambda y: y.op == "call" and head(y.a[0]).endswith("get_file_path") and y.a[1] and y.a[1][0] is FN)
                book.ob("readers", f"{name}:{n}", True if ok else (False if contains(x, lambda y: y is FN) and not contains(
                    x, lambda y: y.op == "call" and y.a[0].op == "global" and y.a[0].a[0].startswith("appletree")) else None),
                    f"opens {show(x)[:100]}", e.loc)
        if not got:
            book.ob("readers", name, None, "no known reader call", f.loc)


def check(proj, book):
    for f in (lookup, readers):
        book.step(f.__name__, f, proj, book)
