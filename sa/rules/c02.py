"""C02: simulation depends only on key, parameters and configuration."""

import ast

from ..help import *
from ..reach import Graph, effects, sources, locals_of, root, parents

META = {
    "level": "other",
    "technique": "call-graph reachability of entropy sources, effect analysis of simulation code, value flow of seeds",
    "explain": "From every function that is given a PRNG key, every compiled function and every plugin, the call graph is followed; no "
               "function on it may refer to a clock, process-wide random state, the environment, object identity or string hashes.  Every store of a reached "
               "function to an attribute, a module-level object or a mutable default is classified by where its value comes from: values that stem from "
               "configuration only are caches, values that stem from arguments or from the stored object itself must not be read back, and may not occur in "
               "compiled code at all.  Seeds 0, 1 and others are substituted into the functions that take one and traced to the generator.",
    "rules": {
        "entropy": "no entropy source is reachable from code that is given a key",
        "state": "no value derived from a simulation is kept where a later simulation reads it",
        "seed": "an explicit seed is the one the generator is built from",
    },
    "assumptions": ["functions of other packages that are given a key use no other randomness", "what is read from the environment at import is configuration"],
}
SOURCES = {
    "time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time", "time.ctime", "time.localtime", "time.gmtime", "time.strftime",
    "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "datetime.now", "datetime.utcnow",
    "os.urandom", "os.getpid", "os.environ", "os.getenv", "os.getrandom", "os.times", "os.getppid", "os.cpu_count", "os.getcwd", "os.listdir",
    "builtins.id", "builtins.hash", "builtins.input", "threading.get_ident", "threading.current_thread", "socket.gethostname", "platform.node",
}
PREFIX = ("numpy.random.", "random.", "secrets.", "uuid.")
NOISE = {"numpy.random.Generator", "numpy.random.RandomState", "numpy.random.PCG64", "numpy.random.SeedSequence"}


def source(d, name):
    if d is None:
        return None
    if "." not in d and name in ("id", "hash", "input"):
        d = "builtins." + d
    if d in NOISE:
        return None
    if d in SOURCES or any(d.startswith(p) for p in PREFIX):
        return d
    return None


def seeded(call):
    """default_rng(x) / RandomState(x) with an explicit argument."""
    return call is not None and (call.args and not (isinstance(call.args[0], ast.Constant) and call.args[0].value is None) or any(k.arg in ("seed",) for k in call.keywords))


def check(proj, book):
    g = Graph(proj)
    seen = reached(proj, g)
    book.step("entropy", entropy, proj, book, g, seen)
    book.step("state", state, proj, book, g, seen)
    book.step("seed", seed, proj, book)
    book.floor("entropy", 100)
    book.floor("seed", 8)


def keyed(f):
    a = f.node.args
    return bool({"key", "pos"} & {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs})


def recompiles(g, f):
    return any(isinstance(n, ast.Attribute) and n.attr in ("compile", "deduce") and c is not None for h, n, c in g.edges[id(f)])


def reached(proj, g):
    roots = []
    for f in g.funcs:
        if f.cls is not None and any(b.qual.endswith("share.RecordingDict") or b.qual.endswith("share.StaticValueDict") for b in f.cls.mro()):
            continue
        if recompiles(g, f) or f.mod.name.endswith(".profiler"):
            # recompilation is configuration; the profiler returns timings
            continue
        if keyed(f) and not (f.name.startswith("__") and f.name != "__call__") or f.is_jitted():
            roots.append(f)
    p = proj.lookup_class("appletree.plugin.Plugin")
    if p is not None:
        roots += [m for n, m in p.methods.items() if n == "__call__"]

    def edge(f, h, n, c):
        # a key built from an explicit seed brings in no clock
        if h.name == "get_key" and seeded(c):
            return False
        return True

    return g.reach(roots, edge)


def entropy(proj, book, g, seen):
    for f, _ in list(seen.values()):
        loc = locals_of(f)
        calls = {id(n.func): n for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        hits = []
        inner = set()
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Name, ast.Attribute)) or id(n) in inner or not isinstance(getattr(n, "ctx", None), ast.Load):
                continue
            r = root(n)
            if not isinstance(r, ast.Name) or r.id in loc:
                continue
            d = proj.canon(f.dotted(n)) if f.dotted(n) else None
            s = source(d, n.id if isinstance(n, ast.Name) else None)
            if s is None or s.endswith((".default_rng", ".RandomState", ".Generator")) and seeded(calls.get(id(n))):
                continue
            if annotation(f, n):
                continue
            x = n
            while isinstance(x, ast.Attribute):
                x = x.value
                inner.add(id(x))
            hits.append((s, n))
        nm = f.qual.split(".", 1)[-1]
        hits = [h for h in hits if enters(f, h[1])]
        if hits:
            s, n = hits[0]
            book.ob("entropy", nm, False, f"{s} is used by {g.path(seen, f)}", (f.mod.rel, n.lineno, f.qual))
        else:
            book.ob("entropy", nm, True, "no entropy source", f.loc)
    book.info["reached"] = len(seen)


QUIET = {"print", "warn", "debug", "info", "warning", "log", "tqdm"}


def enters(f, node):
    """The value of the expression can enter a result, a store or a decision (and not only a printed message)."""
    par = getattr(f, "_par", None) or parents(f)
    tainted, seen = {id(node)}, set()
    names = set()
    for _ in range(20):
        before = (len(tainted), len(names))
        marks = [n for n in ast.walk(f.node) if id(n) in tainted or isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names]
        for n in marks:
            x = n
            while x is not None and not isinstance(x, ast.stmt):
                q = par.get(id(x))
                if isinstance(q, ast.Call) and x is not q.func:
                    fn = q.func
                    nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
                    if nm in QUIET:
                        x = None
                        break
                if isinstance(q, ast.NamedExpr):
                    names.add(q.target.id)
                if isinstance(q, ast.Lambda):
                    return True
                x = q
            if x is None:
                continue
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    for y in [t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts:
                        if isinstance(y, ast.Name):
                            names.add(y.id)
                        else:
                            return True
            elif isinstance(x, ast.Expr):
                v = x.value
                if not isinstance(v, (ast.Name, ast.Constant)) and not (isinstance(v, ast.Call) and any(id(n) == id(z) for z in ast.walk(v.func))):
                    return True
                if isinstance(v, ast.Call) and id(n) in {id(z) for z in ast.walk(v.func)} and n is not node:
                    return True
                if isinstance(v, ast.Call) and n is node and source_effect(v):
                    return True
            else:
                return True
        if (len(tainted), len(names)) == before:
            return False
    return True


def source_effect(call):
    """A call for its effect on process-wide state (numpy.random.seed, os.environ.update ...)."""
    return isinstance(call.func, ast.Attribute) and call.func.attr in ("seed", "set_state", "shuffle", "update", "setdefault", "pop", "__setitem__", "urandom")


def annotation(f, n):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and any(y is n for y in ast.walk(x.annotation)):
            return True
    return f.node.returns is not None and any(y is n for y in ast.walk(f.node.returns))


def family(f, k):
    return f.cls is not None and k.cls is not None and (f.cls in k.cls.mro() or k.cls in f.cls.mro() or set(f.cls.mro()) & set(k.cls.mro()))


def reads(f, target):
    """The function reads the stored object, other than to update it."""
    kind, name = target
    own = {id(y) for e in effects(f) if e.target == target for v in e.value if v is not None for y in ast.walk(v)}
    hit = find_read(f, kind, name)
    return next((n for n in hit if id(n) not in own), None)


def find_read(f, kind, name):
    me = f.params[0] if f.cls is not None and f.params and not f.is_static() else None
    aug = {id(n.target) for n in ast.walk(f.node) if isinstance(n, ast.AugAssign)}
    for n in ast.walk(f.node):
        if kind == "self":
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load) and n.attr == name and id(n) not in aug and not written(f, n):
                yield n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == me \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
                yield n
        elif kind == "global":
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in aug:
                r = root(n)
                if isinstance(r, ast.Name) and r.id not in locals_of(f):
                    d = f.dotted(n)
                    d = f.mod.proj.canon(d if d and "." in d else f.mod.name + "." + (d or ""))
                    if d == name and not written(f, n):
                        yield n
        elif kind == "default":
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and not written(f, n):
                yield n


def written(f, n):
    """The load only serves an in-place change (x[...] = v, x.append(v))."""
    par = getattr(f, "_par", None)
    if par is None:
        par = f._par = parents(f)
    p = par.get(id(n))
    if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, (ast.Store, ast.Del)):
        return True
    if isinstance(p, ast.Attribute) and p.value is n and p.attr in ("append", "add", "update", "extend", "clear", "discard", "insert"):
        q = par.get(id(p))
        return isinstance(q, ast.Call) and q.func is p and isinstance(par.get(id(q)), ast.Expr)
    return False


def state(proj, book, g, seen):
    compiled = g.reach([f for f, _ in seen.values() if f.is_jitted()])
    fs = [f for f, _ in seen.values()]
    n = 0
    for f in fs:
        es = effects(f)
        nm = f.qual.split(".", 1)[-1]
        if f.name == "__init__" and not any(e.target[0] == "global" for e in es):
            # a new object's own attributes
            continue
        k = {}
        for e in es:
            if f.name == "__init__" and e.target[0] == "self":
                continue
            n += 1
            key = f"{nm}:{'.'.join(e.target)}"
            k[key] = k.get(key, 0) + 1
            if k[key] > 1:
                key += f"#{k[key]}"
            loc = (f.mod.rel, e.node.lineno, f.qual)
            src = sources(f, e.value, e.node)
            fromarg = sorted(x for t, x in src if t == "param")
            own = e.target in src or e.aug and e.target[0] in ("self", "global", "default") and isinstance(e.node, ast.AugAssign)
            calls_sim = derived(g, f, e, seen)
            if not fromarg and not own and not calls_sim:
                book.ob("state", key, True, f"{e.what} from configuration only", loc)
                continue
            if id(f) in compiled and f.is_jitted():
                book.ob("state", key, False, f"compiled code keeps state: {e.what}", loc)
                continue
            scope = [h for h in fs if e.target[0] != "self" or family(f, h)] if e.target[0] != "default" else [f]
            if e.target[0] == "self" and e.target[1] == "?":
                book.ob("state", key, None, e.what, loc)
                continue
            rd = next(((h, x) for h in scope for x in [reads(h, e.target)] if x is not None), None)
            if rd is None:
                book.ob("state", key, True, f"{e.what} but no simulation reads it", loc)
            else:
                book.ob("state", key, False, f"{e.what} with a value of this call ({', '.join(fromarg) or 'its own earlier value'}) and read by {rd[0].qual.split('.', 1)[-1]} (line {rd[1].lineno}); reached: {g.path(seen, f)}", loc)
    book.ob("state", "stores", True, f"{n} stores in {len(fs)} functions classified", ("appletree", 1, "package"))
    book.info["stores"] = n


def derived(g, f, e, seen):
    return False


def last(fn):
    return head(fn).rsplit(".", 1)[-1]


def bare(t):
    while t is not None and t.op == "f" and t.a[0] == "toint":
        t = canon(t.a[1][0])
    while t is not None and t.op == "call" and last(t.a[0]) in ("int", "index") and len(t.a[1]) == 1:
        t = canon(t.a[1][0])
    return t


def seed(proj, book):
    for v in (C(0), C(1), C(7), C(2**31 - 1)):
        r = run(proj, None, "get_key", args={"seed": v})
        t = canon(r.ret)
        ok = t.op == "call" and last(t.a[0]) in ("PRNGKey", "key") and len(t.a[1]) + len(t.a[2]) == 1
        x = (t.a[1][0] if t.a[1] else dict(t.a[2]).get("seed")) if ok else None
        if ok:
            ver = same(bare(x), v)
        else:
            ver = None if undecidable(t) or t.op == "phi" else False
        if ver is not True and (contains(t, lambda y: y.op == "call" and last(y.a[0]) in ("time", "time_ns", "now", "perf_counter", "urandom", "hash", "id", "getpid"))):
            ver = False
        book.ob("seed", f"get_key:{cval(v)}", ver, f"get_key({cval(v)}) is {show(t)[:120]}", r.loc)
    for v in (C(0), C(7)):
        r = run(proj, "Context", "get_template", args={"seed": v}, opaque=opq("get_key", "get_post_parameters", "replace_alias", "simulate"))
        evs = [e for e in r.events if e.kind == "call" and e.fn is not None and head(e.fn) == ".simulate"]
        if len(evs) != 1:
            book.ob("seed", f"get_template:{cval(v)}", None, f"{len(evs)} simulations", r.loc)
            continue
        e = evs[0]
        kw = dict(e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs or ())
        k = canon(e.args[0] if e.args else kw.get("key", NONE))
        ver = None
        if k.op == "call" and last(k.a[0]) == "get_key":
            x = k.a[1][0] if k.a[1] else dict(k.a[2]).get("seed")
            ver = False if x is None else same(bare(x), v)
        elif not undecidable(k):
            ver = False
        book.ob("seed", f"get_template:{cval(v)}", ver, f"the template is simulated with key {show(k)[:120]}", e.loc)
    for v in (C(0), C(7)):
        r = run(proj, "Parameter", "init_parameter", args={"seed": v}, opaque=opq("sample_prior"))
        evs = [e for e in r.events if e.kind == "call" and e.fn is not None]
        si = [i for i, e in enumerate(evs) if last(e.fn) == "seed"]
        sp = [i for i, e in enumerate(evs) if head(e.fn) == ".sample_prior"]
        good = [i for i in si if evs[i].args and same(bare(canon(evs[i].args[0])), v) is True and not evs[i].guard]
        if not sp:
            ver, why = None, "sample_prior is not called"
        elif not good:
            ver, why = False if not si or all(same(bare(canon(evs[i].args[0])), v) is False for i in si if evs[i].args) else None, f"seed {cval(v)} does not reach numpy.random.seed"
        else:
            ver, why = min(good) < min(sp), "seeded before the prior is sampled" if min(good) < min(sp) else "the prior is sampled before seeding"
        book.ob("seed", f"init_parameter:{cval(v)}", ver, why, r.loc)
