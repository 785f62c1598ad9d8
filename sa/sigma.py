"""SigmaMap.build in a world: which maps it makes, from which files, for which likelihood, and what it leaves in the table."""

from .help import *
from .rules.c11 import CFG
from .rules.c20 import tdict, tlist
from .world import World, known, obj

SIG = ("median", "lower", "upper")


def entry(t, *keys):
    """Value at the path of keys in a literal table; 'absent' or None (not known)."""
    for k in keys:
        if not isinstance(t, Term) or t.op != "dict" or not known(t):
            return None
        t = next((v for q, v in t.a if isc(q, k)), "absent")
        if t == "absent":
            return t
    return t


def build(proj, table, llh, default, heap=()):
    """Outcome: {"refused": bool|None, "maps": {sigma: (object, kwargs, [likelihoods it is built for])}, "table": term}"""
    f = proj.method("SigmaMap", "build")
    made, built = {}, []

    def hook(ev, fn, args, kw, fr, ex):
        h = head(fn)
        if h.endswith("config.Map"):
            m = obj(f"map {len(made)}")
            names = ["method"]
            d = dict(kw)
            for n, a in zip(names, args):
                d[n] = a
            made[m] = d
            for k, v in d.items():
                ev.heap[(m, k)] = v
            return m
        if h.endswith("get_file_path") and len(args) == 1 and args[0].op == "const":
            return args[0] if str(args[0].a[0]).startswith("/") else C("/" + str(args[0].a[0]))
        if fn.op == "attr" and fn.a[1] == "build" and fn.a[0] in made:
            a = args[0] if args else dict(kw).get("llh_name")
            built.append((fn.a[0], a, ev.guard))
            return NONE
        return None
    w = World(proj, opaque=opq("Map.build", "get_file_path"))
    w.hook = hook
    w.heap[CFG] = table
    w.heap[(SELF, "name")] = C("opt")
    w.heap[(SELF, "default")] = default
    w.heap[(SELF, "method")] = obj("method")
    for k, v in dict(heap).items():
        w.heap[(SELF, k)] = v
    r = w.run(f, cls=proj.cls("SigmaMap"), args={"llh_name": C(llh) if llh is not None else NONE})
    rs = [conj(e.guard) for e in r.events if e.kind == "raise"]
    g = disj(tuple(rs)) if rs else FALSE
    out = {"refused": bool(g.a[0]) if g.op == "const" else None, "maps": {}, "table": r.heap.get(CFG), "loc": f.loc, "made": made, "events": r.events}
    for s in SIG:
        m = r.heap.get((SELF, s))
        if m is None or m not in made:
            out["maps"][s] = None
            continue
        sure = all(isc(conj(g), True) for x, a, g in built if x is m)
        out["maps"][s] = (m, made[m], [a for x, a, g in built if x is m] if sure else None)
    return out


def files(*xs):
    return tlist(*xs)


def both(a, b):
    return tdict({"opt": tdict({"B": b, "A": a}), "other": C("kept")})


def file_of(o, sg, llh):
    """The file the map would be read from: its entry in the table, else its default.  Constant term, 'error' or None."""
    m = o["maps"].get(sg)
    if m is None:
        return None
    kw = m[1]
    n = kw.get("name")
    if n is None or n.op != "const" or o["table"] is None:
        return None
    v = entry(o["table"], n.a[0])
    if isinstance(v, Term) and v.op == "dict":
        v = entry(v, llh)
        v = "error" if v == "absent" else v
    elif v == "absent":
        v = kw.get("default")
    return v if v == "error" or isinstance(v, Term) and v.op == "const" else None


CASES = {
    "list4": (files("/m", "/l", "/u", "s"), ("/m", "/l", "/u")),
    "list3": (files("/m", "/l", "/u"), ("/m", "/l", "/u")),
    "string": (C("/one"), ("/one",) * 3),
}
DEFAULTS = {"list": files("/dm", "/dl", "/du"), "string": C("/d")}
