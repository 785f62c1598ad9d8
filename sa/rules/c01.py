"""C01: every random draw consumes a fresh key, and the key handed back is fresh."""

import ast

from ..keyflow import analyse, MAKERS
from ..terms import show

META = {
    "level": "other",
    "technique": "linear (use-once) dataflow analysis of PRNG keys on a gated value-flow graph",
    "explain": "Every function that takes or makes a PRNG key is evaluated over all of its paths (helpers, closures, "
               "lax.while_loop/cond/map/vmap bodies inlined); key values are value-numbered terms, so aliasing, renaming and "
               "extraction do not matter.  An alarm names two draws consuming the same key term under compatible guards, a "
               "loop-invariant key consumed in a loop, or a returned key that is consumed or not derived from the input.",
    "rules": {
        "reuse": "a key term is consumed by at most one draw/split/call on any path",
        "loop": "a key consumed in a loop (or mapped function) depends on that loop",
        "carry": "a key carried by a loop is unconsumed when carried and on entry",
        "returned": "the key handed back has not been consumed",
        "derived": "the key handed back is derived from the key taken",
        "root": "no draw is keyed from a constant or from a new clock key inside a key-taking function",
        "handback": "a function whose siblings hand the key back first hands back a key first on every path",
    },
    "assumptions": ["jax.random primitives consume the key passed to them and split returns independent keys",
                    "fold_in with distinct data yields independent keys"],
}


def uses_maker(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            d = f.mod.dotted(n.func)
            d = f.mod.proj.canon(d) if d else None
            if d and (d in MAKERS or d.split(".")[-1] == "get_key"):
                return True
    return False


def is_dictlike(f):
    return f.cls is not None and any(
        isinstance(b, str) and b in ("dict", "builtins.dict", "collections.UserDict") for c in f.cls.mro()
        for b in c.bases())


def key_functions(proj):
    for f in proj.all_funcs():
        if is_dictlike(f):
            continue
        if "key" in f.params or uses_maker(f):
            yield f


def check(proj, book):
    n = 0
    for f in key_functions(proj):
        kf, out, rets = analyse(proj, f)
        cons = kf.consumes()
        if not cons and not rets:
            continue
        n += 1
        for ok, rule, k, what, loc in out:
            inst = f"{f.qual}:{_short(k)}"
            book.ob(rule, inst, ok, f"in {f.qual}: {what}", loc)
        # every path of a sampler / simulate method hands a key back first
        if "key" in f.params and rets:
            for g, t, h, loc in kf.res.exits:
                ok = (t.op in ("tuple", "list") and t.a and kf.is_key(t.a[0])) or kf.is_key(t) or t.op == "noreturn"
                if t.op not in ("tuple", "list") and not ok:
                    ok = None
                book.ob("handback", f"{f.qual}", ok,
                        "hands the key back first" if ok else f"{f.qual} returns {show(t)[:80]} on some path", loc)
    book.info["key_functions"] = n
    book.floor("reuse", 60)
    book.floor("returned", 50)


def _short(k):
    s = show(k).replace("\n", " ")
    return s if len(s) < 60 else s[:28] + ".." + s[-28:]
