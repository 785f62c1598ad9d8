"""C08: every map interpolator is a convex combination of the neighbouring nodes, each with its own weight."""

import ast
import itertools
import random

from ..axes import Axes, Undecided, V
from ..algebra import TooBig
from ..help import *
from ..numer import Unknown
from ..tensor import Arr, Tensor, arr

META = {
    "level": "other",
    "technique": "component-wise symbolic evaluation of the interpolators; node indices decided by case analysis of the cell, weights by rational normal form",
    "explain": "Each interpolator a map can use is found through the dispatch tables and evaluated for a generic query point with symbolic "
               "coordinates and grid.  The nodes gathered, and the coefficient each is multiplied with, are extracted as rational functions; "
               "indices are decided for every position of the query's cell relative to the grid (below, inside, last cell, above), and "
               "coefficients are compared, exactly, with the multilinear weights or with normalised inverse powers of the distance to that "
               "very node.",
    "rules": {
        "dispatch": "each supported (dimension, method) is served by an interpolator of that dimension; NN by a nearest-neighbour one",
        "cell": "the cell index is the floor of (query - lower) (n - 1) / (upper - lower) of the same axis",
        "nodes": "the gathered nodes are the 2^D corners of the cell, edge nodes outside the grid",
        "unity": "the weights add up to one",
        "weights": "each node is multiplied with its own weight",
        "regular": "no zero distance is divided by",
        "points": "on sample grids, with each map value at one node only: the weights are non-negative, add up to one, vanish outside the cell, "
                  "are one at a node, larger for nearer nodes, multilinear for linear methods, and on the nearest node for nearest-neighbour ones",
        "nearest": "each index of a nearest-neighbour method is that of the minimal distance along its axis",
    },
    "assumptions": ["gathers clamp indices beyond the end to the last node and count negative indices from the end (JAX semantics)",
                    "coordinates of point maps are sorted in increasing order"],
}
X0 = par("$x")


def check(proj, book):
    fs = book.step("dispatch", dispatch, proj, book) or {}
    done = {}
    for (kind, D, m), f in sorted(fs.items(), key=str):
        if f is None:
            continue
        k = (f.qual, D, m == "NN")
        if k in done:
            continue
        done[k] = 1
        book.step(f.name, interp, proj, book, f, D, m == "NN", kind)
    done = {}
    for (kind, D, m), f in sorted(fs.items(), key=str):
        if f is not None and (f.qual, D, m) not in done:
            done[(f.qual, D, m)] = 1
            book.step(f"{f.name} at points", points, proj, book, f, D, m, kind)
    book.step("knn", knn, proj, book)
    book.step("knn at points", knn_points, proj, book)
    book.floor("dispatch", 6)
    book.floor("weights", 4)


# -- which interpolator serves what --------------------------------------------

def table(proj, t, method):
    """Resolve lookups in class-level tables, at a given method."""
    cls = proj.cls("Map")
    t = subst(t, {attr(SELF, "method"): C(method)})

    def f(x):
        if x.op == "attr" and (x.a[0] is SELF or x.a[0].op == "global" and x.a[0].a[0].split(".")[-1] == "Map"):
            h = cls.find_attr(x.a[1])
            if h:
                return lit(proj, h[0].mod, h[1]) or x
        if x.op == "global":
            v = proj.lookup(x.a[0])
            mod, _, n = x.a[0].rpartition(".")
            m = next((q for q in proj.files.values() if q.name == mod), None)
            if m is not None:
                for st in m.tree.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and any(
                            isinstance(y, ast.Name) and y.id == n for y in (st.targets if isinstance(st, ast.Assign) else [st.target])):
                        return lit(proj, m, st.value) or x
        if x.op == "item" and x.a[0].op == "dict":
            for k, v in x.a[0].a:
                if k is x.a[1]:
                    return v
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get" and x.a[0].a[0].op == "dict" and x.a[1]:
            for k, v in x.a[0].a[0].a:
                if k is x.a[1][0]:
                    return v
        if x.op == "cmp" and x.a[0] in ("==", "!=") and x.a[1].op == x.a[2].op == "const":
            return C((x.a[1] is x.a[2]) == (x.a[0] == "=="))
        if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[2].op == "dict":
            return C(any(k is x.a[1] for k, _ in x.a[2].a) == (x.a[0] == "in"))
        return x
    for _ in range(3):
        t = rewrite(t, f)
    return t


def lit(proj, mod, ex):
    if isinstance(ex, ast.Dict) and all(k is not None for k in ex.keys):
        ks = []
        for k, v in zip(ex.keys, ex.values):
            try:
                c = ast.literal_eval(k)
            except ValueError:
                return None
            d = mod.dotted(v)
            if d is None:
                return None
            kt = T("tuple", *[C(y) for y in c]) if isinstance(c, tuple) else C(c)
            ks.append((kt, G(proj.canon(d))))
        return T("dict", *ks)
    return None


def tofunc(proj, t):
    if t.op == "global":
        f = proj.lookup(t.a[0])
        f = f[0] if isinstance(f, (list, tuple)) and f else f
        return f if f is not None and hasattr(f, "node") and isinstance(f.node, ast.FunctionDef) else None
    if t.op == "func" or t.op == "closure":
        return next((x for x in t.a if hasattr(x, "node")), None)
    return None


def dispatch(proj, book):
    out = {}
    for kind, bld, dims in (("point", "build_point", (1,)), ("regbin", "build_regbin", (1, 2, 3))):
        r = run(proj, "Map", bld, opaque=opq("_validate_log_coords", "pdf_to_cdf"))
        t = r.heap.get((SELF, "interpolator"))
        if t is None:
            book.ob("dispatch", bld, None, "no interpolator is assigned", r.loc)
            continue
        # the number of axes
        lens = [x for x in walk(t) if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] == "builtins.len" and contains(
            x.a[1][0], lambda y: isc(y, "coordinate_lowers", "coordinate_uppers") or y.op == "attr" and y.a[1].startswith("coordinate_"))]
        lens += [x for x in walk(t) if x.op in ("attr", "item") and contains(x, lambda y: y.op == "attr" and y.a[1] in ("ndim", "shape", "size"))
                 and contains(x, lambda y: y is attr(SELF, "map") or isc(y, "map", "coordinate_lowers"))]
        for D in dims:
            for m in ("IDW", "LERP", "NN"):
                if kind == "regbin" and D == 1 and m == "NN":
                    continue
                v = table(proj, subst(t, {x: C(D) for x in lens}), m)
                f = tofunc(proj, v)
                tag = f"{kind} {D}D {m}"
                if f is None:
                    book.ob("dispatch", tag, None, f"served by {show(v)[:100]}", r.loc)
                    continue
                n = len(f.params) if not callable(f.params) else len(f.params())
                ok = n == (3 if kind == "point" else 4)
                book.ob("dispatch", tag, True if ok else None, f"served by {f.name}", r.loc)
                out[(kind, D, m)] = f
    return out


# -- evaluation at a generic query ---------------------------------------------

def symbolic(proj, f, D, kind):
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    r = run(proj, None, f.name) if f.cls is None else run(proj, f.cls.name, f.name)
    P = [par(f"$p{k}") for k in range(D)]
    val = par(ps[-1])
    ax = Axes(D, {}, val)
    ax.syms[par(ps[0])] = P[0] if D == 1 else P
    if len(ps) == 3:
        L, U = [par("$ref")], [NONE]
        ax.syms[par(ps[1])] = T("grid", L[0], U[0], ax.N[0])
    else:
        L, U = [par(f"$L{k}") for k in range(D)], [par(f"$U{k}") for k in range(D)]
        ax.syms[par(ps[1])], ax.syms[par(ps[2])] = L, U
    t = canon(fuse(expand_star(r.ret)))
    v = ax(t)
    if isinstance(v, V):
        if len(v.c) != 1:
            raise Undecided("the result is a vector")
        v = v.c[0]
    return r, canon(v), P, L, U, ax.N


def nodes_of(t):
    out = []
    for x in walk(t):
        if x.op == "node" and x not in out:
            out.append(x)
    return out


def interp(proj, book, f, D, nn, kind):
    tag = f.name
    try:
        r, t, P, L, U, N = symbolic(proj, f, D, kind)
    except Undecided as e:
        book.ob("weights", tag, None, f"not expressible component by component: {e}", f.loc)
        return
    H = [None if L[k] is par("$ref") else canon(binop("/", binop("-", U[k], L[k]), binop("-", N[k], C(1)))) for k in range(D)]
    nodes = nodes_of(t)
    if not nodes and t.op == "f" and t.a[0] == "interp":
        given = dict(t.a[2])
        a = tuple(t.a[1]) + tuple(given.pop(k) for k in ("x", "xp", "fp")[len(t.a[1]):] if k in given)
        t = T("f", "interp", a, tuple(given.items()))
        g = a[1] if len(a) > 1 else NONE
        ok = len(a) == 3 and a[0] is P[0] and isgrid(g, L, U, N) and a[2].op == "param"
        kw = [k for k, v in t.a[2] if not isc(v, None)]
        if nn:
            book.ob("nearest", tag, False, "the nearest-neighbour method interpolates linearly", r.loc)
            return
        if not ok and any(contains(x, lambda y: y.op == "param" and y.a[0] in [q.arg for q in f.node.args.args[:2]]) for x in a):
            ok = None   # arguments not expressed in components; decided at points
        book.ob("weights", tag, False if kw else ok, f"linear interpolation of {[show(x)[:30] for x in a]} {kw}", r.loc)
        return
    if not nodes:
        book.ob("weights", tag, None, f"no map value is gathered: {show(t)[:100]}", r.loc)
        return
    if nn:
        nearest(book, tag, r, t, nodes, P, L, U, N, H, D)
    elif D == 1 and any(contains(n, lambda y: y.op == "f" and y.a[0] == "searchsorted") for n in nodes):
        line(book, tag, r, t, nodes, P[0], L[0], U[0], N[0])
    else:
        cells(proj, book, tag, r, t, nodes, P, L, U, N, H, D)


def isgrid(g, L, U, N):
    return g.op == "grid" and g.a[0] is L[0] and g.a[1] is U[0] and equal(g.a[2], N[0]) is True


# -- integers -------------------------------------------------------------------

# -- regular grids --------------------------------------------------------------

def cells(proj, book, tag, r, t, nodes, P, L, U, N, H, D):
    # the bin sizes as symbols of their own
    hs = {}
    for x in walk(t):
        if x.op == "bin" and x.a[0] in ("/", "*") and x not in hs and not any(contains(x, lambda y: y is p) for p in P) and not contains(
                x, lambda y: y.op in ("node", "f")):
            for k in range(D):
                if equal(x, H[k]) is True:
                    hs[x] = par(f"$h{k}")
    if hs:
        t = replace_maximal(t, hs)
        H = [par(f"$h{k}") if par(f"$h{k}") in hs.values() else H[k] for k in range(D)]
        nodes = nodes_of(t)
    frac = [canon(binop("/", binop("-", P[k], L[k]), H[k])) for k in range(D)]
    # integer parts of the query
    B = [par(f"$B{k}") for k in range(D)]
    sub, clamped = {}, [False] * D
    for n in nodes:
        for k, i in enumerate(n.a):
            for x in walk(i):
                if x.op == "f" and x.a[0] in ("floor", "toint", "trunc") and any(contains(x, lambda y: y is p) for p in P) and not any(
                        y is not x and y.op == "f" and y.a[0] in ("floor", "toint", "trunc") for y in walk(x.a[1][0])
                        ) and x not in sub:
                    q = x.a[1][0]
                    c = q
                    if q.op == "f" and q.a[0] == "clip" and len(q.a[1]) == 3 and isc(q.a[1][1], 0, 0.0):
                        if equal(q.a[1][2], binop("-", N[k], C(1))) is True:
                            c = q.a[1][0]
                            clamped[k] = True
                    eq = [equal(c, frac[j]) for j in range(D)]
                    j = eq.index(True) if True in eq else None
                    if j is None:
                        foreign = contains(c, lambda y: y.op == "f") or undecidable(c) or None in eq
                        book.ob("cell", f"{tag}:{k}", None if foreign else False,
                                f"axis {k} of a node is located by {show(c)[:120]}", r.loc)
                        return
                    book.ob("cell", f"{tag}:{k}", j == k, f"axis {k} of a node is located on axis {j}", r.loc)
                    if j != k:
                        return
                    sub[x] = B[k]
    idx = [[subst(i, sub) for i in n.a] for n in nodes]
    offs = []
    for n, ix in zip(nodes, idx):
        off = []
        for k, i in enumerate(ix):
            o = set()
            bad = None
            if any(contains(i, lambda y: y is B[j]) for j in range(D) if j != k):
                mine = contains(i, lambda y: y is B[k])
                book.ob("nodes", f"{tag}:{k}", None if mine else False, f"the index along axis {k} is {show(i)[:100]}", r.loc)
                return
            for nn, other in ((2, 9), (3, 3), (6, 2)):
                for b in range(-3, nn + 3):
                    v = inum(i, {**{N[j]: other for j in range(D)}, B[k]: b, N[k]: nn})
                    if v is None:
                        book.ob("nodes", f"{tag}:{k}", None, f"index {show(i)[:100]}", r.loc)
                        return
                    c = clamp(int(v), nn)
                    if 0 <= b <= nn - 2:
                        o.add(c - b)
                        if c - b not in (0, 1):
                            bad = f"cell {b} of {nn - 1} uses node {c}"
                    elif b < 0 and c > 1:
                        bad = f"below the grid node {c} of {nn} is used"
                    elif b >= nn - 1 and c < nn - 2:
                        bad = f"at or above the upper edge node {c} of {nn} is used"
            if bad or len(o) != 1:
                book.ob("nodes", f"{tag}:{k}", False, bad or f"offsets {sorted(o)} from the cell", r.loc)
                return
            off.append(o.pop())
        offs.append(tuple(off))
    want = set(itertools.product((0, 1), repeat=D))
    ok = set(offs) == want
    book.ob("nodes", tag, ok, f"{len(set(offs))} of {len(want)} corners of the cell are used", r.loc)
    if not ok:
        return
    # symbols: lower corner c_k, node values
    cs = [par(f"$c{k}") for k in range(D)]
    t = subst(t, sub)
    low = {}
    for ix, off in zip(idx, offs):
        for k in range(D):
            if off[k] == 0:
                low.setdefault(k, set()).add(ix[k])
    vs = [par(f"$v{''.join(map(str, o))}") for o in offs]
    m = {}
    ns2 = [T("node", *ix) for ix in idx]
    byoff = {}
    for x, o in zip(ns2, offs):
        byoff.setdefault(o, par("$v" + "".join(map(str, o))))
        m[x] = byoff[o]
    t = subst(t, m)
    vs = list(byoff.values())
    os_ = list(byoff)
    for k in range(D):
        ls = low.get(k, set())
        t = subst(t, {x: cs[k] for x in ls})
        # upper indices written as their own term
        for ix, off in zip(idx, offs):
            if off[k] == 1:
                up = subst(ix[k], {x: cs[k] for x in ls})
                t = subst(t, {up: binop("+", cs[k], C(1))}) if not contains(up, lambda y: y is cs[k]) else t
        # the plain floor left in the weights
    ts = [par(f"$t{k}") for k in range(D)]
    fsym = frac
    if weights_linear(book, tag, r, t, vs, os_, cs, ts, P, L, U, N, H, frac, clamped, D, B):
        return
    weights_idw(proj, book, tag, r, t, vs, os_, cs, P, L, H, D)


def coefs(t, vs):
    """Coefficients of the node values; None if not linear or not homogeneous."""
    zero = {v: C(0) for v in vs}
    try:
        rest = canon(subst(t, zero))
        ws = [canon(subst(subst(t, {v: C(1)}), {x: C(0) for x in vs if x is not v})) for v in vs]
        acc = C(0)
        for w, v in zip(ws, vs):
            acc = binop("+", acc, binop("*", w, v))
        if equal(rest, C(0)) is not True or equal(acc, t) is not True:
            return None
        return ws
    except TooBig:
        return None


def unity(ws):
    acc = C(0)
    for w in ws:
        acc = binop("+", acc, w)
    try:
        return equal(acc, C(1))
    except TooBig:
        return None


def weights_linear(book, tag, r, t, vs, os_, cs, ts, P, L, U, N, H, frac, clamped, D, B):
    """Multilinear weights in the clipped fractions t_k; returns whether the rule applies."""
    free = set()

    def f(x):
        q, lo, hi = x, None, None
        if x.op == "f" and x.a[0] == "clip" and len(x.a[1]) == 3:
            q, lo, hi = x.a[1]
        elif x.op == "bin" and x.a[0] == "-":
            pass
        else:
            return x
        for k in range(D):
            d = canon(binop("-", frac[k], cs[k]))
            if x.op == "f" or contains(x, lambda y: y is cs[k]):
                if equal(q, d) is True or clamped[k] and equal(q, canon(binop("-", T("f", "clip", (frac[k], C(0), binop("-", N[k], C(1))), ()), cs[k]))) is True:
                    if x.op == "f":
                        if isc(lo, 0, 0.0) and isc(hi, 1, 1.0):
                            return ts[k]
                        return x
                    if equal(q, d) is not True:
                        return ts[k]
                    free.add(k)
                    return ts[k]
        return x
    # clipped fractions first, so that the unclipped remainder is recognised separately
    m = {}
    for x in walk(t):
        if x.op == "f" and x.a[0] == "clip":
            y = f(x)
            if y is not x:
                m[x] = y
    t1 = subst(t, m)
    if any(contains(t1, lambda y: y is p) for p in P):
        m2 = {}
        for x in walk(t1):
            if x.op == "bin" and x.a[0] == "-" and x not in m2:
                y = f(x)
                if y is not x:
                    m2[x] = y
        t2 = subst(t1, m2)
        if any(contains(t2, lambda y: y is p) for p in P):
            return False
        t1 = t2
    ws = coefs(t1, vs)
    if ws is None:
        book.ob("weights", tag, None, "not linear in the map values", r.loc)
        return True
    u = unity(ws)
    book.ob("unity", tag, u, "the weights do not add up to one" if u is False else "the weights add up to one", r.loc)
    okall = True
    for w, o in zip(ws, os_):
        want = C(1)
        for k in range(D):
            want = binop("*", want, ts[k] if o[k] else binop("-", C(1), ts[k]))
        ok = equal(w, want)
        if ok is False:
            # definite only if a corner is not reproduced
            ok = None
            for cor in itertools.product((0, 1), repeat=D):
                v = canon(subst(w, {ts[k]: C(cor[k]) for k in range(D)}))
                e = equal(v, C(1 if cor == o else 0))
                if e is False:
                    ok = False
        okall = okall and ok
        book.ob("weights", f"{tag}:{''.join(map(str, o))}", ok, f"node {o} has weight {show(w)[:120]}", r.loc)
    if free:
        book.ob("weights", tag + ":clamped", False, f"the fraction along axes {sorted(free)} is not limited to [0, 1]: queries outside are extrapolated", r.loc)
    return True


def positive(proj, x, r):
    """A positive constant regulariser?"""
    if x.op == "const":
        return x.a[0] > 0 if isinstance(x.a[0], (int, float)) else None
    if x.op == "global":
        mod, _, n = x.a[0].rpartition(".")
        m = next((q for q in proj.files.values() if q.name == mod), None)
        if m is not None:
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and any(isinstance(y, ast.Name) and y.id == n for y in st.targets):
                    if isinstance(st.value, ast.Attribute) and st.value.attr in ("tiny", "eps", "max", "smallest_normal"):
                        return True
                    try:
                        return ast.literal_eval(st.value) > 0
                    except (ValueError, TypeError):
                        return None
    if x.op == "attr" and x.a[1] in ("tiny", "eps", "smallest_normal"):
        return True
    return None


def unreg(proj, x, r):
    """(inner, regularised?) of a regularised quantity."""
    if x.op == "f" and x.a[0] == "clip" and len(x.a[1]) == 3:
        return x.a[1][0], positive(proj, x.a[1][1], r)
    if x.op == "f" and x.a[0] in ("maximum", "max") and len(x.a[1]) == 2:
        a, b = x.a[1]
        if a.op in ("const", "global", "attr"):
            a, b = b, a
        return a, positive(proj, b, r)
    if x.op == "bin" and x.a[0] == "+":
        for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
            if b.op in ("const", "global", "attr") and positive(proj, b, r) is not None:
                return a, positive(proj, b, r)
    return x, False


def squared(x):
    if x.op == "f" and x.a[0] == "sqrt":
        return x.a[1][0], 1
    if x.op == "bin" and x.a[0] == "**" and isc(x.a[2], 0.5):
        return x.a[1], 1
    return x, 2


def weights_idw(proj, book, tag, r, t, vs, os_, cs, P, L, H, D):
    S = []
    for o in os_:
        s = C(0)
        for k in range(D):
            d = binop("-", binop("+", L[k], binop("*", H[k], binop("+", cs[k], C(o[k])))), P[k])
            s = binop("+", s, binop("*", d, d))
        S.append(canon(s))
    ds = [par("$d" + "".join(map(str, o))) for o in os_]
    # distances: the maximal sub-terms that measure one
    cand = {}
    for x in walk(t):
        if any(contains(x, lambda y: y is p) for p in P) and not any(contains(x, lambda y: y is v) for v in vs):
            q, reg = unreg(proj, x, r)
            s, pw = squared(q)
            if reg is False and pw == 2 and q is x and not (x.op == "f" and x.a[0] == "sum"):
                continue
            if pw == 2:
                q2, reg2 = unreg(proj, s, r)
                s = q2
                reg = reg or reg2
            else:
                q2, reg2 = unreg(proj, s, r)
                s, reg = q2, reg or reg2
            cand[x] = (s, pw, reg)
    m, regs = {}, []
    unknown = None
    for x, (s, pw, reg) in cand.items():
        try:
            eq = [equal(s, S[i]) for i in range(len(S))]
        except TooBig:
            eq = []
        if True in eq:
            i = eq.index(True)
            m[x] = ds[i] if pw == 1 else binop("**", ds[i], C(2))
            regs.append((x, reg))
        else:
            unknown = (x, s)
    # an unregularised root inside a regularised distance is part of it
    t1 = replace_maximal(t, m)
    if any(contains(t1, lambda y: y is p) for p in P):
        rest = [s for x, (s, pw, reg) in cand.items() if x not in m and contains(t1, lambda y: y is x)
                and not any(contains(z, lambda y: y is x) and z is not x for z in cand)]
        ok = None
        if rest and all(not undecidable(s) and not contains(s, lambda y: y.op == "f") for s in rest):
            ok = False
        book.ob("weights", tag + ":distance", ok, "a weight uses a distance that is not the one to any node: "
                + (show(rest[0])[:140] if rest else show(t1)[:100]), r.loc)
        return
    used = [reg for x, reg in regs if maximal(t, m, x)]
    ws = coefs(t1, vs)
    if ws is None:
        book.ob("weights", tag, None, "not linear in the map values", r.loc)
        return
    u = unity(ws)
    book.ob("unity", tag, u, "the weights add up to one" if u else "the weights do not add up to one", r.loc)
    verdicts = []
    for pw in (1, 2):
        es = []
        for i in range(1, len(ws)):
            a = binop("*", ws[0], binop("**", ds[0], C(pw)))
            b = binop("*", ws[i], binop("**", ds[i], C(pw)))
            try:
                es.append(equal(a, b))
            except TooBig:
                es.append(None)
        verdicts.append(es)
    good = next((i for i, es in enumerate(verdicts) if all(e is True for e in es)), None)
    if good is not None:
        for o in os_:
            book.ob("weights", f"{tag}:{''.join(map(str, o))}", True, f"the weight of node {o} is proportional to distance**-{good + 1} to it", r.loc)
    else:
        for i in range(1, len(ws)):
            es = [v[i - 1] for v in verdicts]
            ok = True if True in es and False not in [verdicts[es.index(True)][i - 1]] else None if None in es else False
            # another function of the own distance is not decided here: definite only if a foreign distance enters
            book.ob("weights", f"{tag}:{''.join(map(str, os_[i]))}", False if ok is False and swapped(ws, ds) else ok,
                    f"the weight of node {os_[i]} is {show(ws[i])[:140]}", r.loc)
    ok = True if all(reg is True for reg in used) else False if any(reg is False for reg in used) and not contains(
        t, lambda y: y.op == "f" and y.a[0] in ("where", "nan_to_num") or y.op == "phi") else None
    book.ob("regular", tag, ok, "distances are bounded away from zero" if ok else "a distance of zero is divided by", r.loc)


def swapped(ws, ds):
    """At node i (d_i -> 0, the others equal) the weight of node i is not the only one left."""
    for i in range(len(ws)):
        for j, w in enumerate(ws):
            v = canon(subst(w, {d: C(1) for d in ds if d is not ds[i]}))
            try:
                n, d = ratio(v)
            except TooBig:
                return False
            at0 = lambda p: sum((c for k, c in p.d.items() if not k), 0)
            a, b = at0(n), at0(d)
            if b == 0:
                n, d = low(n), low(d)
                if n is None or d is None:
                    return False
                a, b = n, d
            if b and a != (b if i == j else 0):
                return True
    return False


def low(p):
    """Coefficient of the lowest power of a univariate polynomial."""
    ks = {}
    for k, c in p.d.items():
        ks[sum(e for _, e in k)] = ks.get(sum(e for _, e in k), 0) + c
    ks = {e: c for e, c in ks.items() if c}
    return ks.get(min(ks)) if ks else None


def replace_maximal(t, m):
    """Substitute, outermost occurrences first."""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        from ..terms import mapc, rebuild
        na = tuple(mapc(y, go) for y in x.a)
        memo[x] = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        return memo[x]
    return go(t)


def maximal(t, m, x):
    """Does x occur in t outside every other replaced term?"""
    mm = {k: par("$") for k in m if k is not x and not contains(x, lambda y: y is k)}
    return contains(replace_maximal(t, mm), lambda y: y is x)


# -- sorted points on a line ----------------------------------------------------

def line(book, tag, r, t, nodes, p, L, U, N):
    ss = []
    for n in nodes:
        for x in walk(n):
            if x.op == "f" and x.a[0] == "searchsorted" and x not in ss:
                ss.append(x)
    g0 = T("grid", L, U, N)
    for s in ss:
        ok = s.a[1][1] is p and s.a[1][0].op == "grid" and s.a[1][0].a[0] is L and s.a[1][0].a[1] is U and equal(s.a[1][0].a[2], N) is True
        book.ob("cell", tag, True if ok else False if s.a[1][0].op == "grid" else None, f"the cell is {show(s)[:100]}", r.loc)
        if not ok:
            return
    B = par("$B")
    t = subst(t, {s: B for s in ss})
    # sides differ only for a query on a node, where both neighbours' cells contain it
    idx = [subst(n.a[0], {s: B for s in ss}) for n in nodes]
    offs = []
    for i in idx:
        o, bad = set(), None
        for n in (2, 3, 5):
            for b in range(0, n + 1):
                v = inum(i, {B: b, N: n})
                if v is None:
                    book.ob("nodes", tag, None, f"index {show(i)[:100]}", r.loc)
                    return
                c = clamp(int(v), n)
                if 1 <= b <= n - 1:
                    o.add(c - b)
                    if c - b not in (-1, 0):
                        bad = f"between nodes {b - 1} and {b} node {c} is used"
                elif b == 0 and c > 1 or b == n and c < n - 2:
                    bad = f"{'below' if b == 0 else 'above'} the nodes node {c} of {n} is used"
        if bad or len(o) != 1:
            book.ob("nodes", tag, False, bad or f"offsets {sorted(o)}", r.loc)
            return
        offs.append(o.pop())
    book.ob("nodes", tag, set(offs) == {-1, 0}, f"neighbours used: {sorted(set(offs))}", r.loc)
    if set(offs) != {-1, 0}:
        return
    pos = {-1: par("$a"), 0: par("$b")}
    val = {-1: par("$va"), 0: par("$vb")}
    m = {}
    for i, o in zip(idx, offs):
        m[T("node", i)] = val[o]
        m[T("gridpos", g0, i)] = pos[o]
    gp = [x for x in walk(t) if x.op == "gridpos"]
    for x in gp:
        if x not in m:
            o = set()
            for n in (2, 3, 5):
                for b in range(1, n):
                    v = inum(x.a[1], {B: b, N: n})
                    o.add(None if v is None else clamp(int(v), n) - b)
            if len(o) == 1 and next(iter(o)) in pos:
                m[x] = pos[o.pop()]
            elif None not in o:
                book.ob("weights", tag + ":distance", False, f"a distance to another node is used, {sorted(o)} from the right one", r.loc)
                return
    outer(book, tag, r, t, p, B, N, g0)
    t = subst(t, m)
    a, b = pos[-1], pos[0]
    va, vb = val[-1], val[0]
    # inside: a < x <= b, distances have a known sign
    def signed(x):
        if x.op == "f" and x.a[0] == "abs":
            q = x.a[1][0]
            for w, s in ((binop("-", p, a), 1), (binop("-", p, b), -1)):
                e = canon(w)
                if equal(q, e) is True:
                    return canon(binop("*", C(s), e))
                if equal(q, canon(binop("*", C(-1), e))) is True:
                    return canon(binop("*", C(s), e))
        return x
    inside = rewrite(canon(t), signed)
    conds_ = [x for x in walk(inside) if x.op == "cmp"]
    dec = {}
    for x in conds_:
        try:
            d = canon(binop("-", x.a[2], x.a[1]))
            s = 1 if equal(d, canon(binop("-", b, a))) is True else -1 if equal(d, canon(binop("-", a, b))) is True else 0
        except TooBig:
            s = 0
        if s and x.a[0] in ("<", "<=", "!="):
            dec[x] = C(s > 0 or x.a[0] == "!=")
        elif s and x.a[0] == "==":
            dec[x] = C(False)
    inside = pick(subst(inside, dec))
    if contains(inside, lambda y: y.op in ("phi", "cmp") or y.op == "f"):
        book.ob("weights", tag, None, f"between the nodes the value is {show(inside)[:140]}", r.loc)
        return
    ws = coefs(inside, [va, vb])
    if ws is None:
        book.ob("weights", tag, None, "not linear in the map values", r.loc)
        return
    u = unity(ws)
    book.ob("unity", tag, u, "the weights add up to one" if u else "the weights do not add up to one", r.loc)
    den = binop("-", b, a)
    for w, want, n in ((ws[0], binop("/", binop("-", b, p), den), "left"), (ws[1], binop("/", binop("-", p, a), den), "right")):
        ok = equal(w, canon(want))
        if ok is False:
            at = [(equal(canon(subst(w, {p: q})), C(int((q is a) == (n == "left"))))) for q in (a, b)]
            ok = False if False in at else None
        book.ob("weights", f"{tag}:{n}", ok, f"the weight of the {n} neighbour is {show(w)[:120]}", r.loc)
    # a query on the first or outside the last node: both neighbours coincide with it
    same_ = canon(subst(t, {b: a, p: a}))
    same_ = fold0(same_)
    zero = [x for x in walk(same_) if x.op == "bin" and x.a[0] == "/" and zero_(x.a[2])]
    ok = False if zero else True if not contains(same_, lambda y: y.op == "unknown") else None
    book.ob("regular", tag, ok, "a query equal to an edge node divides zero by zero" if zero else f"a query on an edge node gives {show(same_)[:60]}", r.loc)


def outer(book, tag, r, t, p, B, N, g0):
    """Queries outside the nodes: with e the edge node, y > 0 the width of the edge cell and x > 0 the distance to the
    edge node, every weight must be a quotient of polynomials in x and y without negative coefficients."""
    x, y, e = par("$x"), par("$y"), par("$e")
    for side, s in (("below", -1), ("above", 1)):
        q = binop("+", e, binop("*", C(s), x))
        where = {0: e, 1: binop("-", e, binop("*", C(s), y))}
        m, names = {}, {}
        for z in walk(t):
            if z.op not in ("node", "gridpos"):
                continue
            i = z.a[0] if z.op == "node" else z.a[1]
            o = set()
            for n in (3, 4, 6):
                v = inum(i, {B: 0 if s < 0 else n, N: n})
                o.add(None if v is None else clamp(int(v), n) if s < 0 else n - 1 - clamp(int(v), n))
            k = o.pop() if len(o) == 1 else None
            if k not in where or z.op == "gridpos" and z.a[0] is not g0:
                book.ob("weights", f"{tag}:{side}", None, f"which node {show(z)[:80]} is outside the grid", r.loc)
                return
            m[z] = where[k] if z.op == "gridpos" else names.setdefault(k, par(f"$v{k}"))
        w = canon(subst(subst(t, m), {p: q}))

        def sgn(z):
            n, d = ratio(canon(z))
            ss = []
            for poly in (n, d):
                cs = list(poly.d.values())
                if any(a not in (x, y) for mono in poly.d for a, _ in mono):
                    return None
                ss.append(0 if not cs else 1 if min(cs) > 0 else -1 if max(cs) < 0 else None)
            return None if None in ss or not ss[1] else ss[0] * ss[1]

        def signed(z):
            if z.op == "f" and z.a[0] == "abs":
                k = sgn(z.a[1][0])
                return z if k is None else canon(binop("*", C(k), z.a[1][0]))
            if z.op == "cmp" and z.a[0] in ("<", "<=", "==", "!="):
                k = sgn(binop("-", z.a[2], z.a[1]))
                return z if k is None else C({"<": k > 0, "<=": k >= 0, "==": k == 0, "!=": k != 0}[z.a[0]])
            return z
        try:
            w = pick(canon(rewrite(w, signed)))
            vs = [names[k] for k in sorted(names)]
            ws = coefs(w, vs) if not contains(w, lambda z: z.op in ("phi", "cmp") or z.op == "f") else None
            ss = [sgn(c) for c in ws] if ws is not None else [None]
        except TooBig:
            ss = [None]
        if None in ss and ws is not None:
            at = {x: C(7), y: C(1), e: C(0)}
            vals = [canon(subst(c, at)) for c in ws]
            for c, v in zip(ws, vals):
                nd = ratio(v)
                k = nd[0].d.get(frozenset(), 0) * nd[1].d.get(frozenset(), 0)
                if k < 0:
                    ss = [-1]
        ok = False if -1 in ss else True if ss and None not in ss else None
        if ok and unity(ws) is not True:
            ok = False if unity(ws) is False else None
        book.ob("weights", f"{tag}:{side}", ok, (f"{side} the nodes the weights are {', '.join(show(c)[:70] for c in ws)}" if ws is not None else f"{side} the nodes the value is {show(w)[:100]}")
                + ("" if ok is not False else ": a weight is negative, so results leave the range of the map values"), r.loc)


def zero_(x):
    try:
        return equal(x, C(0)) is True
    except TooBig:
        return False


def pick(t):
    def f(x):
        if x.op == "f" and x.a[0] == "where" and len(x.a[1]) == 3 and isc(x.a[1][0], True, False):
            return x.a[1][1] if x.a[1][0].a[0] else x.a[1][2]
        return x
    return canon(rewrite(t, f))


def fold0(t):
    def f(x):
        if x.op == "f" and x.a[0] == "abs" and zero_(x.a[1][0]):
            return C(0)
        if x.op == "cmp" and x.a[0] in ("<", "<=", "==", "!="):
            d = canon(binop("-", x.a[2], x.a[1]))
            if zero_(d):
                return C(x.a[0] in ("<=", "=="))
        if x.op == "f" and x.a[0] == "where" and isc(x.a[1][0], True, False):
            return x.a[1][1] if x.a[1][0].a[0] else x.a[1][2]
        return x
    for _ in range(3):
        t = canon(rewrite(t, f))
    return t


# -- nearest neighbours ---------------------------------------------------------

def nearest(book, tag, r, t, nodes, P, L, U, N, H, D):
    if t.op != "node":
        ws = coefs(subst(t, {n: par(f"$n{i}") for i, n in enumerate(nodes)}), [par(f"$n{i}") for i in range(len(nodes))])
        book.ob("nearest", tag, False if ws is not None and len(nodes) > 1 else None, f"the value is {show(t)[:120]}", r.loc)
        return
    for k, i in enumerate(t.a):
        others = [j for j in range(D) if contains(i, lambda y: y is P[j])]
        if others and others != [k]:
            book.ob("nearest", f"{tag}:{k}", False, f"index {k} is searched along axis {others}", r.loc)
            continue
        q = i
        while q.op == "f" and q.a[0] in ("toint", "array"):
            q = q.a[1][0]
        if q.op == "f" and q.a[0] == "argmin":
            d = q.a[1][0]
            gs = [x for x in walk(d) if x.op == "grid"]
            if len(gs) != 1:
                book.ob("nearest", f"{tag}:{k}", None, f"{show(d)[:100]}", r.loc)
                continue
            g = gs[0]
            if L[k] is par("$ref"):
                gok = g.a[0] is L[k]
            else:
                e = [equal(g.a[0], L[k]), equal(g.a[1], U[k]), equal(g.a[2], N[k])]
                gok = True if e == [True] * 3 else None if None in e else False
            book.ob("nearest", f"{tag}:{k}:nodes", gok, f"the nodes of axis {k} are {show(g)[:80]}", r.loc)
            x = par("$g")
            d2 = subst(d, {g: x})
            z = canon(binop("-", P[k], x))
            oks = [equal(d2, w) for w in (canon(T("f", "abs", (z,), ())), canon(T("f", "abs", (binop("-", x, P[k]),), ())),
                                          canon(binop("*", z, z)))]
            book.ob("nearest", f"{tag}:{k}", True if True in oks else None if undecidable(d2) or not distance_like(d2) else False,
                    f"minimises {show(d2)[:80]}", r.loc)
            continue
        if q.op == "f" and q.a[0] == "argmax":
            book.ob("nearest", f"{tag}:{k}", False if not contains(q, lambda y: y.op == "un" or y.op == "const") else None, f"{show(q)[:80]}", r.loc)
            continue
        # rounding of the fractional index
        if L[k] is par("$ref"):
            book.ob("nearest", f"{tag}:{k}", None, f"index {show(q)[:100]}", r.loc)
            continue
        frac = canon(binop("/", binop("-", P[k], L[k]), H[k]))
        B = par("$B")
        m, other = {}, False
        for x in walk(q):
            if x.op == "f" and x.a[0] in ("round", "rint") and contains(x, lambda y: y is P[k]):
                if equal(x.a[1][0], frac) is True:
                    m[x] = B
                else:
                    other = True
            if x.op == "f" and x.a[0] in ("floor", "toint", "trunc") and contains(x, lambda y: y is P[k]) and not contains(
                    x.a[1][0], lambda y: y.op == "f" and y.a[0] in ("round", "rint", "floor")):
                if equal(x.a[1][0], canon(binop("+", frac, C(0.5)))) is True:
                    m[x] = B
                elif equal(x.a[1][0], frac) is True:
                    book.ob("nearest", f"{tag}:{k}", False, "the lower node is taken, not the nearest", r.loc)
                    return
        q = subst(q, m)
        vs = [(b, n, inum(q, {B: b, N[k]: n})) for n in (2, 3, 5) for b in range(-3, n + 3)]
        if not m or any(v is None for _, _, v in vs):
            book.ob("nearest", f"{tag}:{k}", None, f"index {show(q)[:100]}", r.loc)
            continue
        bad = [(b, n, v) for b, n, v in vs if clamp(int(v), n) != min(max(b, 0), n - 1)]
        book.ob("nearest", f"{tag}:{k}", not bad, f"nearest node {bad[0][:2]} gives {bad[0][2]}" if bad else "rounded to the nearest node", r.loc)


def distance_like(d):
    return all(x.op in ("f", "bin", "param", "const", "un") for x in walk(d))


# -- whatever the form: weights at sample points ---------------------------------

def points(proj, book, f, D, m, kind):
    tag = f"{f.name} {D}D {m}"
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    r = run(proj, None, f.name) if f.cls is None else run(proj, f.cls.name, f.name)
    if r.ret is None:
        book.ob("points", tag, None, "not evaluated", r.loc)
        return
    rnd = random.Random(17 + D)
    try:
        n = 0
        for grid in range(4 if D < 3 else 2):
            if len(ps) == 3:
                x, ref = rnd.uniform(-2, 2), []
                for _ in range(rnd.choice((2, 3, 6))):
                    ref.append(x)
                    x += rnd.uniform(0.2, 2)
                axes = [ref]
                env0 = {par(ps[1]): arr(ref)}
            else:
                axes = []
                for k in range(D):
                    lo, step, cnt = rnd.uniform(-3, 3), rnd.uniform(0.3, 2), (2, 4, 3, 5)[(grid + k) % 4]
                    axes.append([lo + step * j for j in range(cnt)])
                env0 = {par(ps[1]): arr([a[0] for a in axes]), par(ps[2]): arr([a[-1] for a in axes])}
                if D == 1:
                    # the caller hands over bounds of one axis
                    env0 = {par(ps[1]): arr([axes[0][0]]), par(ps[2]): arr([axes[0][-1]])}
            qs = []
            for j in range(14):
                q = []
                for k in range(D):
                    a = axes[k]
                    u = rnd.random()
                    q.append(rnd.choice(a) if j < 4 else a[0] + (a[-1] - a[0]) * u if j < 10 else a[0] - 0.1 - 3 * u if j % 2 else a[-1] + 0.1 + 3 * u)
                qs.append(q)
            pos = arr([q[0] for q in qs]) if D == 1 else arr(qs)
            shape = [len(a) for a in axes]
            rows = {}
            for node in itertools.product(*[range(k) for k in shape]):
                d = [1.0 if i == node else 0.0 for i in itertools.product(*[range(k) for k in shape])]
                v = Tensor({**env0, par(ps[0]): pos, par(ps[-1]): Arr(shape, d)}, jax=True, proj=proj).val(r.ret)
                v = arr(v)
                if v.shape != (len(qs),):
                    book.ob("points", tag, False, f"{len(qs)} queries give an array of shape {v.shape}", r.loc)
                    return
                rows[node] = v.d
            for i, q in enumerate(qs):
                n += 1
                why = badweights({k: v[i] for k, v in rows.items()}, q, axes, m)
                if why:
                    book.ob("points", tag, False, f"{why}, at {[round(y, 3) for y in q]} between nodes {[[round(y, 3) for y in a] for a in axes]}", r.loc)
                    return
    except Unknown as e:
        book.ob("points", tag, None, f"not evaluated: {e}", r.loc)
        return
    book.ob("points", tag, True, f"weights of all nodes at {n} queries", r.loc)


def knn_points(proj, book):
    """The same for the k nearest of scattered nodes."""
    try:
        f = proj.func("map_interpolator_knn")
    except AnalysisBroken:
        return
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    r = run(proj, None, f.name)
    if r.ret is None or len(ps) < 3:
        book.ob("points", "knn", None, "not evaluated", r.loc)
        return
    rnd = random.Random(23)
    n = 0
    try:
        for D, k in ((1, 3), (2, 3), (3, 2), (2, 1)):
            nodes = [[rnd.uniform(-3, 3) for _ in range(D)] for _ in range(7)]
            qs = [[rnd.uniform(-3, 3) for _ in range(D)] for _ in range(5)] + nodes[:2]
            env = {par(ps[0]): arr(qs), par(ps[1]): arr(nodes)}
            if len(ps) > 3:
                env[par(ps[3])] = k
            elif k != 3:
                continue
            rows = [arr(Tensor({**env, par(ps[2]): arr([float(i == j) for i in range(7)])}, jax=True, proj=proj).val(r.ret)) for j in range(7)]
            for i, q in enumerate(qs):
                n += 1
                w = [v.d[i] for v in rows]
                d = [sum((a - b) ** 2 for a, b in zip(q, p)) for p in nodes]
                o = sorted(range(7), key=d.__getitem__)
                why = None
                if any(x != x for x in w) or abs(sum(w) - 1) > 1e-4:
                    why = f"the weights add up to {sum(w):.4g}"
                elif min(w) < -1e-6:
                    why = f"a weight is {min(w):.4g}"
                elif any(w[j] > 1e-6 for j in o[k:]):
                    why = f"the value of a node is used that is not among the {k} nearest"
                elif any(w[a] < w[b] - 1e-6 for a, b in zip(o, o[1:])):
                    why = "a farther node weighs more than a nearer one"
                elif d[o[0]] == 0 and w[o[0]] < 0.99:
                    why = f"on a node its weight is {w[o[0]]:.4g}"
                if why:
                    book.ob("points", "knn", False, f"{why} ({D} dimensions, {k} neighbours)", r.loc)
                    return
    except Unknown as e:
        book.ob("points", "knn", None, f"not evaluated: {e}", r.loc)
        return
    book.ob("points", "knn", True, f"weights of all nodes at {n} queries", r.loc)


def badweights(w, q, axes, m):
    tol = 1e-4
    if any(v != v for v in w.values()):
        return "the result is not a number"
    if abs(sum(w.values()) - 1) > tol:
        return f"the weights add up to {sum(w.values()):.4g}"
    if min(w.values()) < -tol:
        return f"a weight is {min(w.values()):.4g}"
    c = [min(max(x, a[0]), a[-1]) for x, a in zip(q, axes)]
    near = [min(range(len(a)), key=lambda j: abs(a[j] - x)) for x, a in zip(c, axes)]
    at = [abs(a[j] - x) < 1e-9 for x, a, j in zip(c, axes, near)]
    if m == "NN":
        tie = any(sorted(abs(y - x) for y in a)[1] - sorted(abs(y - x) for y in a)[0] < 1e-6 for x, a in zip(c, axes))
        on = max(w, key=w.get)
        return None if tie or on == tuple(near) and w[on] > 1 - tol else f"node {on} is used, the nearest is {tuple(near)}"
    # the nodes of the cell
    cell = []
    for x, a, j, e in zip(c, axes, near, at):
        hi = next((k for k in range(1, len(a)) if x <= a[k]), len(a) - 1)
        cell.append({k for k in range(j - 1, j + 2) if 0 <= k < len(a)} if e else {hi - 1, hi})
    out = [k for k, v in w.items() if v > tol and any(i not in s for i, s in zip(k, cell))]
    if out:
        return f"node {out[0]} outside the cell has weight {w[out[0]]:.4g}"
    inside = all(a[0] <= x <= a[-1] for x, a in zip(q, axes))
    if all(at) and inside and abs(w[tuple(near)] - 1) > 1e-3:
        return f"on node {tuple(near)} its weight is {w[tuple(near)]:.4g}"
    if m == "LERP" and inside or m == "LERP" and len(axes) == 1:
        for k, v in w.items():
            e = 1.0
            for x, a, j in zip(c, axes, k):
                s = a[1] - a[0] if len(axes) > 1 else (a[j] - a[j - 1] if j and x < a[j] else a[min(j + 1, len(a) - 1)] - a[j] or 1.0)
                e *= max(0.0, 1 - abs(x - a[j]) / s)
            if abs(e - v) > tol:
                return f"node {k} has weight {v:.4g}, not {e:.4g}"
        return None
    if inside and not any(at):
        # nearer nodes weigh more, in coordinates or in units of the cell
        ks = [k for k in w if all(i in s for i, s in zip(k, cell))]
        for unit in ([1.0] * len(axes), [a[1] - a[0] for a in axes]):
            d = {k: sum(((x - a[j]) / u) ** 2 for x, a, j, u in zip(q, axes, k, unit)) for k in ks}
            o = sorted(ks, key=d.get)
            if all(w[x] >= w[y] - tol for x, y in zip(o, o[1:])):
                return None
        return "a farther node weighs more than a nearer one"
    return None


# -- k nearest neighbours -------------------------------------------------------

def knn(proj, book):
    try:
        f = proj.func("map_interpolator_knn")
    except AnalysisBroken:
        return
    r = run(proj, None, "map_interpolator_knn")
    t = canon(fuse(expand_star(r.ret)))
    tk = [x for x in walk(t) if x.op == "f" and x.a[0] == "top_k"]
    tk = list(dict.fromkeys(tk))
    if len(tk) != 1:
        book.ob("weights", "knn", None, f"{len(tk)} selections of neighbours", r.loc)
        return
    tk = tk[0]
    tks = [x for x in walk(t) if x.op == "item" and x.a[0] is tk]
    neg_d, ind = item(tk, C(0)), item(tk, C(1))
    V_ = par("$val")
    tv = {}
    for x in walk(t):
        if x.op == "f" and x.a[0] == "take" and len(x.a[1]) >= 2 and x.a[1][1] is ind or x.op == "item" and x.a[1] is ind:
            tv[x] = V_
    t1 = subst(t, tv)
    if t1.op != "bin" or t1.a[0] != "/" or not tv:
        book.ob("weights", "knn", None, f"{show(t1)[:120]}", r.loc)
        return
    num, den = t1.a[1], t1.a[2]
    if not (num.op == den.op == "f" and num.a[0] == den.a[0] == "sum"):
        book.ob("weights", "knn", None, f"{show(t1)[:120]}", r.loc)
        return
    w = den.a[1][0]
    ok = equal(num.a[1][0], canon(binop("*", w, V_)))
    book.ob("weights", "knn", ok, "numerator and denominator use the same weights" if ok else "the weights of numerator and denominator differ", r.loc)
    ax = num.a[1][1:] == den.a[1][1:] and num.a[2] == den.a[2]
    book.ob("unity", "knn", ax, "summed over the same axis", r.loc)
    # the selected are the nearest: largest of minus the squared distances
    a = tk.a[1][0]
    un = contains(a, lambda y: y.op == "f" and y.a[0] == "sum")
    dist = par("$D")
    sums = [x for x in walk(a) if x.op == "f" and x.a[0] in ("sum", "norm", "sqrt")]
    if sums:
        e = equal(subst(a, {sums[0]: dist}), canon(binop("*", C(-1), dist)))
        book.ob("nearest", "knn", e, f"the k largest of {show(subst(a, {sums[0]: dist}))[:60]} are selected", r.loc)
