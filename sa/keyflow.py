"""PRNG key linearity on the value-flow graph."""

from .terms import fresh, T, C, G, NONE, Term, item, walk, neg, conj, FALSE, isc, show, contains, children
from .vfg import Eval

JR = "jax.random."
MAKERS = {"jax.random.PRNGKey", "jax.random.key"}
SPLITS = {"jax.random.split"}
DERIVE = {"jax.random.fold_in", "jax.random.clone", "jax.random.wrap_key_data"}
NEUTRAL_FN = {"builtins.len", "builtins.isinstance", "builtins.print", "builtins.type", "builtins.tuple",
              "builtins.list", "builtins.getattr", "builtins.hasattr", "builtins.id", "builtins.repr", "builtins.str",
              "jax.numpy.shape", "jax.numpy.size", "numpy.shape", "numpy.size", "jax.numpy.ndim",
              "jax.random.key_data", "jax.block_until_ready", "jax.device_put", "jax.numpy.asarray",
              "numpy.asarray", "jax.numpy.array", "numpy.array"}
VMAP = {"jax.vmap", "jax.pmap"}


def is_new_key(t):
    """get_key / PRNGKey results."""
    return t.op == "call" and t.a[0].op == "global" and (
        t.a[0].a[0] in MAKERS or t.a[0].a[0].split(".")[-1] == "get_key")


class KeyFlow:
    def __init__(self, proj, func, cls=None, opaque=None, keyparams=("key",)):
        self.proj, self.func = proj, func
        ev = self.ev = Eval(proj, opaque=opaque or (lambda f: False))
        ev.hook = self.hook
        self.keyret = set()  # opaque calls whose item 0 is the updated key
        self.inputs = [T("param", p) for p in func.params if p in keyparams]
        self.res = ev.run(func, cls=cls)
        self._isk = {}

    # -- higher order jax primitives ------------------------------------------
    def hook(self, ev, fn, args, kw, fr, ex):
        if fn.op == "global":
            d = fn.a[0]
            k = dict(kw)
            if d in ("jax.lax.while_loop",):
                c = args[0] if args else k.get("cond_fun")
                b = args[1] if len(args) > 1 else k.get("body_fun")
                i = args[2] if len(args) > 2 else k.get("init_val")
                if b is not None and i is not None:
                    return self.wloop(ev, c, b, i, fr, ex)
            if d == "jax.lax.fori_loop" and len(args) == 4:
                return self.wloop(ev, None, args[2], args[3], fr, ex, idx=True)
            if d == "jax.lax.cond" and len(args) >= 3 and _callable(args[1]) and _callable(args[2]):
                return self.branch(ev, args[0], args[1], list(args[3:]), args[2], list(args[3:]), fr, ex)
            if d == "jax.lax.cond" and len(args) == 5:
                return self.branch(ev, args[0], args[2], [args[1]], args[4], [args[3]], fr, ex)
            if d == "jax.lax.map" and len(args) == 2 and _callable(args[0]):
                return self.mapped(ev, args[0], [args[1]], fr, ex)
            if d == "jax.lax.scan" and len(args) >= 3 and _callable(args[0]):
                return self.scan(ev, args, fr, ex)
            if d in VMAP and args and _callable(args[0]):
                return T("vmapped", args[0])
            if d in ("jax.jit", "jax.checkpoint", "jax.remat") and args:
                return args[0]
            if d in MAKERS and (not args or args[0].op != "const"):
                # two clock keys are two keys, even if value numbering cannot tell them apart
                t = T("call", fn, tuple(args) + (T("site", fresh()),), tuple(kw))
                ev.emit("call", fr, ex, fn=fn, args=tuple(args), kwargs=tuple(kw), term=t)
                return t
        if fn.op == "vmapped":
            return self.mapped(ev, fn.a[0], list(args), fr, ex)
        return None

    def wloop(self, ev, c, b, init, fr, ex, idx=False):
        from .terms import fresh
        lid = fresh()
        n = len(init.a) if init.op in ("tuple", "list") else None
        if n is not None:
            lvs = [T("loopvar", lid, str(i)) for i in range(n)]
            st = T(init.op, *lvs)
        else:
            lvs = [T("loopvar", lid, "state")]
            st = lvs[0]
        l0 = ev.loops
        ev.loops = l0 + ((lid, T("while", lid)),)
        if c is not None:
            ev.apply(c, [st], [], fr, ex)
        new = ev.apply(b, ([T("idx", lid, T("while", lid))] if idx else []) + [st], [], fr, ex)
        ev.loops = l0
        inits = list(init.a) if n is not None else [init]
        outs = []
        for i, lv in enumerate(lvs):
            nw = item(new, C(i)) if n is not None else new
            ev.loopinfo[lv] = (inits[i], nw, lid)
            outs.append(T("loopout", lid, lv.a[1], inits[i], nw))
        return T(init.op, *outs) if n is not None else outs[0]

    def branch(self, ev, c, f, fa, g, ga, fr, ex):
        from .terms import phi
        g0 = ev.guard
        ev.guard = g0 + (c,)
        a = ev.apply(f, fa, [], fr, ex)
        ev.guard = g0 + (neg(c),)
        b = ev.apply(g, ga, [], fr, ex)
        ev.guard = g0
        return phi(c, a, b)

    def mapped(self, ev, f, args, fr, ex):
        from .terms import fresh
        lid = fresh()
        l0 = ev.loops
        ev.loops = l0 + ((lid, T("vmap", *args)),)

        def el(a):
            if a.op in ("tuple", "list"):
                return T(a.op, *[el(x) for x in a.a])
            return T("elem", lid, a)

        r = ev.apply(f, [el(a) for a in args], [], fr, ex)
        ev.loops = l0
        return T("comp", "list", r, lid, T("vmap", *args), ())

    def scan(self, ev, args, fr, ex):
        from .terms import fresh
        f, init, xs = args[:3]
        lid = fresh()
        l0 = ev.loops
        ev.loops = l0 + ((lid, T("while", lid)),)
        if init.op in ("tuple", "list"):
            lvs = [T("loopvar", lid, str(i)) for i in range(len(init.a))]
            st = T(init.op, *lvs)
        else:
            lvs = [T("loopvar", lid, "c")]
            st = lvs[0]
        r = ev.apply(f, [st, T("elem", lid, xs)], [], fr, ex)
        ev.loops = l0
        carry = item(r, C(0))
        inits = list(init.a) if init.op in ("tuple", "list") else [init]
        outs = []
        for i, lv in enumerate(lvs):
            nw = item(carry, C(i)) if init.op in ("tuple", "list") else carry
            ev.loopinfo[lv] = (inits[i], nw, lid)
            outs.append(T("loopout", lid, lv.a[1], inits[i], nw))
        co = T(init.op, *outs) if init.op in ("tuple", "list") else outs[0]
        return T("tuple", co, T("comp", "list", item(r, C(1)), lid, T("while", lid), ()))

    # -- classification ----------------------------------------------------------
    def is_key(self, t, depth=0):
        r = self._isk.get(t)
        if r is None:
            self._isk[t] = False
            r = self._isk[t] = self._is_key(t)
        return r

    def _is_key(self, t):
        if t in self.inputs or is_new_key(t):
            return True
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in SPLITS | DERIVE:
            return True
        if t.op in ("item", "slice_of", "elem", "starred"):
            b = t.a[1] if t.op == "elem" else t.a[0]
            if b.op == "call" and b.a[0].op == "global" and b.a[0].a[0] in SPLITS:
                return True
            if t.op == "item" and isc(t.a[1], 0) and b.op == "call" and self.takes_key(b):
                return True
            if t.op in ("elem", "slice_of", "item") and b.op != "call" and self.is_key(b):
                return True
            return False
        if t.op == "phi":
            return self.is_key(t.a[1]) or self.is_key(t.a[2])
        if t.op == "loopvar":
            i = self.ev.loopinfo.get(t)
            return i is not None and self.is_key(i[0])
        if t.op == "loopout":
            return self.is_key(t.a[2])
        if t.op == "last":
            return self.is_key(t.a[1])
        return False

    def takes_key(self, call):
        """A call that received a key and is not a jax.random draw."""
        fn, args, kw = call.a
        if fn.op == "global" and fn.a[0].startswith("jax."):
            return False
        return any(self.is_key(x) for x in args) or any(self.is_key(v) for _, v in kw)

    def root(self, t, seen=None):
        """Set of origins of a key: 'input:<name>', 'new', 'const', 'unknown'."""
        seen = seen or set()
        if t in seen:
            return set()
        seen = seen | {t}
        if t in self.inputs:
            return {"input"}
        if is_new_key(t):
            a = t.a[1]
            if t.a[0].a[0] in MAKERS and a and a[0].op == "const":
                return {"const"}
            return {"new"}
        if t.op == "call":
            out, hit = set(), False
            for x in list(t.a[1]) + [v for _, v in t.a[2]]:
                if self.is_key(x):
                    out |= self.root(x, seen)
                    hit = True
            return out if hit else {"unknown"}
        if t.op in ("item", "slice_of", "starred"):
            return self.root(t.a[0], seen)
        if t.op in ("elem", "last"):
            return self.root(t.a[1], seen)
        if t.op == "phi":
            return self.root(t.a[1], seen) | self.root(t.a[2], seen)
        if t.op == "loopvar":
            i = self.ev.loopinfo.get(t)
            return self.root(i[0], seen) | self.root(i[1], seen) if i else {"unknown"}
        if t.op == "loopout":
            return self.root(t.a[2], seen) | self.root(t.a[3], seen)
        return {"unknown"}

    # -- consumption --------------------------------------------------------------
    def consumes(self):
        """[(key term, event, kind, guard)]; kind 'use' or ('fold', data)."""
        out = []
        for e in self.res.events:
            if e.kind != "call":
                continue
            fn = e.fn
            name = fn.a[0] if fn.op == "global" else None
            if name in NEUTRAL_FN or name in ("jax.vmap", "jax.jit", "functools.partial"):
                continue
            if fn.op == "attr" and self.is_key(fn.a[0]):
                continue
            for x in list(e.args) + [v for _, v in e.kwargs or ()]:
                for k in self.keys_in(x):
                    kind = "use"
                    if name == "jax.random.fold_in":
                        kind = ("fold", e.args[1] if len(e.args) > 1 else NONE)
                    for k2, g in self.expand(k, ()):
                        out.append((k2, e, kind, tuple(e.guard) + g))
        return out

    def keys_in(self, x):
        if self.is_key(x):
            return [x]
        if x.op in ("tuple", "list", "star"):
            r = []
            for y in x.a:
                r += self.keys_in(y)
            return r
        if x.op == "dict":
            r = []
            for _, y in x.a:
                r += self.keys_in(y)
            return r
        return []

    def expand(self, k, g, d=0):
        if k.op == "phi" and d < 6:
            return self.expand(k.a[1], g + (k.a[0],), d + 1) + self.expand(k.a[2], g + (neg(k.a[0]),), d + 1)
        return [(k, g)]

    def draws(self):
        return [c for c in self.consumes() if c[2] == "use"]


def _callable(t):
    return t.op in ("closure", "partial", "vmapped", "global") or (t.op == "attr")


def compatible(g1, g2):
    s = set(g1)
    for c in g2:
        if neg(c) in s or c is FALSE:
            return False
    eq = {}
    for c in list(g1) + list(g2):
        if c.op == "cmp" and c.a[0] in ("==", "is"):
            a, b = c.a[1], c.a[2]
            if a.op == "const":
                a, b = b, a
            if b.op == "const":
                if a in eq and eq[a] is not b:
                    return False
                eq[a] = b
    return True


def loop_dependent(kf, k, lid):
    """The value of k varies with the iterations of loop lid (through loop carried inits as well)."""
    seen, stack = set(), [k]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("elem", "idx", "loopvar", "loopout", "last") and x.a[0] == lid:
            return True
        if x.op == "loopvar" and x in kf.ev.loopinfo:
            stack.append(kf.ev.loopinfo[x][0])
        stack.extend(children(x))
    return False


def analyse(proj, func, cls=None, opaque=None, keyparams=("key",)):
    """[(ok, what, loc)] key-linearity findings of one function, and statistics."""
    kf = KeyFlow(proj, func, cls, opaque, keyparams)
    cons = kf.consumes()
    out = []
    # 1. each key consumed at most once
    by = {}
    entered = entering(kf, cons)
    for k, e, kind, g in cons + entered:
        by.setdefault(k, []).append((e, kind, g))
    for k, us in by.items():
        bad = None
        for i in range(len(us)):
            for j in range(i + 1, len(us)):
                (e1, k1, g1), (e2, k2, g2) = us[i], us[j]
                if e1 is e2 and k1 == k2 and not _same_event_twice(e1, k):
                    continue
                if k1 != "use" or k2 != "use":
                    if not (k1 == k2 and k1 != "use" and k1[1] is k2[1]):
                        continue
                if compatible(g1, g2):
                    bad = (e1, e2)
                    break
            if bad:
                break
        out.append((bad is None, "reuse", k,
                    f"key {show(k)[:120]} consumed by {_cn(bad[0])} (line {bad[0].loc[1]}) and again by "
                    f"{_cn(bad[1])} (line {bad[1].loc[1]})" if bad else "consumed once", (bad or us[0])[1 if bad else 0].loc))
    # whole split array and one of its items
    for k, us in by.items():
        if k.op == "call":
            for k2, us2 in by.items():
                if k2.op == "item" and k2.a[0] is k:
                    for (e1, _, g1) in us:
                        for (e2, _, g2) in us2:
                            if e1 is not e2 and compatible(g1, g2):
                                out.append((False, "reuse", k2, "sub-key and its whole split array both consumed", e2.loc))
    # 2. no loop invariant consumption
    for k, e, kind, g in cons:
        if kind != "use":
            continue
        inv = [lid for lid, src in e.loops if not loop_dependent(kf, k, lid)]
        # a new key made inside the loop is fine; terms of get_key() are not loop dependent
        if inv and kf.root(k) <= {"new"}:
            made = _made_loops(kf, k)
            inv = [x for x in inv if x not in made]
        if k.op == "loopvar" or contains(k, lambda x: x.op == "loopvar"):
            lv = next(x for x in walk(k) if x.op == "loopvar")
            info = kf.ev.loopinfo.get(lv)
            if info is not None and info[1] is lv:
                out.append((False, "loop", k, "key consumed in a loop that never updates it", e.loc))
        out.append((not inv, "loop", k, "same key consumed at every iteration" if inv else "varies", e.loc))
    # 3. loop carried keys: the next iteration's key must be unconsumed in the body; the init unconsumed before
    used = {}
    for k, e, kind, g in cons + entered:
        if kind == "use":
            used.setdefault(k, []).append((e, g))
    for lv, (init, new, lid) in kf.ev.loopinfo.items():
        if not kf.is_key(init) or lv not in used:
            continue
        for n, g in kf.expand(new, ()):
            if n is lv:
                # some path keeps the key: is it consumed on that path?
                bad = [e for e, g2 in used[lv] if compatible(tuple(g), g2)]
                if bad and new is not lv:
                    out.append((False, "carry", lv, "a loop path consumes the key without updating it", bad[0].loc))
                continue
            if n in used and any(compatible(g, g2) for _, g2 in used[n]):
                out.append((False, "carry", n, "the key carried to the next iteration is already consumed",
                            used[n][0][0].loc))
            elif not kf.is_key(n) or not (kf.root(n)):
                out.append((False, "carry", n, "the loop does not carry a key derived from the previous one",
                            used[lv][0][0].loc))
            else:
                out.append((True, "carry", n, "carried key fresh", used[lv][0][0].loc))
        for i, g in kf.expand(init, ()):
            if i in used and any(e.loops == () or lid not in [x for x, _ in e.loops] for e, _ in used[i]):
                out.append((False, "carry", i, "the key entering the loop is already consumed", used[i][0][0].loc))
    # 4. returned key
    rets = []
    for g, t, h, loc in kf.res.exits:
        k = None
        if t.op in ("tuple", "list") and t.a and kf.is_key(t.a[0]):
            k = t.a[0]
        elif kf.is_key(t):
            k = t
        elif t.op == "tuple" and t.a and kf.inputs and not kf.is_key(t.a[0]) and _mentions_key_name(func):
            pass
        if k is not None:
            rets.append((g, k, loc))
    for g, k, loc in rets:
        for n, g2 in kf.expand(k, ()):
            cands = [(n, ())]
            if n.op == "loopout":
                cands += kf.expand(n.a[3], ())
            hit = [e for c, gc in cands for e, g3 in used.get(c, []) if compatible(tuple(g) + g2 + gc, g3)]
            r = kf.root(n)
            out.append((not hit, "returned", n, f"returned key already consumed by {_cn(hit[0])}" if hit else
                        "returned key unconsumed", loc))
            if kf.inputs:
                okr = r <= {"input"}
                out.append((okr if "unknown" not in r else None, "derived", n,
                            f"returned key originates from {sorted(r)}", loc))
    # 5. draws root
    if kf.inputs:
        for k, e, kind, g in cons:
            r = kf.root(k)
            out.append((False if r & {"new", "const"} else None if "unknown" in r else True, "root", k,
                        f"draw keyed from {sorted(r)} instead of the caller's key", e.loc))
    else:
        for k, e, kind, g in cons:
            if "const" in kf.root(k) and e.fn.op == "global":
                out.append((False, "root", k, "draw keyed from a constant seed", e.loc))
    return kf, out, rets


def entering(kf, cons):
    """What is consumed of a carried key in a loop is, in its first iteration, the key that entered."""
    out, todo = [], [c for c in cons if c[2] == "use"]
    while todo:
        k, e, kind, g = todo.pop()
        info = kf.ev.loopinfo.get(k) if k.op == "loopvar" else None
        if info is None or not kf.is_key(info[0]):
            continue
        lid = info[2]
        outer = tuple(c for c in g if not contains(c, lambda x: x.op in ("elem", "idx", "loopvar", "last") and x.a[0] == lid))
        for i, gi in kf.expand(info[0], ()):
            c = (i, e, kind, outer + gi)
            out.append(c)
            todo.append(c)
    return out


def _mentions_key_name(f):
    return "key" in f.params


def _same_event_twice(e, k):
    n = sum(x is k for x in list(e.args) + [v for _, v in e.kwargs or ()])
    return n > 1


def _origin(kf, k, seen=None):
    """Maker call terms a key descends from."""
    seen = set() if seen is None else seen
    out = set()
    stack = [k]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_new_key(x):
            out.add(x)
            continue
        if x.op == "loopvar" and x in kf.ev.loopinfo:
            stack += list(kf.ev.loopinfo[x][:2])
        for y in children(x):
            stack.append(y)
    return out


def _made_loops(kf, k):
    """Loops (ids) inside which every ancestor maker call of k runs."""
    res = None
    for o in _origin(kf, k):
        for x in kf.res.events:
            if x.kind == "call" and x.term is o:
                l = {lid for lid, _ in x.loops}
                res = l if res is None else res & l
    return res or set()


def _cn(e):
    return show(e.fn)[-60:]
