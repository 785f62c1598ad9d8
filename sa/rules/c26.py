"""C26: posterior = prior once + every likelihood once; repeats averaged; the sampler evaluates exactly this."""

from ..help import *
from ..keyflow import analyse
from .c16 import lp_world, is_minf
from ..concrete import Concrete, mutated_alias
from ..numer import Unknown
from ..tensor import Tensor
from ..world import obj
from .c20 import tdict

META = {
    "level": "other",
    "technique": "closed-form extraction of the posterior from the value-flow graph and comparison of its summands",
    "explain": "The value of the log posterior is reduced to a closed form (accumulations become sums over their source) for "
               "one and for several repeats; its summands are matched one by one against prior and registered likelihoods, "
               "the arguments of each likelihood call and of the sampler construction are traced to the caller's values.",
    "rules": {
        "prior_once": "for a finite prior the posterior contains the log prior exactly once, with coefficient one",
        "likelihood_once": "it contains the second result of get_log_likelihood of every registered likelihood exactly once",
        "args": "each likelihood is given the requested batch size and all parameters after they were set to the given ones",
        "repeats": "with repeats the result is the mean over exactly the requested number of evaluations",
        "keys": "the evaluations use independent keys",
        "blob": "the log prior is returned alongside",
        "values": "for registered likelihoods of given values the posterior is the log prior plus their sum, averaged over the repeats",
        "sampler": "the sampler is given this function with the requested batch size, repeats and moves",
    },
    "assumptions": ["emcee calls the function it is given with the parameters by name"],
}
OP = opq("Parameter.log_prior", "set_parameter", "get_all_parameter", "get_log_likelihood", "get_key")


def is_lp(t):
    return t.op == "attr" and t.a[1] == "log_prior" or (
        t.op == "call" and fname(t.a[0]) == "array" and len(t.a[1]) == 1 and is_lp(t.a[1][0]))


def once(proj, book, tag, t, loc, r):
    """One evaluation: log prior once plus one sum over the likelihoods."""
    dec = summands(t)
    if dec is None:
        book.ob("likelihood_once", tag, None, "no closed form: " + show(t)[:200], loc)
        return
    plain, sums = dec
    lps = [s for s, x in plain if is_lp(x)]
    rest = [x for s, x in plain if not is_lp(x)]
    inside = [S for S in sums if contains(S.term, is_lp)]
    unk = any(undecidable(x) or x.op in ("phi",) for x in rest)
    ok = lps == [1] and not inside
    if not ok and (unk or not lps and any(contains(x, is_lp) for x in rest)):
        ok = None
    book.ob("prior_once", tag, ok, f"log prior occurs {lps} times outside and {len(inside)} times inside the sum over likelihoods", loc)
    if rest:
        book.ob("likelihood_once", tag + ":extra", None if unk or ok is None else False, f"extra summand {show(rest[0])[:160]}", loc)
    if len(sums) != 1:
        book.ob("likelihood_once", tag, False if not rest else None, f"{len(sums)} sums over the likelihoods", loc)
        return
    S = sums[0]
    src_ok = srcof(S.src) is attr(SELF, "likelihoods")
    el = item(attr(SELF, "likelihoods"), S.el)
    term = canon(S.term)
    if inside:
        d2 = summands(S.term)
        term = next((x for s, x in d2[0] if not is_lp(x)), term) if d2 else term
    call = None
    if term.op == "item" and isc(term.a[1], 1) and term.a[0].op == "call" and head(term.a[0].a[0]) == ".get_log_likelihood":
        call = term.a[0]
    ok = call is not None and src_ok and S.sign == 1 and call.a[0].a[0] in (el, S.el)
    if not ok:
        decided = call is not None and src_ok and (S.sign == -1) or term.op in ("phi", "bin") and contains(
            term, lambda x: x.op == "call" and head(x.a[0]) == ".get_log_likelihood") or (
            call is None and term.op == "item" and term.a[0].op == "call" and head(term.a[0].a[0]) == ".get_log_likelihood")
        ok = False if decided else None
    book.ob("likelihood_once", tag, ok, f"sum over {show(S.src)[:60]} of {show(S.term)[:160]}", loc)
    if call is None:
        return
    a = call.a[1]
    kw = dict(call.a[2])
    bs = kw.get("batch_size", a[1] if len(a) > 1 else None)
    pr = kw.get("parameters", a[2] if len(a) > 2 else None)
    book.ob("args", tag + ":batch_size", same(bs, par("batch_size")) if bs is not None else False,
            f"batch size handed over is {show(bs)[:80] if bs is not None else 'missing'}", loc)
    book.ob("args", tag + ":parameters", all_params(pr), f"parameters handed over are {show(pr)[:100] if pr is not None else 'missing'}", loc)


def all_params(t):
    if t is None:
        return False
    while t.op == "call" and (head(t.a[0]).split(".")[-1] in ("deepcopy", "copy", "dict")) and (t.a[1] or t.a[0].op == "attr"):
        t = t.a[1][0] if t.a[1] else t.a[0].a[0]
    pm = attr(SELF, "par_manager")
    if t.op == "call" and t.a[0] is attr(pm, "get_all_parameter") or t is attr(pm, "_parameter_dict"):
        return True
    return False if t is par("parameters") else None


def check(proj, book):
    r = run(proj, "Context", "log_posterior", opaque=OP)
    loc = r.loc
    n = par("repeat_times")
    # set_parameter(parameters) precedes every read of prior and likelihood
    first = None
    for i, e in enumerate(r.events):
        nm = head(e.fn).split(".")[-1] if e.fn is not None else ""
        if e.kind == "call" and nm == "set_parameter":
            ok = len(e.args) >= 1 and e.args[0] is par("parameters") and not e.guard
            first = i if ok and first is None else first
        if (e.kind == "getprop" and nm == "log_prior") or (e.kind == "call" and nm in ("get_log_likelihood", "get_all_parameter")):
            book.ob("args", f"order:{nm}", first is not None and first < i,
                    f"{nm} is {'' if first is not None else 'not '}preceded by setting the given parameters", e.loc)
    for g, t, h, l in r.exits:
        g = lp_world(conj(g if isinstance(g, tuple) else (g,)), is_lp, True)
        if not feasible(g):
            continue
        if t.op != "tuple" or len(t.a) != 2:
            book.ob("blob", "log_posterior", False if t.op == "tuple" else None, f"returns {show(t)[:100]}", l)
            continue
        v = lp_world(t.a[0], is_lp, True)
        book.ob("blob", "log_posterior", True if is_lp(t.a[1]) else None if undecidable(t.a[1]) else False if contains(
                    t.a[1], lambda y: y.op == "call" and head(y.a[0]) == ".get_log_likelihood") else same(t.a[1], attr(SELF, "par_manager", "log_prior")),
                f"second result is {show(t.a[1])[:80]}", l)
        for k, tag in ((1, "single"), (2, "repeated"), (3, "repeated3")):
            x = order(v, {n: k})
            gk = order(g, {n: k})
            if isc(gk, False):
                continue
            x = fuse(x)
            if k == 1:
                x = only(x, n)
            if k == 1 and not mean_form(x, n):
                once(proj, book, tag, x, l, r)
                continue
            m = mean_form(x, n)
            if m is None:
                ss = summands(x)
                ok = None
                if ss is not None and any(is_lp(p) for _, p in ss[0]) and len(ss[1]) == 1 and not contains(
                        x, lambda y: y is n or y.op in ("unknown", "loopout", "loopvar") and "log_post" in str(y.a)):
                    ok = False  # a single evaluation whatever the number of repeats
                elif x.op in ("item", "last") and contains(x, lambda y: y.op == "comp"):
                    ok = False
                elif x.op == "call" and fname(x.a[0]) in ("median", "max", "min", "sum", "prod"):
                    ok = False
                book.ob("repeats", tag, ok, f"result of repeated evaluation is {show(x)[:200]}", l)
                continue
            body, src, cnt = m
            c = number(cnt, {n: k})
            book.ob("repeats", tag, c == k if c is not None else same(cnt, n), f"mean over {show(cnt)[:60]} evaluations", l)
            once(proj, book, tag, body, l, r)
    f = proj.method("Context", "log_posterior")
    kf, out, rets = analyse(proj, f)
    for ok, rule, k, what, lc in out:
        if rule in ("reuse", "loop", "carry", "root") :
            book.ob("keys", f"{rule}:{what[:40]}", True if rule == "root" else ok, what, lc)
    sampler(proj, book)
    book.step("values", worlds, proj, book)
    book.floor("prior_once", 1)
    book.floor("sampler", 4)


def worlds(proj, book):
    """The posterior of two or three likelihoods whose values are given, by arithmetic on the extracted term."""
    inf = float("inf")
    f = proj.method("Context", "log_posterior")
    LP = attr(SELF, "par_manager", "log_prior")
    al = mutated_alias(f.node)
    if al:
        book.ob("values", "aliases", None, "an object with a second name is changed: " + ", ".join(al), f.loc)
        return
    for tag, names, k, bad in (("one", "A", 1, None), ("two", "AB", 1, None), ("three", "CAB", 1, None), ("two:repeated", "AB", 2, None),
                               ("two:three_times", "AB", 3, None), ("last_impossible", "AB", 1, "B"), ("first_impossible", "AB", 1, "A"),
                               ("repeated:impossible", "AB", 2, "A")):
        env, calls, vague = {LP: -0.7}, [], []
        objs = {n: obj("likelihood " + n) for n in names}

        def hook(ev, fn, args, kw, fr, ex):
            if fn.op == "attr" and fn.a[1] == "get_log_likelihood" and fn.a[0] in objs.values():
                n = next(x for x, o in objs.items() if o is fn.a[0])
                try:
                    if not ev.ten.truth(canon(conj(tuple(ev.guard)))):
                        return T("tuple", T("symbol", "no key"), T("symbol", "not evaluated"))
                except Unknown as x:
                    vague.append(str(x))
                i = sum(1 for m, _ in calls if m == n)
                t = T("symbol", f"log likelihood {n} {i}")
                calls.append((n, t))
                env[t] = -inf if n == bad and i == 0 else -(3.25 + 7.5 * ord(n) % 11 + 2.125 * i * i)
                return T("tuple", T("symbol", f"key {n} {i}"), t)
            return None
        e = Concrete(proj, opaque=OP)
        e.hook = hook
        e.ten = Tensor(env, proj=proj)
        e.heap[(SELF, "likelihoods")] = tdict(objs)
        r = e.run(f, cls=proj.cls("Context"), args={"repeat_times": C(k), "batch_size": C(1000)})
        got = None
        try:
            for g, t, l in rets(r):
                if e.ten.truth(canon(g)):
                    got = e.ten.val(canon(item(t, C(0))))
                    break
        except Unknown as x:
            book.ob("values", tag, None, f"not evaluated: {x}", f.loc)
            continue
        if vague or not isinstance(got, (int, float)) or not calls or any(x.op in ("loopvar", "loopout") for e_ in r.events for a in (e_.args or ()) if isinstance(a, Term) for x in walk(a)):
            book.ob("values", tag, None, f"evaluates to {got}", f.loc)
            continue
        per = {}
        for n, t in calls:
            per.setdefault(n, []).append(env[t])
        counts = {n: len(v) for n, v in per.items()}
        if bad is None and counts != {n: k for n in names}:
            book.ob("values", tag, False, f"evaluations of the likelihoods: {counts}, expected {k} of each", f.loc)
            continue
        want = -inf if bad else -0.7 + sum(sum(v) for v in per.values()) / k
        ok = got == want or abs(got - want) < 1e-9
        book.ob("values", tag, ok, f"log prior {-0.7}, log likelihoods {per}, {k} repeats: posterior {got}, expected {want}", f.loc)


def mean_form(x, n):
    """mean(comp) | sum(comp)/n -> (body, src, count term)"""
    num, div = x, None
    if x.op == "bin" and x.a[0] == "/":
        num, div = x.a[1], x.a[2]
    comp = None
    if div is None and x.op == "call":
        nm = fname(x.a[0])
        if nm == "mean" and x.a[1] and x.a[1][0].op == "comp":
            comp = x.a[1][0]
        elif x.a[0].op == "attr" and x.a[0].a[1] == "mean" and not x.a[1]:
            b = canon(x.a[0].a[0])
            comp = b if b.op == "comp" else None
    elif div is not None:
        d = summands(num)
        if d and not d[0] and len(d[1]) == 1 and not contains(d[1][0].term, lambda y: y.op == "loopvar" and y.a[0] == d[1][0].lid and False):
            S = d[1][0]
            cnt = count(S.src)
            if cnt is not None:
                return (S.term, S.src, cnt if same(div, cnt) is not True else div) if same(div, cnt) is True else (S.term, S.src, div)
    if comp is None or comp.a[4]:
        return None
    cnt = count(comp.a[3])
    return None if cnt is None else (comp.a[1], comp.a[3], cnt)


def only(x, n):
    """The single element of a list of evaluations built by one pass over range(..) when one evaluation is asked for."""
    if x.op in ("item", "last") and x.a[0].op == "comp" and not x.a[0].a[4] and (x.op == "last" or isc(x.a[1], 0, -1)):
        _, body, lid, src, _ = x.a[0].a
        c = count(src)
        if c is not None and number(c, {n: 1}) == 1 and not contains(body, lambda y: y.op == "elem" and y.a[0] == lid):
            return body
    return x


def count(src):
    if isinstance(src, Term) and src.op == "range" and len(src.a) == 1:
        return src.a[0]
    if isinstance(src, Term) and src.op == "range" and len(src.a) >= 2:
        return binop("-", src.a[1], src.a[0])
    return None


def sampler(proj, book):
    for m in ("pre_fitting", "fitting", "continue_fitting"):
        r = run(proj, "Context", m, opaque=opq("_set_backend", "_dump_meta", "_sanity_check", "sample_init",
                                               "parameter_fit_array", "_ndim", "parameter_fit"))
        es = [e for e in r.events if e.kind == "call" and head(e.fn).split(".")[-1] == "EnsembleSampler"]
        if not es:
            book.ob("sampler", f"{m}:constructed", None, "no sampler construction found", r.loc)
        for e in es:
            fn = arg(e, 2, "log_prob_fn")
            ok = fn is attr(SELF, "log_posterior")
            book.ob("sampler", f"{m}:function", ok if ok else (None if fn is None or fn.op in ("closure", "partial", "unknown") else False),
                    f"the sampler evaluates {show(fn)[:80] if fn is not None else '?'}", e.loc)
            kw = arg(e, 6, "kwargs")
            if kw is None or kw.op != "dict":
                book.ob("sampler", f"{m}:kwargs", False if kw is None and ok else None, "keyword arguments of the posterior", e.loc)
                continue
            d = {k.a[0]: v for k, v in kw.a if isinstance(k, Term) and k.op == "const"}
            for p in ("batch_size", "repeat_times"):
                v = d.get(p)
                book.ob("sampler", f"{m}:{p}", False if v is None else same(v, par(p)),
                        f"the posterior is evaluated with {p} = {show(v)[:60] if v is not None else 'its default'}", e.loc)
            mv = arg(e, None, "moves")
            book.ob("sampler", f"{m}:moves", False if mv is None else same(mv, par("moves")),
                    f"moves = {show(mv)[:60] if mv is not None else 'default'}", e.loc)
