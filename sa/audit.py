"""Self-audit of a rule (thorough tier): the rule is re-run on in-memory edits of the current source.

Every entry of audits/<pid>.py is (kind, file, old, new): kind "bad" must be reported, kind "ok" (a behaviour-preserving
rewrite) must stay quiet.  Generic behaviour-preserving rewrites (locals renamed, statements that do nothing inserted) are
applied to every file as well.  The outcome is evidence about the checker; it never changes the verdict on the tree.
"""

import ast
import importlib
import json
import os
import random

from .proj import Project, AnalysisBroken
from .report import Book, known_findings


def verdict(pid, rule, repo, overlay):
    try:
        p = Project(repo, overlay)
        b = Book(pid, p)
        rule.check(p, b)
    except AnalysisBroken as e:
        return "broken", [str(e)]
    kn = known_findings(pid)
    bad = [o for o in b.obs if o.verdict == "violated" and o.key not in kn]
    if not bad and not any(o.verdict == "discharged" for o in b.obs):
        return "broken", ["no obligation could be discharged"]
    return ("violated" if bad else "quiet"), [o.text()[:300] for o in bad]


def entries(pid):
    try:
        return importlib.import_module(f"sa.audits.{pid.lower()}").ENTRIES
    except ImportError:
        return []


def rewrites(pid):
    """Multi-part edits shared by the rules: preserving ones are shown to every rule, breaking ones to those they concern."""
    p = os.path.join(os.path.dirname(__file__), "audits", "rewrites.json")
    for i, x in enumerate(json.load(open(p))):
        if x["kind"] == "ok" or pid in x["pids"]:
            yield x["kind"], i, x["edits"]


class Rename(ast.NodeTransformer):
    """Rename purely local variables of every function (not parameters, globals or closure-shared names)."""

    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                                                          ast.Global, ast.Nonlocal))]
        if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)) for x in inner):
            return self.generic_visit(n)
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        lam = {x.arg for l in inner for x in l.args.args}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - lam
        imported = {(al.asname or al.name).split(".")[0] for x in ast.walk(n)
                    if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
        loc -= imported
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_renamed"
        return n


def noop(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body[i:i] = ast.parse("_unused_local = 0\nif False:\n    pass\n").body
    return tree


def generic(proj):
    """(name, overlay) of generic behaviour-preserving rewrites of the whole package."""
    ren, nop, fmt = {}, {}, {}
    for rel, m in proj.files.items():
        fmt[rel] = ast.unparse(ast.parse(m.src))
        ren[rel] = ast.unparse(ast.fix_missing_locations(Rename().visit(ast.parse(m.src))))
        nop[rel] = ast.unparse(ast.fix_missing_locations(noop(ast.parse(m.src))))
    return [("reformatted", fmt), ("locals-renamed", ren), ("no-op-statements", nop)]


def audit(pid, rule, proj, book, seed, out, repo=None):
    res = {"bad_reported": 0, "bad_missed": [], "ok_quiet": 0, "ok_alarmed": [], "skipped": 0}
    todo = []
    for i, (kind, rel, old, new) in enumerate(entries(pid)):
        src = proj.files[rel].src if rel in proj.files else proj.text(rel) if os.path.exists(os.path.join(proj.repo, rel)) else ""
        if src.count(old) < 1:
            res["skipped"] += 1
            continue
        ov = src.replace(old, new, 1)
        try:
            if rel.endswith(".py"):
                ast.parse(ov)
        except SyntaxError:
            res["skipped"] += 1
            continue
        todo.append((kind, f"{rel}#{i}", {rel: ov}))
    for kind, i, edits in rewrites(pid):
        ov = {}
        for rel, old, new in edits:
            src = ov.get(rel) or (proj.files[rel].src if rel in proj.files else "")
            if old not in src:
                ov = None
                break
            ov[rel] = src.replace(old, new, 1)
        if ov is None:
            res["skipped"] += 1
            continue
        todo.append((kind, f"rewrites.json#{i}", ov))
    for n, ov in generic(proj):
        todo.append(("ok", n, ov))
    random.Random(seed).shuffle(todo)
    for kind, name, ov in todo:
        v, why = verdict(pid, rule, proj.repo, ov)
        if kind == "bad":
            if v == "violated":
                res["bad_reported"] += 1
            else:
                res["bad_missed"].append(f"{name}: {v}")
        else:
            if v == "quiet":
                res["ok_quiet"] += 1
            else:
                res["ok_alarmed"].append(f"{name}: {v} {why[:2]}")
    book.info["self_audit"] = res
    out(f"self-audit {pid}: {res['bad_reported']} breaking edits reported, {len(res['bad_missed'])} missed, "
        f"{res['ok_quiet']} preserving edits quiet, {len(res['ok_alarmed'])} alarmed, {res['skipped']} not applicable")
    for x in res["bad_missed"]:
        out("  missed " + x)
    for x in res["ok_alarmed"]:
        out("  alarmed " + x[:600])
    return res
