"""Obligation book-keeping, known findings, evidence and exit status."""

import json
import os
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ob:
    __slots__ = ("rule", "instance", "verdict", "detail", "loc")

    def __init__(self, rule, instance, verdict, detail, loc):
        self.rule, self.instance, self.verdict, self.detail, self.loc = rule, instance, verdict, detail, loc

    @property
    def key(self):
        return f"{self.rule}:{self.instance}"

    def text(self):
        l = f"{self.loc[0]}:{self.loc[1]} ({self.loc[2]})" if self.loc else "-"
        return f"[{self.rule}] {self.instance} @ {l}: {self.detail}"


def known_findings(pid):
    """key -> description of accepted (unrepaired) findings."""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.strip()
            if ln.startswith("known: "):
                parts = ln[len("known: "):].split(None, 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                if d.get("property") == pid:
                    out[d["key"]] = parts[2] if len(parts) > 2 else ""
    return out


class Book:
    """Collects the obligations of one property."""

    def __init__(self, pid, proj):
        self.pid, self.proj = pid, proj
        self.obs = []
        self.seen = set()
        self.floors = {}
        self.assumptions = []
        self.units = set()
        self.info = {}

    def ob(self, rule, instance, ok, detail="", loc=None):
        """ok: True (discharged), False (violated), None (undecided: reported as evidence, never alarmed)."""
        instance = str(instance).replace(" ", "_")
        v = "discharged" if ok is True else "violated" if ok is False else "undecided"
        k = (rule, instance, v)
        if loc is not None and hasattr(loc, "loc"):
            loc = loc.loc
        o = Ob(rule, instance, v, str(detail)[:1500], loc)
        if v == "violated" and k in self.seen:
            return ok
        self.seen.add(k)
        self.obs.append(o)
        if loc:
            self.units.add(loc[2])
        return ok

    def step(self, name, fn, *a, **k):
        """Run one part of a rule.  What the engine cannot digest is undecided, never a violation."""
        try:
            return fn(*a, **k)
        except (Exception, RecursionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob("engine", name, None, f"not analysable: {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            return None

    def floor(self, rule, n):
        """At least n obligations of a rule must exist, else the rule does not vouch for the part it misses."""
        self.floors[rule] = n

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def finish(self, tier, seed, t0, meta, out=print):
        pid = self.pid
        known = known_findings(pid)
        viol, kf = [], []
        for o in self.obs:
            if o.verdict == "violated":
                (kf if o.key in known else viol).append(o)
        counts = {}
        for o in self.obs:
            c = counts.setdefault(o.rule, {"discharged": 0, "violated": 0, "undecided": 0})
            c[o.verdict] += 1
        for r, n in self.floors.items():
            have = sum(counts.get(r, {}).values())
            if have < n:
                # the code is written in a way this rule finds fewer instances in than it must: it does not vouch for them
                self.obs.append(Ob("floor", r, "undecided", f"{have} instances found, {n} expected", None))
                counts.setdefault("floor", {"discharged": 0, "violated": 0, "undecided": 0})["undecided"] += 1
        broken = not any(o.verdict == "discharged" for o in self.obs)
        samples = {}
        for o in self.obs:
            s = samples.setdefault(o.rule, [])
            if len(s) < 4 or o.verdict != "discharged":
                s.append(f"{o.verdict}: {o.text()}"[:400])
        cov = {
            "explanation": meta["technique"] + ". " + meta["explain"],
            "rule": "; ".join(f"{k}: {v}" for k, v in meta["rules"].items()),
            "obligations": len(self.obs),
            "discharged": sum(o.verdict == "discharged" for o in self.obs),
            "undecided": sum(o.verdict == "undecided" for o in self.obs),
            "violated": len(viol) + len(kf),
            "per_rule": counts,
            "functions_analysed": sorted(self.units),
            "files_parsed": len(self.proj.files) if self.proj else 0,
            "functions_in_package": sum(1 for _ in self.proj.all_funcs()) if self.proj else 0,
            "samples": [x for s in samples.values() for x in s][:80],
        }
        cov.update(self.info)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
              "assumptions": self.assumptions + meta.get("assumptions", []),
              "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        out(f"{pid}: {cov['obligations']} obligations over {len(self.units)} functions: "
            f"{cov['discharged']} discharged, {cov['undecided']} undecided, {len(kf)} known, {len(viol)} violated")
        for r, c in counts.items():
            out(f"  {r}: {c}")
        for o in self.obs:
            if o.verdict == "undecided":
                out("  undecided " + o.text()[:300])
        for o in kf:
            out(f"KNOWN-FINDING: property={pid} {o.key} {known[o.key]}")
        if viol:
            rp = os.path.join(d, f"{pid}.report.txt")
            with open(rp, "w") as f:
                for o in viol:
                    f.write(o.text() + "\n")
            for o in viol:
                out("  violated " + o.text())
            out(f"VIOLATION property={pid} replay={rp}")
            return 1
        if broken:
            out("ANALYSIS-BROKEN no obligation could be discharged")
            return 2
        return 0
