"""python3 -m sa.main <property> [--tier quick|thorough]"""

import argparse
import importlib
import os
import sys
import time
import traceback


def run_property(pid, tier="quick", seed=1, repo=None, out=print):
    from .proj import Project, AnalysisBroken
    from .report import Book
    t0 = time.time()
    rule = importlib.import_module(f"sa.rules.{pid.lower()}")
    try:
        proj = Project(repo)
        book = Book(pid, proj)
        rule.check(proj, book)
        if tier == "thorough":
            from . import audit
            audit.audit(pid, rule, proj, book, seed, out)
        return book.finish(tier, seed, t0, rule.META, out)
    except AnalysisBroken as e:
        out(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=None)
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return run_property(a.property, a.tier, seed, a.repo)
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
