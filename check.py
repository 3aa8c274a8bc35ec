#!/usr/bin/env python3
"""Decide properties of /repo's current source by static analysis.

usage: check.py <ID>... | all   [--tier quick|thorough]
"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(1 << 29)


def ids():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rxnsa", "rules")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("c") and f[1:-3].isdigit())


def main(argv):
    from rxnsa.check import run_property

    args = [a for a in argv if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
        args.remove(tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not args or args == ["all"]:
        args = ids()
    rc = 0
    for a in args:
        m = importlib.import_module(f"rxnsa.rules.{a.lower()}")
        r = run_property(a.upper(), m.META["title"], m.rules, m.FLOOR, tier, seed,
                         explain=m.META.get("explain", ""), assumptions=m.META.get("assumptions", ()))
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    return rc


if __name__ == "__main__":
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
