#!/usr/bin/env python3
"""Self-test: every wrong text given to an obligation parses, evaluates, and differs from the reference in some obligation."""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(60000)
from rxnsa import model  # noqa: E402
from rxnsa.check import Ctx  # noqa: E402


def main():
    for pid in sys.argv[1:]:
        ctx = Ctx(model.Program())
        ctx.vet = []
        importlib.import_module(f"rxnsa.rules.{pid.lower()}").rules(ctx)
        by = {}
        for con, w, st in ctx.vet:
            by.setdefault((con, w), set()).add(st)
        texts = {}
        for (con, w), st in by.items():
            texts.setdefault(w, set()).update(st)
        for (con, w), st in by.items():
            odd = [x for x in st if x not in ("equal", "differ", "unknown", "none", "noref")]
            if odd or texts[w] <= {"equal"}:
                print(pid, con, sorted(st), w)
        print(pid, len(texts), "wrong texts", *ctx.broken)


threading.stack_size(1 << 28)
t = threading.Thread(target=main)
t.start()
t.join()
