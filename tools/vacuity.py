"""Which postconditions compare only zeros, or only equal numbers, in all concrete trials (a hint that a contract is vacuous):
/opt/venv/bin/python tools/vacuity.py [pattern] [trials]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import concrete as C, rctx

C.MODS = C.load()
C.CONS = C.contracts()
pat = sys.argv[1] if len(sys.argv) > 1 else ""
S, cur = {}, []


def watch(name):
    old = getattr(rctx.RealCtx, name)

    def new(self, x, y, *a, **k):
        if cur:
            e = S.setdefault(cur[-1], [0, set()])
            e[0] += 1
            if len(e[1]) < 50:
                e[1].add(round(float(y), 6))
        return old(self, x, y, *a, **k)
    setattr(rctx.RealCtx, name, new)


watch("eq")
watch("eq_angle")
forall = rctx.RealCtx.forall


def wrapped(self, name, *a, **k):
    cur.append((con, name))
    try:
        return forall(self, name, *a, **k)
    finally:
        cur.pop()


rctx.RealCtx.forall = wrapped
for n, c in C.CONS.items():
    if pat in n:
        con = n
        r = C.run_job(c, C.MODS, dict(contract=n, trials=int(sys.argv[2]) if len(sys.argv) > 2 else c.trials, seed=1))
for (n, o), (k, v) in sorted(S.items()):
    if k > 3 and len(v) == 1:
        print(f"{n} / {o}: {k} comparisons, only {v}")
