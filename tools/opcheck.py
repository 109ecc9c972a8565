"""Compares the symbolic torch operations (engine/symtorch.py, symnn.py, symextra.py) with the real ones.

python3-vt tools/opcheck.py [names]: every expression of tools/ops.txt is executed on symbolic tensors A (n x 3 x 3), v (3), B (n x 2 x 4 x 5), i (integers), n symbolic;
the resulting terms are evaluated for several n and contents and compared with what the real torch gives for the same expression
(/opt/venv/bin/python tools/opcheck.py real). Exit 1 on a difference."""
import json
import math
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def settings():
    r = random.Random(5)
    out = []
    for n, kind in ((1, "plain"), (2, "plain"), (3, "ties"), (4, "plain"), (2, "ties")):
        pick = (lambda: round(r.uniform(-2, 2), 3)) if kind == "plain" else (lambda: float(r.choice([-1, 0, 0, 1, 1, 2, -0.5])))
        nest = lambda *s: pick() if not s else [nest(*s[1:]) for _ in range(s[0])]
        A = nest(n, 3, 3)
        if kind == "plain":
            for M in A:
                for k in range(3):
                    M[k][k] += 4.0
        out.append(dict(n=n, A=A, v=nest(3), B=nest(n, 2, 4, 5), w=nest(n), i=[r.randrange(3) for _ in range(n)]))
    return out


def lines():
    out = []
    for l in open(HERE + "/ops.txt"):
        if l.strip() and not l.startswith("#"):
            a, b = l.rstrip("\n").split(": ", 1)
            out.append((a, b))
    return out


def space(torch, A, v, B, w, i):
    return dict(torch=torch, F=torch.nn.functional, nn=torch.nn, math=math, A=A, v=v, B=B, w=w, i=i)


def flat(x):
    return [y for z in x for y in flat(z)] if isinstance(x, list) else [x]


def real(path):
    import torch
    res = {}
    for k, s in enumerate(settings()):
        for name, e in lines():
            t = lambda x: torch.tensor(x, dtype=torch.float64)
            try:
                r = eval(e, space(torch, t(s["A"]), t(s["v"]), t(s["B"]), t(s["w"]), torch.tensor(s["i"])))
                if isinstance(r, (tuple, list)):
                    r = r[0]
                if isinstance(r, torch.Tensor):
                    kind = "b" if r.dtype is torch.bool else "f" if r.is_floating_point() else "i"
                    res[f"{name}/{k}"] = [list(r.shape), kind, [float(x) for x in flat(r.tolist() if r.ndim else [r.tolist()])]]
                else:
                    res[f"{name}/{k}"] = [None, "", [float(r)]]
            except Exception as ex:
                res[f"{name}/{k}"] = ["raises", type(ex).__name__, str(ex)[:100]]
    json.dump(res, open(path, "w"))


def main(want):
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    with tempfile.TemporaryDirectory() as d:
        env = {k: x for k, x in os.environ.items() if k != "PYTHONPATH"}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "real", d + "/r"], check=True, env=env, stderr=subprocess.DEVNULL)
        ref = json.load(open(d + "/r"))
    from engine import symnn, sctx, registry, numeric
    from engine import terms as T
    mods, torch = symnn.install(os.environ.get("VERIF_REPO", "/repo"))
    sets = settings()
    stats = dict(operations=0, compared=0, values=0, unsupported=[], different=[])
    for name, e in lines():
        if want and name not in want:
            continue
        done, bad, uns = 0, [], None

        def f(c, e=e, name=name):
            nonlocal done, uns
            n = c.dim("n", 1)
            A, v, B, w = c.tensor("A", n, 3, 3, dtype=torch.float64), c.tensor("v", 3, dtype=torch.float64), c.tensor("B", n, 2, 4, 5, dtype=torch.float64), c.tensor("w", n, dtype=torch.float64)
            i = c.int_tensor("i", n, lo=0, hi=3)
            exc = None
            try:
                r = eval(e, space(torch, A, v, B, w, i))
            except (sctx.Unsupported, sctx.Budget, sctx.Infeasible, sctx.PathLimit, sctx.TimeOut):
                raise
            except Exception as ex:
                exc = ex
            if exc is None and isinstance(r, (tuple, list)):
                r = r[0]
            facts = list(c.ex.facts)
            for k, s in enumerate(sets):
                ev = numeric.Ev({"n": s["n"]}, s)
                try:
                    if not all(ev.b(x, {}) for x in facts):
                        continue
                    want = ref[f"{name}/{k}"]
                    if exc is not None:
                        if want[0] != "raises":
                            bad.append(f"setting {k}: raises {type(exc).__name__}: {exc}")
                        done += 1
                        continue
                    if want[0] == "raises" and want[1] == "_LinAlgError":
                        continue
                    if want[0] == "raises":
                        bad.append(f"setting {k}: does not raise {want[1]}: {want[2]}")
                        done += 1
                        continue
                    if isinstance(r, symnn.Tensor):
                        shape = [int(ev.poly(T.P(d), {})) for d in r._dims]
                        kind = "b" if r.dtype is torch.bool else "f" if r.is_floating_point() else "i"
                        if shape != want[0] or kind != want[1]:
                            bad.append(f"setting {k}: {shape} {kind} instead of {want[:2]}")
                            done += 1
                            continue
                        g = r._num()
                        pos = [()]
                        for d in shape:
                            pos = [p + (j,) for p in pos for j in range(d)]
                        got = [float(ev.poly(g(tuple(T.const(j) for j in p)), {})) for p in pos]
                    else:
                        got = [float(ev.poly(T.P(r), {})) if not isinstance(r, bool) else float(r)]
                    for p, (x, y) in enumerate(zip(got, want[2])):
                        if not (abs(x - y) <= 1e-6 * (1 + abs(y)) or x == y):
                            bad.append(f"setting {k}, element {p}: {x} instead of {y}")
                            break
                    stats["values"] += len(got)
                    done += 1
                except numeric.NoValue as ex:
                    uns = f"no value: {ex}"
                except sctx.Unsupported as ex:
                    uns = str(ex)
        con = registry.Contract(f, (), (), "proof", 1, 1, "", 200)
        r = sctx.run_contract(con, mods, torch, timeout=20)
        stats["operations"] += 1
        stats["compared"] += bool(done)
        if r["status"] != "ok" or not done:
            stats["unsupported"].append(f"{name}: {uns or r['detail']}"[:160])
        if bad:
            stats["different"].append(f"{name} [{e}]: {bad[0]}")
    return stats


if __name__ == "__main__":
    if sys.argv[1:2] == ["real"]:
        real(sys.argv[2])
    else:
        js = "--json" in sys.argv
        s = main(set(sys.argv[1:]) - {"--json"})
        if js:
            print(json.dumps(s))
            sys.exit(bool(s["different"]))
        for x in s["unsupported"]:
            print("not compared", x)
        for x in s["different"]:
            print("DIFFERENT", x)
        print(f"{s['operations']} operations, {s['compared']} compared, {s['values']} values, {len(s['different'])} different")
        sys.exit(bool(s["different"]))
