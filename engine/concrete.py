"""Run contracts on the real torch and the real /repo code.
usage: concrete.py JOBS.json OUT.json   (run under /opt/venv/bin/python)
       concrete.py --replay FILE"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


def load():
    import torch
    torch.set_num_threads(1)
    try:  # oneDNN convolutions are wrong for some strides of one-channel maps (DESIGN.md section 6)
        torch._C._set_mkldnn_enabled(False)
    except Exception:
        pass
    try:
        import tqdm
        import functools
        tqdm.trange = functools.partial(tqdm.trange, disable=True)
    except ImportError:
        pass
    for n in ("gconv", "gconv.gnn", "gconv.geometry", "gconv.geometry.repulsion", "gconv.geometry.groups.s2"):
        importlib.import_module(n)
    mods = {n: m for n, m in sys.modules.items() if n == "gconv" or n.startswith("gconv.")}
    for m in mods.values():
        if not getattr(m, "__file__", "").startswith(REPO):
            raise RuntimeError(f"{m} not loaded from {REPO}")
    return mods


def contracts():
    from engine import registry
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py") and f[0] == "c" and f != "__init__.py":
            importlib.import_module("contracts." + f[:-3])
    return {c.name: c for c in registry.CONTRACTS}


def run_job(con, mods, job):
    from engine import rctx
    t0 = time.time()
    out = dict(contract=con.name, trials=0, skipped=0, checks=0, failures=[], error=None)
    seed0 = job.get("seed", 1)
    plan = [(k, h) for k in range(job.get("hint_trials", 6)) for h in job.get("hints", [])]
    plan += [(1000 + k, None) for k in range(job["trials"])]
    try:
        for k, h in plan:
            if time.time() - t0 > job.get("budget", 60):
                out["truncated"] = True
                break
            seed = seed0 * 1000003 + k * 7919 + (sum(map(ord, con.name)) % 9973)
            f32 = k % 3 == 2
            ctx = rctx.run_trial(con, mods, seed, h, f32)
            if ctx is None:
                out["skipped"] += 1
                continue
            out["trials"] += 1
            out["checks"] += ctx.posts if not job.get("frame_only") else ctx.checks
            for fl in ctx.fail:
                if any(x["name"] == fl["name"] for x in out["failures"]):
                    continue
                try:
                    inp = {n: rctx.short(v) for n, v in ctx.inputs.items()}
                except Exception:
                    inp = {}
                out["failures"].append(dict(fl, seed=seed, f32=f32, hints=h, dims=ctx.dims, choices=ctx.choices, inputs=inp))
            if len(out["failures"]) >= 6:
                break
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    out["seconds"] = time.time() - t0
    return out


def main():
    global CONS, MODS
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        MODS, CONS = load(), contracts()
        from engine import rctx
        c = d.get("concrete")
        if not c:
            print("no failing input recorded; failed obligation:", json.dumps(d.get("obligation"), indent=1))
            return 1
        ctx = rctx.run_trial(CONS[d["contract"]], MODS, c["seed"], c["hints"], c["f32"])
        for fl in ctx.fail:
            print("FAILED", d["contract"], fl["name"], fl["detail"])
        print("dims", ctx.dims, "choices", ctx.choices)
        return 1 if ctx.fail else 0
    jobs = json.load(open(sys.argv[1]))
    MODS, CONS = load(), contracts()
    from engine import pool
    res = []
    for j, st, v in pool.run(lambda j: run_job(CONS[j["contract"]], MODS, j), jobs, 8, lambda j: j.get("budget", 60) * 2 + 60, overall=jobs[0].get("overall") if jobs else None):
        if st == "ok":
            res.append(v)
        else:
            res.append(dict(contract=j["contract"], trials=0, skipped=0, checks=0, failures=[], error=v, seconds=0))
    json.dump(res, open(sys.argv[2], "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
