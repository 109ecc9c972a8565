#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py C01 [--tier quick|thorough]

1. imports /repo's current gconv package against the symbolic torch and runs every contract of the
   property symbolically: each obligation is discharged for all inputs (normal form / case split / z3);
2. runs the same contracts on the real torch (cross-check of the trusted torch semantics, replay of
   counterexamples, bounded stand-ins);
3. prints VIOLATION / KNOWN-FINDING / UNDECIDED lines and writes evidence/<id>.json."""
import argparse
import collections
import importlib
import itertools
import json
import os
import subprocess
import sys
import tempfile
import time
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PY = "/opt/venv/bin/python"
FRAME_PROP = "C20"


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, what = line[len("finding:"):].partition("::")
        kv = dict(x.strip().split("=", 1) for x in head.split(";") if "=" in x)
        out.append(dict(property=kv["property"], contract=kv["contract"], obligation=kv["obligation"], what=what.strip()))
    return out


def select(prop):
    from engine import registry
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.startswith("c") and f.endswith(".py"):
            importlib.import_module("contracts." + f[:-3])
    sel = []
    for c in registry.CONTRACTS:
        if prop in c.props:
            sel.append((c, False))
        elif prop == FRAME_PROP and c.frame:
            sel.append((c, True))
    names = [c.name for c in registry.CONTRACTS]
    assert len(names) == len(set(names)), "duplicate contract names"
    return sel


def symbolic(sel, timeout):
    """returns {name: result} (forks one process per contract)"""
    from engine import pool
    try:
        from engine import symnn, sctx, terms
        mods, torch = symnn.install(REPO)
    except BaseException as e:
        return None, f"{type(e).__name__}: {e}"
    todo = []
    for c, fo in sel:
        if c.kind == "proof":
            names = list(c.split)
            for combo in itertools.product(*[range(c.split[n]) for n in names]):
                todo.append((c, fo, dict(zip(names, combo))))
    todo.sort(key=lambda x: -x[0].cost)

    def work(t):
        c, fo, forced = t
        return sctx.run_contract(c, mods, torch, timeout=int(timeout * max(1, c.cost / 4)), frame_only=fo, forced=forced)
    res = {}
    for (c, fo, forced), st, v in pool.run(work, todo, 8, lambda t: timeout * max(1, t[0].cost / 4) + 40, mem_gb=None, overall=420 if timeout < 300 else None):
        if st != "ok":
            v = dict(contract=c.name, status="crash" if v != "timeout" else "timeout", detail=v, obligations=[], paths=0, seconds=0, stats={})
        if v["status"] == "infeasible" and c.split:
            v["status"] = "ok"
        r = res.get(c.name)
        if r is None:
            res[c.name] = v
        else:
            r["obligations"] += v["obligations"]
            r["paths"] += v["paths"]
            r["seconds"] += v["seconds"]
            for k, x in v["stats"].items():
                r["stats"][k] = r["stats"].get(k, 0) + x
            if v["status"] != "ok":
                r["status"], r["detail"] = v["status"], f"{forced}: {v['detail']}"
    return res, None


def concrete(jobs, tmp, tag, overall):
    if not jobs:
        return {}, None
    for j in jobs:
        j["overall"] = overall
    a, b = os.path.join(tmp, tag + ".in"), os.path.join(tmp, tag + ".out")
    json.dump(jobs, open(a, "w"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", VERIF_REPO=REPO)
    p = subprocess.run([REAL_PY, os.path.join(HERE, "engine", "concrete.py"), a, b], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(b):
        return None, p.stdout[-3000:]
    return {r["contract"]: r for r in json.load(open(b))}, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    A = ap.parse_args()
    prop, tier, seed = A.property, A.tier, A.seed
    deep = tier == "thorough"
    t0 = time.time()
    sel = [(c, f) for c, f in select(prop) if A.only in c.name]
    EV = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    evid = os.path.join(EV, prop + ".json")
    repl = os.path.join(EV, "replay")
    os.makedirs(repl, exist_ok=True)
    for f in os.listdir(repl):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(repl, f))
    if not sel:
        print("no contracts for", prop)
        return 2
    by = {c.name: (c, fo) for c, fo in sel}
    known = [k for k in known_findings() if k["property"] == prop]

    with tempfile.TemporaryDirectory() as tmp:
        # concrete pass and symbolic pass side by side
        def job(c, fo, mult, hints=(), budget=60, ht=6):
            return dict(contract=c.name, trials=int(c.trials * mult), seed=seed, hints=list(hints), hint_trials=ht, budget=budget, frame_only=fo)
        mult = 12 if deep else 1
        jobs = [job(c, fo, mult * (0.4 if fo else 1), budget=600 if deep else 60) for c, fo in sel]
        # fork the symbolic pool from a process without threads: run the concrete pass as a subprocess first
        a, b = os.path.join(tmp, "first.in"), os.path.join(tmp, "first.out")
        for j in jobs:
            j["overall"] = 3000 if deep else 330
        json.dump(jobs, open(a, "w"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", VERIF_REPO=REPO)
        log = open(os.path.join(tmp, "first.log"), "w+")
        proc = subprocess.Popen([REAL_PY, os.path.join(HERE, "engine", "concrete.py"), a, b], env=env, stdout=log, stderr=subprocess.STDOUT)
        sym, symerr = symbolic(sel, 900 if deep else 150)
        proc.wait()
        if not os.path.exists(b):
            log.seek(0)
            print("ERROR: the package cannot be run:", log.read()[-3000:])
            return 2
        con = {r["contract"]: r for r in json.load(open(b))}
        if sym is None:
            print("UNDECIDED: the package cannot be imported symbolically:", symerr)
            sym = {c.name: dict(contract=c.name, status="unsupported", detail="import: " + symerr, obligations=[], paths=0, seconds=0, stats={}) for c, fo in sel if c.kind == "proof"}

        # second concrete pass: undecided contracts and failed obligations
        again = []
        for c, fo in sel:
            if c.kind != "proof":
                continue
            s = sym[c.name]
            bad = [o for o in s["obligations"] if o["status"] not in ("proved",) and (o["kind"] == "frame") == fo]
            if c.props and prop == FRAME_PROP and not fo:
                bad = [o for o in s["obligations"] if o["status"] != "proved"]
            if (bad or s["status"] != "ok") and not con[c.name]["failures"]:
                hints, seen = [], set()
                for o in bad:
                    m = {k: v for k, v in (o.get("model") or {}).items() if isinstance(v, int) and v <= 12}
                    for h in (dict(dims=m, choices=o.get("choices") or {}), dict(dims={}, choices=o.get("choices") or {})):
                        k = json.dumps(h, sort_keys=True)
                        if k not in seen:
                            seen.add(k)
                            hints.append(h)
                again.append(job(c, fo, mult * 8, hints[:12], 150, 25))
        if again:
            con2, err = concrete(again, tmp, "second", 3000 if deep else 200)
            if con2:
                for n, r in con2.items():
                    r["trials"] += con[n]["trials"]
                    r["checks"] += con[n]["checks"]
                    r["seconds"] += con[n]["seconds"]
                    con[n] = r

    viol, finds, und = [], [], []
    nobl = ndis = 0
    backends = collections.Counter()
    solver = collections.Counter()
    funcs, bounded = set(), []

    def match(cn, on):
        for k in known:
            if k["contract"] == cn and on.startswith(k["obligation"]):
                return k
        return None

    def replay_file(cn, on, rec):
        safe = "".join(x if x.isalnum() else "_" for x in f"{cn}-{on}")[:90]
        p = os.path.join(repl, f"{prop}-{safe}.json")
        json.dump(rec, open(p, "w"), indent=1, default=str)
        return os.path.relpath(p, HERE) if p.startswith(HERE) else p

    for c, fo in sel:
        s, k = sym.get(c.name), con[c.name]
        relevant = (lambda kind: kind == "frame") if fo else ((lambda kind: True) if prop == FRAME_PROP else (lambda kind: kind != "frame"))
        cfail = [f for f in k["failures"] if relevant(f["kind"])]
        unknown_cfail = []
        for f in cfail:
            kf = match(c.name, f["name"])
            if kf:
                finds.append((kf, f))
            else:
                unknown_cfail.append(f)
        sbad = []
        if s is not None:
            funcs.update(c.funcs)
            obs = [o for o in s["obligations"] if relevant(o["kind"]) or o["kind"] == "canary"]
            for o in obs:
                if o["kind"] == "canary":
                    und.append((c.name, "vacuous: " + o["detail"]))
                    continue
                kf = match(c.name, o["name"])
                if kf:
                    if o["status"] != "proved":
                        finds.append((kf, o))
                    continue
                nobl += 1
                if o["status"] == "proved":
                    ndis += 1
                    for x in (o["backend"] or "nf").split("+"):
                        backends[x] += 1
                else:
                    sbad.append(o)
            for n, v in (s.get("stats") or {}).items():
                solver[n] += v
            if s["status"] != "ok":
                und.append((c.name, f"{s['status']}: {s['detail'][:400]}"))
                bounded.append(dict(contract=c.name, bound=f"{k['trials']} concrete trials (stand-in: {s['status']})"))
            elif not obs and not fo:
                und.append((c.name, "no obligations generated"))
        else:
            bounded.append(dict(contract=c.name, kind=c.kind, functions=list(c.funcs), bound=c.note or f"{k['trials']} trials", trials=k["trials"], checks=k["checks"]))
        if k["error"]:
            und.append((c.name, "concrete run: " + k["error"][-1500:]))
        if unknown_cfail:
            f = unknown_cfail[0]
            p = replay_file(c.name, f["name"], dict(property=prop, contract=c.name, functions=c.funcs, obligation=f["name"], detail=f["detail"],
                                                  failed_obligations=sbad[:5], concrete=f, replay_cmd=f"{REAL_PY} engine/concrete.py --replay <this file>"))
            viol.append((c.name, f["name"], p, True, f["detail"]))
        elif sbad:
            o = sbad[0]
            p = replay_file(c.name, o["name"], dict(property=prop, contract=c.name, functions=c.funcs, obligation=o, failed_obligations=sbad[:5], concrete=None))
            viol.append((c.name, o["name"], p, False, o["detail"]))

    seen = set()
    for kf, _ in finds:
        key = (kf["contract"], kf["obligation"])
        if key not in seen:
            seen.add(key)
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    for n, d in und:
        print(f"UNDECIDED contract={n} {d}")
    for cn, on, p, inp, d in viol:
        print(f"  failed: {cn} / {on}: {str(d)[:300]}")
    for cn, on, p, inp, d in sorted(viol, key=lambda v: not v[3]):
        print(f"VIOLATION property={prop} replay={p}" + ("" if inp else " no-failing-input-found"))
    trials = sum(k["trials"] for k in con.values())
    checks = sum(k["checks"] for k in con.values())
    ms = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((x["level"] for x in ms["checks"] if x["property"] == prop), "proof")
    from engine import assumptions as AS
    models = operation_models() if deep else None
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(obligations=nobl, discharged=ndis,
                            checker_cmd=f"python3-vt check.py {prop} --tier {tier}",
                            trusted_base=AS.TRUSTED,
                            backends=dict(backends), solver_stats={k: (round(v, 2) if isinstance(v, float) else v) for k, v in solver.items()},
                            functions_under_contract=sorted(funcs),
                            contracts=[dict(name=c.name, kind=c.kind, functions=list(c.funcs), obligations=len(sym[c.name]["obligations"]) if c.name in sym else 0,
                                            discharged=sum(o["status"] == "proved" for o in sym[c.name]["obligations"]) if c.name in sym else 0,
                                            paths=sym[c.name]["paths"] if c.name in sym else 0, symbolic_s=round(sym[c.name]["seconds"], 2) if c.name in sym else 0,
                                            concrete_trials=con[c.name]["trials"], concrete_checks=con[c.name]["checks"], note=c.note) for c, fo in sel],
                            bounded=bounded, undecided=[f"{n}: {d[:200]}" for n, d in und],
                            evaluations=trials, concrete_checks=checks,
                            rule="concrete cross-check: every contract on the real torch with random sizes, options, memory layouts, special values and both float widths",
                            known_findings=sorted({k["what"] for k, _ in finds}), **({"operation_models": models} if models else {})),
              assumptions=AS.ASSUMPTIONS + [c.note for c, fo in sel if c.note and c.kind == "proof"])
    json.dump(ev, open(evid, "w"), indent=1)
    print(f"{prop}: contracts={len(sel)} obligations={nobl} discharged={ndis} undecided={len(und)} bounded={len(bounded)} trials={trials} "
          f"checks={checks} violations={len(viol)} wall={time.time() - t0:.1f}s")
    if A.v:
        for c, fo in sorted(sel, key=lambda x: -(sym.get(x[0].name) or {}).get("seconds", 0))[:12]:
            print("   ", c.name, round((sym.get(c.name) or {}).get("seconds", 0), 1), "s sym;", round(con[c.name]["seconds"], 1), "s conc", con[c.name]["trials"], con[c.name]["skipped"])
    return 1 if viol else 0


def operation_models():
    """Thorough tier: the differential test of the modelled torch operations against the real ones (tools/opcheck.py), reported as evidence about the trust base."""
    r = subprocess.run([sys.executable, os.path.join(HERE, "tools", "opcheck.py"), "--json"], capture_output=True, text=True, timeout=300)
    try:
        m = json.loads(r.stdout.splitlines()[-1])
    except Exception:
        return dict(failed=(r.stderr or r.stdout)[-300:])
    for x in m["different"]:
        print("MODEL-DIFFERENCE (trust base)", x)
    m["not_compared"] = len(m.pop("unsupported"))
    return m


if __name__ == "__main__":
    sys.exit(main())
