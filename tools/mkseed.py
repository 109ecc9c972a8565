"""Create and validate a planted bug: python3 tools/mkseed.py SPECS.py [id ...]
SPECS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET
BASE = "2b2cacb"
REPO = "/repo"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def stable(cwd):
    x = "/tmp/seed_junit.xml"
    sh(f"PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={x} gconv/tests", cwd)
    ok = set()
    for tc in ET.parse(x).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    for s in specs:
        if want and s["id"] not in want:
            continue
        W = "/tmp/seedwt"
        shutil.rmtree(W, ignore_errors=True)
        sh(["cp", "-a", REPO, W], "/")
        msgs = []
        for f, old, new, *nth in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if (t.count(old) <= nth[0]) if nth else (t.count(old) != 1):
                msgs.append(f"{f}: pattern occurs {t.count(old)} times")
                continue
            parts = t.split(old)
            k = nth[0] if nth else 0
            open(p, "w").write(old.join(parts[: k + 1]) + new + old.join(parts[k + 1 :]))
        if msgs:
            print(s["id"], "BAD", msgs)
            continue
        diff = sh("git diff", W).stdout
        # changed lines must be original
        D = f"/verif/seeded/{s['id']}"
        os.makedirs(D, exist_ok=True)
        open(D + "/patch.diff", "w").write(diff)
        open(D + "/demo.py", "w").write(s["demo"].strip("\n") + "\n")
        open(D + "/demo.sh", "w").write(f"#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD\" exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(D + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
        for f in {e[0] for e in s["edits"]}:
            removed = [l[1:] for l in sh(["git", "diff", "-U0", "--", f], W).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            base = sh(["git", "show", f"{BASE}:{f}"], REPO).stdout.splitlines()
            for l in removed:
                if l not in base:
                    msgs.append(f"not an original line: {l!r}")
            if not removed:
                msgs.append("only additions in " + f)
        bad = stable(W)
        if bad:
            msgs.append(f"stable tests fail: {bad}")
        a = sh(["bash", D + "/demo.sh"], REPO)
        b = sh(["bash", D + "/demo.sh"], W)
        if a.returncode:
            msgs.append("demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-600:])
        if not b.returncode:
            msgs.append("demo passes with the patch")
        shutil.rmtree(W)
        print(s["id"], "OK" if not msgs else "BAD", msgs, "|", (b.stdout + b.stderr).strip().splitlines()[-1:] )


main()
