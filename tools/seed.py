#!/usr/bin/env python3
"""Plant bugs: `seed.py add SPEC.py` confirms and keeps them, `seed.py check [ID...]` runs the checks on them.

SPEC.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new)], demo=<python source>, needs=, breaks=)].
A kept bug applies to /repo's HEAD, passes the stable tests, and its demo fails only with it.  Everything
happens in scratch copies under /tmp/seed."""
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys

VERIF = pathlib.Path(os.environ.get("SEED_VERIF") or pathlib.Path(__file__).resolve().parent.parent)
REPO = pathlib.Path("/repo")
TMP = pathlib.Path("/tmp/seed")
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
BASE = "561f035"
PRE = "import sys, os\nsys.path.insert(0, os.getcwd())\n"


def copy(name):
    d = TMP / name
    if d.exists():
        shutil.rmtree(d)
    d.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(["cp", "-a", str(REPO), str(d)], check=True)
    return d


def tests(d):
    w = TMP / (d.name + ".t")
    w.mkdir(parents=True, exist_ok=True)
    r = subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
         "--ignore=tests/ota/test_ota_providers.py", f"--basetemp={w}/t", "-o", "junit_family=xunit2",
         f"--junitxml={w}/junit.xml", "tests"], cwd=d, env=ENV, capture_output=True, text=True)
    out = w / "o.json"
    subprocess.run([PY, "/opt/vp/results.py", str(out), f"junit:{w}/junit.xml"], capture_output=True)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(json.load(open(out))["passed"])
    bad = sorted(set(base) - passed)
    shutil.rmtree(w, ignore_errors=True)
    return bad


def add(spec):
    ns = {}
    exec(compile(pathlib.Path(spec).read_text(), spec, "exec"), ns)
    with cf.ThreadPoolExecutor(6) as ex:
        for line in ex.map(add_one, ns["SEEDS"]):
            print(line, flush=True)


def add_one(s):
    d = copy(s["id"])
    try:
        for f, old, new in s["edits"]:
            p = d / f
            txt = p.read_text()
            if txt.count(old) != 1:
                return f"{s['id']}: REJECTED, {txt.count(old)} matches of {old!r}"
            p.write_text(txt.replace(old, new))
        # only lines of the original repository may be changed
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = subprocess.run(["git", "show", f"{BASE}:{line[6:]}"], cwd=d, capture_output=True, text=True, check=True).stdout.splitlines()
            elif line.startswith("-") and line[1:].strip() and line[1:] not in cur:
                return f"{s['id']}: REJECTED, not an original line: {line[1:]}"
        k = VERIF / "seeded" / s["id"]
        tmpk = TMP / (s["id"] + ".k")
        tmpk.mkdir(parents=True, exist_ok=True)
        (tmpk / "demo.py").write_text(PRE + s["demo"])
        (tmpk / "demo.sh").write_text(DEMO_SH)
        if "mini" in s["demo"]:
            shutil.copy(VERIF / "tools" / "mini.py", tmpk)
        os.chmod(tmpk / "demo.sh", 0o755)
        (tmpk / "patch.diff").write_text(diff)
        (tmpk / "meta.json").write_text(json.dumps(
            {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        r0 = subprocess.run([str(tmpk / "demo.sh")], cwd=REPO, env=ENV, capture_output=True, text=True, timeout=300)
        if r0.returncode:
            return f"{s['id']}: REJECTED, demo fails on the unchanged tree\n{r0.stdout[-500:]}{r0.stderr[-1500:]}"
        r1 = subprocess.run([str(tmpk / "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
        if not r1.returncode:
            return f"{s['id']}: REJECTED, demo passes with the bug"
        bad = tests(d)
        if 0 < len(bad) < 4:
            bad = tests(d)      # some depend on the load of the machine
        if bad:
            return f"{s['id']}: REJECTED, tests fail: {bad[:4]} ({len(bad)})"
        if k.exists():
            shutil.rmtree(k)
        shutil.copytree(tmpk, k)
        shutil.rmtree(tmpk)
        return f"{s['id']}: kept; {run_check(d, s['property'])}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_check(d, prop):
    r = subprocess.run([str(VERIF / "run.py"), prop], env={**ENV, "VERIF_REPO": str(d), "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
                                                         "VERIF_TIER": "quick", "VERIF_SCRATCH_OUT": str(TMP / (d.name + ".out"))},
                       capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("[")][:1]
    return {1: "CAUGHT", 0: "missed"}.get(r.returncode, f"exit {r.returncode}") + " " + (v[0][:150] if v else r.stderr[-300:])


def check(ids):
    ids = ids or sorted(p.name for p in (VERIF / "seeded").iterdir())
    for i in ids:
        k = VERIF / "seeded" / i
        prop = json.loads((k / "meta.json").read_text())["property"]
        d = copy(i)
        r = subprocess.run(["git", "apply", str(k / "patch.diff")], cwd=d, capture_output=True, text=True)
        print(i, prop, run_check(d, prop) if r.returncode == 0 else "DOES NOT APPLY " + r.stderr[:200], flush=True)
        shutil.rmtree(d)


if __name__ == "__main__":
    {"add": lambda a: [add(x) for x in a], "check": check}[sys.argv[1]](sys.argv[2:])
