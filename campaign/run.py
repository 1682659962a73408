"""
Mutation campaign: applies each listed change to a scratch copy of /repo, runs
the project's tests on it, and, when those do not notice, the checks.

usage: run.py [-j] [ids...]     (work directory: /tmp/mc, remove afterwards)

Each line of results.jsonl: id, property, tests ("killed"/"survived"/"build"),
and per check its exit code.
"""

import json
import os
import subprocess
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
WORK = Path(os.environ.get("CAMPAIGN_WORK", "/tmp/mc"))
REPO = WORK / "repo"
VERIF = WORK / "verif"
PY = "/opt/venv/bin/python"

sys.path.insert(0, str(HERE))


def sh(cmd, cwd=None, env=None, timeout=1800):
    full = dict(os.environ)
    full.update(env or {})
    return subprocess.run(
        cmd,
        shell=True,
        cwd=cwd,
        env=full,
        capture_output=True,
        text=True,
        timeout=timeout,
    )


def prepare():
    WORK.mkdir(exist_ok=True)
    if not REPO.exists():
        sh(f"git clone -q /repo {REPO}")
    sh("git fetch -q && git reset -q --hard origin/HEAD", cwd=REPO)
    sh(f"mkdir -p {VERIF} && cp -a /verif/pbt /verif/check {VERIF}/ && "
       f"cp /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl {VERIF}/")
    if not (VERIF / ".cache").exists():
        sh(f"cp -a /verif/.cache {VERIF}/.cache")


def tests(quick=False):
    """Names of stable tests that do not pass on the scratch copy."""
    env = {
        "PATH": "/opt/venv/bin:/usr/bin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "MPLBACKEND": "Agg",
    }
    env["VERIF_REPO"] = str(REPO)
    limit = 400 if quick else 1800
    extra = " --maxfail=1" if quick else ""
    if quick:
        extra += (
            " --deselect tests/search/test_LocalSearch.py::"
            "test_debug_operator_logs --timeout=60"
        )
    res = sh(f"{PY} {VERIF}/pbt/build.py", env=env)
    if res.returncode:
        return None, res.stderr[-2000:]
    pkg = next((VERIF / ".cache").glob("**/_pyvrp*.so")).parent
    sh(f"cp {pkg}/_pyvrp*.so {REPO}/pyvrp/; "
       f"cp {pkg}/search/_search*.so {REPO}/pyvrp/search/")
    sh(
        f"{PY} -m pytest tests -q -p no:cacheprovider -p no:sugar -o addopts="
        f" -n 8 --timeout=300 --continue-on-collection-errors -o "
        f"junit_family=xunit2 --junitxml={WORK}/pytest.xml{extra}",
        cwd=REPO,
        env=env,
        timeout=limit,
    )
    sh(f"{PY} /opt/vp/results.py {WORK}/out.json junit:{WORK}/pytest.xml")
    out = json.loads((WORK / "out.json").read_text())
    stable = set(json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"])
    # Our build leaves debug logging out.
    stable -= {"tests.search.test_LocalSearch::test_debug_operator_logs"}
    return sorted(stable - set(out["passed"])), ""


def apply(edits):
    for path, old, new in edits:
        file = REPO / path
        text = file.read_text()
        if text.count(old) != 1:
            return f"{path}: {text.count(old)} matches"
        file.write_text(text.replace(old, new))
    return ""


def main():
    from mutants import MUTANTS

    skip_tests = "-t" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    prepare()
    out = WORK / "results.jsonl"
    done = set()
    if out.exists() and not ids:
        done = {json.loads(x)["id"] for x in out.read_text().splitlines()}
    for name, props, edits in MUTANTS:
        if (ids and name not in ids) or name in done:
            continue
        sh("git checkout -q -- .", cwd=REPO)
        rec = {"id": name, "props": props}
        err = apply(edits)
        if err:
            rec["tests"] = "error: " + err
        else:
            bad, msg = ([], "") if skip_tests else tests()
            if bad is None:
                rec["tests"] = "build: " + msg[-300:]
            elif bad:
                rec["tests"] = f"killed by {len(bad)}: {bad[:2]}"
            else:
                rec["tests"] = "survived"
                rec["checks"] = {}
                for prop in props.split():
                    t = time.time()
                    res = sh(
                        f"./check {prop}",
                        cwd=VERIF,
                        env={"VERIF_REPO": str(REPO), "VERIF_SEED": "1"},
                    )
                    rec["checks"][prop] = [
                        res.returncode,
                        round(time.time() - t, 1),
                        res.stdout.strip().splitlines()[-3:],
                    ]
        with out.open("a") as handle:
            handle.write(json.dumps(rec) + "\n")
        codes = {p: c[0] for p, c in rec.get("checks", {}).items()}
        print(name, rec["tests"][:150], codes, flush=True)
    sh("git checkout -q -- .", cwd=REPO)


if __name__ == "__main__":
    main()
