"""
Lifetime mutants: each `keep_alive` of the bindings removed and each
`reference_internal` turned into `reference`, one at a time, against C27.

usage: lifetime.py      (work in /tmp/mc2; resumable)
"""

import json
import re
import time
from pathlib import Path

import run

FILES = ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/search/bindings.cpp"]


def main():
    run.WORK = Path("/tmp/mc2")
    run.REPO = run.WORK / "repo"
    run.VERIF = run.WORK / "verif"
    run.prepare()
    out = run.WORK / "lifetime.jsonl"
    done = set()
    if out.exists():
        done = {json.loads(x)["at"] for x in out.read_text().splitlines()}
    for name in FILES:
        path = run.REPO / name
        text = path.read_text()
        for m in re.finditer(
            r",\s*py::keep_alive<\d, \d>\(\)|(?<=py::return_value_policy::)"
            r"reference_internal",
            text,
        ):
            line = text.count("\n", 0, m.end()) + 1
            at = f"{name}:{line}"
            if at in done or (name == FILES[0] and line < 446):
                continue  # done, or text and lists of numbers: copies
            new = "reference" if "internal" in m.group() else ""
            path.write_text(text[: m.start()] + new + text[m.end() :])
            t = time.time()
            res = run.sh(
                "./check C27",
                cwd=run.VERIF,
                env={"VERIF_REPO": str(run.REPO), "VERIF_SEED": "1"},
            )
            path.write_text(text)
            rec = {
                "at": at,
                "what": m.group().strip(" ,\n"),
                "code": text.splitlines()[line - 3 : line],
                "exit": res.returncode,
                "time": round(time.time() - t),
                "out": (res.stdout + res.stderr).strip()[-300:],
            }
            with out.open("a") as handle:
                handle.write(json.dumps(rec) + "\n")
            print(at, rec["what"], res.returncode, rec["time"], flush=True)


if __name__ == "__main__":
    main()
