"""
Systematic mutants: one small syntactic change each, at random places of the
whole repository. As run.py, but the changes are generated.

usage: auto.py <number> <seed> <worker> <workers>   (work in /tmp/mc<worker>)
"""

import json
import random
import re
import subprocess
import sys
import time
from pathlib import Path

import run

CHECKS = [
    (r"cpp/search/Route\.", "C09 C10 C11 C13 C27"),
    (r"cpp/search/Solution\.", "C13 C11 C12 C27"),
    (r"cpp/search/LocalSearch\.", "C11 C27 C24"),
    (r"cpp/search/(Perturb|SearchSpace)", "C12 C11 C26"),
    (r"cpp/search/neighbourhood", "C14"),
    (r"cpp/search/bindings", "C27 C09 C10 C11 C12 C13 C14"),
    (r"cpp/search/.*Segment", "C09 C10 C11"),
    (r"cpp/search/", "C10 C11 C27"),
    (r"cpp/Route", "C01 C02 C04 C07 C05"),
    (r"cpp/Solution", "C03 C04 C07 C25"),
    (r"cpp/CostEvaluator", "C05 C10 C13"),
    (r"cpp/(Duration|Load)Segment", "C08 C01 C02 C09 C10"),
    (r"cpp/(DynamicBitset|Random|Activity|Piecewise)", "C23 C12 C07 C06 C25"),
    (r"cpp/(Matrix|Measure)", "C06 C08 C01 C02"),
    (r"cpp/bindings", "C06 C07 C23 C27 C01 C03 C05 C04"),
    (r"cpp/", "C06 C07"),
    (r"IteratedLocalSearch", "C15 C24 C28"),
    (r"Model", "C18"),
    (r"PenaltyManager", "C16 C26"),
    (r"ProgressPrinter", "C28"),
    (r"Result|RingBuffer|Statistics", "C22 C15"),
    (r"cli", "C20"),
    (r"minimise_fleet", "C21"),
    (r"plotting", "C29"),
    (r"read", "C19 C20"),
    (r"solve", "C26 C24"),
    (r"stop/", "C17"),
    (r"search/.*\.py", "C11 C26 C14 C24"),
]

SWAPS = [
    (" < ", " <= "),
    (" <= ", " < "),
    (" > ", " >= "),
    (" >= ", " > "),
    (" == ", " != "),
    (" != ", " == "),
    (" + ", " - "),
    (" - ", " + "),
    (" += ", " -= "),
    (" -= ", " += "),
    (" * ", " + "),
    ("std::max", "std::min"),
    ("std::min", "std::max"),
    ("max(", "min("),
    ("min(", "max("),
    (" && ", " || "),
    (" || ", " && "),
    (" and ", " or "),
    (" or ", " and "),
    ("not ", ""),
    ("(!", "("),
    ("true", "false"),
    ("false", "true"),
    ("True", "False"),
    ("False", "True"),
    ("any(", "all("),
    ("all(", "any("),
    ("any_of", "all_of"),
    ("all_of", "any_of"),
    ("continue", "break"),
    ("break", "continue"),
    ("Early", "Late"),
    ("Late", "Early"),
    ("early", "late"),
    ("late", "early"),
    ("pickup", "delivery"),
    ("delivery", "pickup"),
    ("istance", "uration"),
    ("uration", "istance"),
    ("start", "end"),
    ("Start", "End"),
    ("End", "Start"),
    ("begin()", "end()"),
    ("front()", "back()"),
    ("back()", "front()"),
    ("before(", "after("),
    ("after(", "before("),
    ("n(", "p("),
    ("p(", "n("),
    ("[0]", "[1]"),
    ("[1]", "[0]"),
    ("[-1]", "[0]"),
    ("[i]", "[0]"),
    ("[idx]", "[0]"),
    ("[dim]", "[0]"),
    (" 0", " 1"),
    (" 1", " 0"),
    (" 1", " 2"),
    ("(0", "(1"),
    ("++", "--"),
    ("route()", "route() && false"),
    ("size()", "size() - 1"),
    ("clients", "shipments"),
    ("Client", "Shipment"),
    ("U", "V"),
    ("V", "U"),
    ("frm", "to"),
    ("frmPos", "toPos"),
    ("first", "last"),
]


def code_lines(path, text):
    """Indices of lines with code worth changing."""
    out, block = [], False
    for i, line in enumerate(text.splitlines()):
        s = line.strip()
        if path.endswith(".py"):
            if s.count('"""') == 1:
                block = not block
                continue
            if s.count('"""') == 2 or block:
                continue
            if not s or s[0] in "#@" or re.match(
                r"(import|from|def|class|raise|msg|return$|\)|\]|else)", s
            ):
                continue
        else:
            if s.startswith("/*"):
                block = "*/" not in s
                continue
            if block:
                block = "*/" not in s
                continue
            if not s or re.match(
                r"(//|#|\*|assert|throw|template|using|namespace|public|"
                r"private|class|struct|\{|\}|else|PYVRP|py::arg|DOC|static_as)",
                s,
            ):
                continue
            if "PYVRP" in s or "DOC(" in s or "py::arg" in s:
                continue
        out.append(i)
    return out


def mutate(rng, path, text):
    lines = text.splitlines(keepends=True)
    cand = code_lines(path, text)
    if not cand:
        return None
    for _ in range(50):
        i = rng.choice(cand)
        line = lines[i]
        code = re.split(r"//|  # ", line)[0]
        if rng.random() < 0.12:
            s = code.strip()
            if path.endswith(".py"):
                indent = len(code) - len(code.lstrip())
                ok = re.match(r"[\w.\[\]]+(\(.*\)| [+-]?= .*)$", s)
                if not ok or s.count("(") != s.count(")"):
                    continue
                new = " " * indent + "pass\n"
            else:
                if not re.match(
                    r"[\w.\[\]>()-]+(\(.*\)| [+-]?= .*);$", s
                ) or s.startswith("return"):
                    continue
                new = "\n"
            desc = "delete"
        elif rng.random() < 0.15 and re.search(r"\bif \(.*\)$", code.rstrip()):
            new = re.sub(r"\bif \((.*)\)$", r"if (!(\1))", code.rstrip()) + "\n"
            desc = "negate"
        elif rng.random() < 0.15 and re.search(r"\bif .*:$", code.rstrip()):
            new = re.sub(r"\bif (.*):$", r"if not (\1):", code.rstrip()) + "\n"
            desc = "negate"
        else:
            poss = []
            for old, rep in SWAPS:
                for m in re.finditer(re.escape(old), code):
                    if old in ("U", "V") and re.search(
                        r"\w", code[m.start() - 1] + code[m.end() : m.end() + 1]
                    ):
                        continue
                    if old in ("n(", "p(") and (
                        code[m.start() - 1].isalnum()
                        or code[m.start() - 1] in "_.>"
                    ):
                        continue
                    if old[-1].isdigit() and code[m.end() : m.end() + 1] in (
                        ".0123456789xu"
                    ):
                        continue
                    poss.append((m.start(), old, rep))
            if not poss:
                continue
            at, old, rep = rng.choice(poss)
            new = line[:at] + rep + line[at + len(old) :]
            desc = f"{old.strip()} -> {rep.strip()}"
        if new == line:
            continue
        return i, line, new, desc
    return None


def main():
    number, seed, worker, workers = map(int, sys.argv[1:5])
    only = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
    run.WORK = Path(f"/tmp/mc{worker}")
    run.REPO = run.WORK / "repo"
    run.VERIF = run.WORK / "verif"
    run.prepare()
    files = subprocess.run(
        "git ls-files pyvrp", shell=True, cwd=run.REPO, text=True,
        capture_output=True,
    ).stdout.split()
    files = [
        f
        for f in files
        if re.search(r"\.(cpp|h|py)$", f)
        and not re.search(r"__init__|show_versions|logging|exceptions", f)
        and (only is None or only.search(f))
    ]
    texts = {f: (run.REPO / f).read_text() for f in files}
    weights = [len(code_lines(f, texts[f])) ** 0.7 for f in files]
    rng = random.Random(seed)
    seen, plan = set(), []
    while len(plan) < number:
        f = rng.choices(files, weights)[0]
        got = mutate(rng, f, texts[f])
        if got is None or (f, got[0], got[2]) in seen:
            continue
        seen.add((f, got[0], got[2]))
        plan.append((f, *got))
    out = run.WORK / f"auto-{seed}.jsonl"
    done = set()
    if out.exists():
        done = {json.loads(x)["n"] for x in out.read_text().splitlines()}
    for n, (f, i, old, new, desc) in enumerate(plan):
        if n % workers != worker or n in done:
            continue
        lines = texts[f].splitlines(keepends=True)
        lines[i] = new
        (run.REPO / f).write_text("".join(lines))
        rec = {
            "n": n, "file": f, "line": i + 1, "desc": desc,
            "old": old.strip(), "new": new.strip(),
        }
        try:
            bad, msg = run.tests(quick=True)
        except subprocess.TimeoutExpired:
            bad, msg = ["timeout"], ""
        if bad is None:
            rec["result"] = "build"
        elif bad:
            rec["result"] = "tests"
        else:
            rec["result"] = "MISSED"
            rec["checks"] = {}
            props = next(p for pat, p in CHECKS if re.search(pat, f))
            for prop in props.split():
                t = time.time()
                res = run.sh(
                    f"./check {prop}",
                    cwd=run.VERIF,
                    env={"VERIF_REPO": str(run.REPO), "VERIF_SEED": "1"},
                )
                rec["checks"][prop] = [res.returncode, int(time.time() - t)]
                if res.returncode:
                    rec["result"] = f"caught {prop} {res.returncode}"
                    break
        (run.REPO / f).write_text(texts[f])
        with out.open("a") as handle:
            handle.write(json.dumps(rec) + "\n")
        print(n, rec["result"], f, i + 1, desc, "|", old.strip(), flush=True)


main()
