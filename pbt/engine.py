"""
A small property-based testing engine.

A case is generated from a *choice sequence*: every random decision is a
recorded non-negative integer in a known range, with 0 the simplest value. That
makes every case replayable from its integers alone, and shrinkable by deleting,
zeroing and lowering integers without knowing anything about the structure of
what is generated.

Cases run in forked worker processes. A crash (abort, segfault) or a case that
burns too much CPU time is attributed to the case that was running, confirmed in
a fresh process, and reported like any other violation.
"""

import ctypes
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
CTX = mp.get_context("fork")

CASE_CPU_LIMIT = 100  # seconds of CPU time for one case before it is a hang
SOFT_DEADLINE = 600  # wall seconds after which no new cases are started


class Violation(Exception):
    """Raised by a check when the property does not hold."""


class Discard(Exception):
    """Raised by a generator when a case is not usable."""


class Draw:
    """
    Source of choices: either fresh random ones, or replayed ones.
    """

    def __init__(self, seed=None, choices=None):
        self._rng = random.Random(seed) if choices is None else None
        self._given = choices
        self._pos = 0
        self.record = []

    def _next(self, bound: int, fresh) -> int:
        """A choice in [0, bound]."""
        if self._given is not None:
            if self._pos < len(self._given):
                val = min(self._given[self._pos], bound)
            else:
                val = 0
            self._pos += 1
        else:
            val = fresh(self._rng) if bound > 0 else 0
        self.record.append(val)
        return val

    def int(self, lo: int, hi: int) -> int:
        """Uniform in [lo, hi]; lo is simplest."""
        assert lo <= hi, (lo, hi)
        return lo + self._next(hi - lo, lambda r: r.randint(0, hi - lo))

    def bool(self, p: float = 0.5) -> bool:
        return bool(self._next(1, lambda r: int(r.random() < p)))

    def choice(self, seq):
        assert len(seq) > 0
        return seq[self._next(len(seq) - 1, lambda r: r.randrange(len(seq)))]

    def weighted(self, pairs):
        """Pairs of (weight, value); the first is simplest."""
        weights = [w for w, _ in pairs]

        def fresh(r):
            return r.choices(range(len(pairs)), weights)[0]

        return pairs[self._next(len(pairs) - 1, fresh)][1]

    def small(self, lo: int, hi: int) -> int:
        """In [lo, hi], skewed towards lo."""

        def fresh(r):
            return int((hi - lo + 1) * r.random() ** 2.5)

        return lo + self._next(hi - lo, fresh)

    def shuffle(self, seq) -> list:
        """A permutation; all-zero choices give the identity."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self._next(
                len(seq) - 1 - i, lambda r, i=i: r.randint(0, len(seq) - 1 - i)
            )
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k: int) -> list:
        return self.shuffle(seq)[:k]

    def subset(self, seq, p: float = 0.5) -> list:
        return [x for x in seq if self.bool(p)]

    def float(self, lo: float, hi: float, steps: int = 1000) -> float:
        return lo + (hi - lo) * self.int(0, steps) / steps

    def seed(self) -> int:
        return self.int(0, 2**31 - 1)


class Ctx:
    """What a case tells the engine about itself."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.notes = {}
        self.checks = 0
        self.findings = set()

    def finding(self, key: str):
        """Reports a defect that is listed in KNOWN_FINDINGS.txt."""
        self.findings.add(key)

    def label(self, *names):
        self.labels.update(names)

    def note(self, **kwargs):
        self.notes.update(kwargs)

    def eq(self, what: str, got, want):
        self.checks += 1
        if got != want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    def ok(self, cond, what):
        self.checks += 1
        if not cond:
            raise Violation(what() if callable(what) else what)

    def raises(self, what: str, fn, *args, **kwargs):
        self.checks += 1
        try:
            res = fn(*args, **kwargs)
        except (
            ValueError,
            IndexError,
            TypeError,
            RuntimeError,
            KeyError,
            OverflowError,
            NotImplementedError,
        ):
            return
        raise Violation(f"{what}: no exception was raised, got {res!r}")


class Sub:
    def __init__(self, name, fn, quick, thorough=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25


def case_seed(seed: int, prop: str, sub: str, idx: int) -> int:
    data = f"{seed}:{prop}:{sub}:{idx}".encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), "big")


def jsonable(obj, depth=0):
    if depth > 12:
        return repr(obj)
    if isinstance(obj, (str, bool, type(None))):
        return obj
    if isinstance(obj, int):
        return obj if abs(obj) < 2**53 else str(obj)
    if isinstance(obj, float):
        return obj
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v, depth + 1) for v in obj]
    if hasattr(obj, "to_json"):
        return jsonable(obj.to_json(), depth + 1)
    return str(obj)


def _is_harness_error(exc) -> bool:
    """
    Errors that come from the harness itself rather than the code under test.
    """
    if isinstance(exc, (ImportError, NameError, SyntaxError, MemoryError)):
        kind = True
    else:
        kind = isinstance(exc, AttributeError)
    if not kind:
        return False
    tb = traceback.extract_tb(exc.__traceback__)
    return not (tb and "/pyvrp/" in tb[-1].filename)


def run_one(sub: Sub, draw: Draw):
    """
    Runs one case. Returns (status, message, ctx) with status one of "ok",
    "discard", "violation", "error".
    """
    ctx = Ctx()
    try:
        sub.fn(draw, ctx)
    except Violation as exc:
        return "violation", str(exc), ctx
    except Discard:
        return "discard", "", ctx
    except Exception as exc:
        text = traceback.format_exc()
        if _is_harness_error(exc):
            return "error", text, ctx
        return "violation", f"unexpected exception: {text}", ctx
    return "ok", "", ctx


def _worker(subs, plan, counter, current, cpu, conn, seed, prop, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    stats = {
        "evaluations": 0,
        "discards": 0,
        "checks": 0,
        "labels": {},
        "digests": set(),
        "samples": [],
        "per_sub": {},
        "findings": set(),
    }
    try:
        while True:
            if time.monotonic() > deadline:
                stats["deadline"] = True
                break
            with counter.get_lock():
                idx = counter.value
                if idx >= len(plan):
                    break
                counter.value = idx + 1
            sub_idx, case_idx = plan[idx]
            sub = subs[sub_idx]
            cpu.value = time.process_time()
            current.value = idx
            draw = Draw(case_seed(seed, prop, sub.name, case_idx))
            status, msg, ctx = run_one(sub, draw)
            current.value = -1
            stats["checks"] += ctx.checks
            stats["findings"] |= ctx.findings
            if status in ("violation", "error"):
                conn.send((status, idx, msg, draw.record))
                continue
            stats["evaluations"] += 1
            per = stats["per_sub"].setdefault(sub.name, [0, 0])
            per[0] += 1
            if status == "discard":
                stats["discards"] += 1
                continue
            for label in ctx.labels:
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if ctx.nontrivial:
                per[1] += 1
                rec = repr((sub.name, draw.record)).encode()
                stats["digests"].add(
                    hashlib.blake2b(rec, digest_size=8).digest()
                )
                if case_idx < 40:
                    stats["samples"].append(
                        (
                            case_idx,
                            sub_idx,
                            {
                                "check": sub.name,
                                "case": case_idx,
                                "choices": len(draw.record),
                                **jsonable(ctx.notes),
                            },
                        )
                    )
                    stats["samples"].sort(key=lambda s: s[:2])
                    del stats["samples"][6:]
    except BaseException:
        conn.send(("error", -1, traceback.format_exc(), []))
    conn.send(("done", stats))
    conn.close()
    os._exit(0)


FAULTS = {
    signal.SIGSEGV,
    signal.SIGABRT,
    signal.SIGBUS,
    signal.SIGFPE,
    signal.SIGILL,
}


def _perturb(byte):
    """Freed memory is filled with the byte (M_PERTURB is -6)."""
    if byte:
        ctypes.CDLL(None).mallopt(-6, byte)


def _in_child(fn, cpu_limit=CASE_CPU_LIMIT):
    """
    Runs fn() in a forked child. Returns (kind, value): ("value", result),
    ("crash", signal number) or ("hang", None).
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            if cpu_limit:
                resource.setrlimit(
                    resource.RLIMIT_CPU, (cpu_limit, cpu_limit + 5)
                )
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            data = pickle.dumps(fn())
            with os.fdopen(wfd, "wb") as out:
                out.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as inp:
        data = inp.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU, signal.SIGKILL) and cpu_limit:
            return "hang", None
        return "crash", sig
    if not data:
        return "crash", 0
    return "value", pickle.loads(data)


def attempt(
    sub: Sub, choices, isolate: bool, cpu_limit=CASE_CPU_LIMIT, perturb=0
):
    """
    Replays choices. Returns (fails, message, record, notes).
    """

    def go():
        _perturb(perturb)
        draw = Draw(choices=choices)
        status, msg, ctx = run_one(sub, draw)
        return status, msg, draw.record, jsonable(ctx.notes)

    if not isolate:
        status, msg, rec, notes = go()
        return status == "violation", msg, rec, notes

    kind, val = _in_child(go, cpu_limit)
    if kind == "value":
        status, msg, rec, notes = val
        return status == "violation", msg, rec, notes
    if kind == "hang":
        return True, f"no result within {cpu_limit} s of CPU time", choices, {}
    return True, f"the process died with signal {val}", choices, {}


def shrink(sub: Sub, choices, message, isolate, budget_s=40, max_tries=3000):
    """
    Greedy shrinking: delete chunks, zero chunks, lower single values.
    """
    best = list(choices)
    best_msg = message
    t_end = time.monotonic() + budget_s
    tries = 0
    hang = message.startswith("no result")
    if hang:
        return best, best_msg  # each attempt would cost the full CPU limit

    def good(cand):
        nonlocal tries, best, best_msg
        tries += 1
        fails, msg, rec, _ = attempt(sub, cand, isolate, 20)
        if not fails:
            return False
        rec = list(rec)
        if (len(rec), rec) < (len(best), best):
            best, best_msg = rec, msg
            return True
        if (len(cand), cand) < (len(best), best):
            best, best_msg = list(cand), msg
            return True
        return False

    def out():
        return tries >= max_tries or time.monotonic() > t_end

    improved = True
    while improved and not out():
        improved = False
        size = max(len(best) // 2, 1)
        while size >= 1 and not out():
            pos = 0
            while pos < len(best) and not out():
                if good(best[:pos] + best[pos + size :]):
                    improved = True
                else:
                    pos += size
            size //= 2
        size = max(len(best) // 2, 1)
        while size >= 1 and not out():
            pos = 0
            while pos < len(best) and not out():
                chunk = best[pos : pos + size]
                if any(chunk):
                    cand = best[:pos] + [0] * len(chunk) + best[pos + size :]
                    improved |= good(cand)
                pos += size
            size //= 2
        pos = 0
        while pos < len(best) and not out():
            lo, hi = 0, best[pos]
            while lo < hi and not out():
                mid = (lo + hi) // 2
                if good(best[:pos] + [mid] + best[pos + 1 :]):
                    improved = True
                    if pos >= len(best):
                        break
                    hi = min(mid, best[pos])
                else:
                    lo = mid + 1
            pos += 1
    return best, best_msg


def _cpu_of(pid: int) -> float:
    try:
        fields = Path(f"/proc/{pid}/stat").read_text().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def explore(prop: str, subs, seed: int, tier: str, workers: int, max_cases=0):
    """
    Runs all cases. Returns (failures, errors, stats).
    """
    plan = []
    for sub_idx, sub in enumerate(subs):
        num = sub.quick if tier == "quick" else sub.thorough
        if max_cases:
            num = min(num, max_cases)
        plan += [((i + 0.5) / num, sub_idx, i) for i in range(num)]
    # Interleave the sub-checks, so that an early stop covers all of them.
    plan = [(s, i) for _, s, i in sorted(plan)]

    soft = SOFT_DEADLINE if tier == "quick" else 6 * 3600
    deadline = time.monotonic() + soft
    counter = CTX.Value(ctypes.c_longlong, 0)
    failures, errors = [], []
    total = {
        "evaluations": 0,
        "discards": 0,
        "checks": 0,
        "labels": {},
        "digests": set(),
        "samples": [],
        "per_sub": {},
        "findings": set(),
        "planned": len(plan),
        "crashes": 0,
    }
    procs = {}

    def start():
        current = CTX.Value(ctypes.c_longlong, -1)
        cpu = CTX.Value(ctypes.c_double, 0.0)
        recv, send = CTX.Pipe(duplex=False)
        proc = CTX.Process(
            target=_worker,
            args=(
                subs,
                plan,
                counter,
                current,
                cpu,
                send,
                seed,
                prop,
                deadline,
            ),
        )
        proc.start()
        send.close()
        procs[recv] = (proc, current, cpu)

    for _ in range(workers):
        start()

    def merge(stats):
        for key in ("evaluations", "discards", "checks"):
            total[key] += stats[key]
        for key, val in stats["labels"].items():
            total["labels"][key] = total["labels"].get(key, 0) + val
        for key, (a, b) in stats["per_sub"].items():
            per = total["per_sub"].setdefault(key, [0, 0])
            per[0] += a
            per[1] += b
        total["digests"] |= stats["digests"]
        total["findings"] |= stats["findings"]
        total["samples"] += stats["samples"]
        if stats.get("deadline"):
            total["deadline"] = True

    def record_of(idx, perturb=0):
        # The choices of a crashed case: redo only its generation is not
        # possible without running it, so replay from its seed in a child that
        # streams the choices.
        sub_idx, case_idx = plan[idx]
        sub = subs[sub_idx]
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            resource.setrlimit(
                resource.RLIMIT_CPU, (CASE_CPU_LIMIT, CASE_CPU_LIMIT + 5)
            )
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            _perturb(perturb)
            draw = Draw(case_seed(seed, prop, sub.name, case_idx))
            orig = draw._next

            def streaming(bound, fresh):
                val = orig(bound, fresh)
                os.write(wfd, f"{val}\n".encode())
                return val

            draw._next = streaming
            try:
                status, msg, _ = run_one(sub, draw)
                os.write(wfd, f"={status}\n".encode())
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as inp:
            lines = inp.read().decode().split("\n")
        _, status = os.waitpid(pid, 0)
        choices = [int(x) for x in lines if x and not x.startswith("=")]
        fin = [x for x in lines if x.startswith("=")]
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGXCPU, signal.SIGKILL):
                msg = f"no result within {CASE_CPU_LIMIT} s of CPU time"
            else:
                msg = f"the process died with signal {sig}"
            return choices, msg
        if fin == ["=violation"]:
            return choices, "violation on rerun"
        return choices, None

    stopping = False
    while procs:
        ready = wait(list(procs), timeout=1.0)
        for conn in ready:
            proc, current, _ = procs[conn]
            try:
                msg = conn.recv()
            except (EOFError, OSError):
                proc.join()
                del procs[conn]
                conn.close()
                if stopping:
                    continue
                idx = current.value
                total["crashes"] += 1
                if idx < 0 or proc.exitcode == -signal.SIGKILL and not getattr(
                    proc, "hung", False
                ):
                    errors.append(
                        f"worker ended unexpectedly ({proc.exitcode}), "
                        f"case {idx}"
                    )
                else:
                    # What freed or uninitialised memory holds depends on what
                    # ran before, so a fault need not come back at once.
                    for perturb in (0, 90, 1, 165, 255):
                        choices, text = record_of(idx, perturb)
                        if text:
                            break
                    if text:
                        failures.append((idx, text, choices, True))
                    elif -proc.exitcode in FAULTS:
                        text = (
                            "the process died with signal "
                            f"{-proc.exitcode}, but not when the case ran "
                            "again by itself"
                        )
                        failures.append((idx, text, choices, True))
                    else:
                        errors.append(
                            f"case {plan[idx]} died once "
                            f"({proc.exitcode}), not reproduced"
                        )
                stopping = True
                continue
            if msg[0] == "done":
                merge(msg[1])
                proc.join()
                del procs[conn]
                conn.close()
            elif msg[0] == "violation":
                failures.append((msg[1], msg[2], msg[3], False))
                stopping = True
            else:
                errors.append(msg[2])
                stopping = True
        if stopping:
            with counter.get_lock():
                counter.value = len(plan)
        for conn, (proc, current, cpu) in list(procs.items()):
            if current.value < 0:
                continue
            if _cpu_of(proc.pid) - cpu.value > CASE_CPU_LIMIT:
                if not getattr(proc, "hung", False):
                    proc.hung = True
                    if stopping:
                        proc.kill()
                    else:
                        proc.kill()

    failures.sort(key=lambda f: f[0])
    out = []
    for idx, msg, choices, isolate in failures:
        sub_idx, case_idx = plan[idx]
        out.append((subs[sub_idx], case_idx, msg, choices, isolate))
    return out, errors, total


def write_replay(prop, sub, seed, case_idx, choices, message, notes) -> Path:
    dirp = VERIF / "replays"
    dirp.mkdir(exist_ok=True)
    digest = hashlib.blake2b(
        repr((prop, sub.name, choices)).encode(), digest_size=5
    ).hexdigest()
    path = dirp / f"{prop}-{sub.name}-{digest}.json"
    path.write_text(
        json.dumps(
            {
                "property": prop,
                "check": sub.name,
                "seed": seed,
                "case": case_idx,
                "message": message,
                "choices": choices,
                "input": notes,
            },
            indent=1,
        )
    )
    return path


def known_findings(prop: str) -> dict:
    """Listed findings of a property, by key."""
    out = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    for line in path.read_text().splitlines():
        head = f"known: property={prop} key="
        if line.startswith(head):
            key, text = line[len(head) :].split(" ", 1)
            out[key] = text
    return out


def main(prop: str, subs, rule: str, assumptions=(), argv=None) -> int:
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("--replay")
    parser.add_argument("--workers", type=int, default=os.cpu_count() or 8)
    parser.add_argument("--max-cases", type=int, default=0)
    parser.add_argument("--only")
    args = parser.parse_args(argv)

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    by_name = {sub.name: sub for sub in subs}

    if args.replay:
        rep = json.loads(Path(args.replay).read_text())
        sub = by_name[rep["check"]]
        for perturb in (0, 90, 1, 165, 255):
            fails, msg, _, notes = attempt(
                sub, rep["choices"], True, perturb=perturb
            )
            if fails or "died with signal" not in rep["message"]:
                break
        print(json.dumps(notes, indent=1))
        if fails:
            print(msg)
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("not reproduced")
        return 0

    if args.only:
        subs = [by_name[name] for name in args.only.split(",")]

    # Temporary files live in one directory, which is removed even when a case
    # dies.
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    tempfile.tempdir = scratch
    try:
        return _main(prop, subs, rule, assumptions, args, seed, tier)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, subs, rule, assumptions, args, seed, tier) -> int:
    t_start = time.monotonic()
    failures, errors, stats = explore(
        prop, subs, seed, tier, args.workers, args.max_cases
    )

    violations = 0
    code = 0
    known = known_findings(prop)
    for key in sorted(stats["findings"]):
        if key not in known:
            errors.append(f"finding {key} is not listed")
            continue
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    seen = set()
    for sub, case_idx, msg, choices, isolate in failures:
        if sub.name in seen or len(seen) >= 2:
            violations += 1
            continue
        seen.add(sub.name)
        violations += 1
        small, small_msg = shrink(sub, choices, msg, True)
        _, final_msg, _, notes = attempt(sub, small, True)
        path = write_replay(
            prop, sub, seed, case_idx, small, final_msg or small_msg, notes
        )
        print(f"--- {prop}/{sub.name} case {case_idx}")
        print(json.dumps(notes)[:4000])
        print((final_msg or small_msg)[-3000:])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        code = 1

    if errors and code == 0:
        for err in errors[:3]:
            print(f"HARNESS ERROR {prop}: {err}", file=sys.stderr)
        code = 2

    if stats["evaluations"] == 0 and code == 0:
        print(f"HARNESS ERROR {prop}: nothing was evaluated", file=sys.stderr)
        code = 2

    samples = sorted(stats["samples"], key=lambda s: s[:2])
    picked, have = [], set()
    for _, sub_idx, sample in samples:
        if sub_idx not in have:
            have.add(sub_idx)
            text = json.dumps(sample)
            if len(text) > 15_000:  # keeps the evidence file below 1 MB
                sample = {"characters": len(text), "begins": text[:4_000]}
            picked.append(sample)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(stats["digests"]),
            "rule": rule,
            "samples": picked[:8],
            "oracle_comparisons": stats["checks"],
            "discarded": stats["discards"],
            "planned": stats["planned"],
            "per_check": {
                k: {"evaluations": a, "nontrivial": b}
                for k, (a, b) in sorted(stats["per_sub"].items())
            },
            "classes": dict(sorted(stats["labels"].items())),
            "deadline_reached": bool(stats.get("deadline")),
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": violations,
    }
    if not args.only:
        evdir = VERIF / "evidence"
        evdir.mkdir(exist_ok=True)
        (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    cov = evidence["coverage"]
    print(
        f"{prop} {tier} seed={seed}: {cov['evaluations']} cases, "
        f"{cov['distinct_nontrivial']} distinct non-trivial, "
        f"{cov['oracle_comparisons']} comparisons, {evidence['wall_s']} s, "
        f"exit {code}"
    )
    return code
