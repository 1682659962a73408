"""C28: progress output."""

import logging
import math
import re

import numpy as np
from clock import FakeClock
from engine import Sub, Violation
from gen import (
    build,
    build_ce,
    build_solution,
    gen_penalties,
    gen_routes,
    gen_spec,
)
from props.c24 import gen_params
from pyvrp import (
    Client,
    Depot,
    IteratedLocalSearchCallbacks,
    Location,
    ProblemData,
    Result,
    Solution,
    Statistics,
    VehicleType,
    solve,
)
from pyvrp.ProgressPrinter import ProgressPrinter
from ref import SolutionRef
from sutil import no_late_release

RULE = (
    "A case is a random history of calls on a progress printer under a "
    "controlled clock, or a solver run with its display on or off, whose "
    "log lines are parsed and compared with a model of what was to be shown. "
    "Non-trivial: at least one iteration line was to be shown, or hidden."
)


class Capture(logging.Handler):
    """Collects what is logged, instead of printing it."""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines += record.getMessage().splitlines() or [""]

    def __enter__(self):
        self.logger = logging.getLogger("pyvrp")
        self.old = self.logger.handlers[:]
        self.logger.handlers[:] = []
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *exc):
        logging.getLogger().removeHandler(self)
        self.logger.handlers[:] = self.old

    def take(self):
        lines, self.lines = self.lines, []
        return lines


def parse_line(line):
    """(mark, iteration, elapsed, [cost, OK?] * 3)"""
    left, sep, right = line.partition("|")
    if not sep:
        raise Violation(f"not an iteration line: {line!r}")
    left, right = left.split(), right.split()
    mark = left.pop(0) if left and not left[0].isdigit() else ""
    if len(left) != 2 or len(right) != 6 or not left[1].endswith("s"):
        raise Violation(f"not an iteration line: {line!r}")
    vals = []
    for i in range(0, 6, 2):
        vals += [int(right[i]), {"Y": True, "N": False}[right[i + 1]]]
    return mark, int(left[0]), float(left[1][:-1]), vals


def is_restart(line):
    return line.startswith("R") and "restart" in line


def check_start(ctx, lines, spec):
    text = "\n".join(lines)
    counts = {
        "depot": len(spec.depots),
        "client": len(spec.clients),
        "shipment": len(spec.shipments),
        "vehicle": sum(v.num for v in spec.vtypes),
        "vehicle type": len(spec.vtypes),
    }
    for what, num in counts.items():
        more = "" if num == 1 else "s"
        ctx.ok(
            re.search(rf"(?<![\d.]){num} {what}{more}(?!\w| type)", text),
            lambda: f"no '{num} {what}{more}' in {text!r}",
        )


def check_end(ctx, lines, res):
    text = "\n".join(lines)
    summary = res.summary().splitlines()
    for line in summary:
        ctx.ok(line in lines, lambda line=line: f"{line!r} is not shown")
    first = summary[0]
    ctx.ok(
        [x for x in lines[lines.index(first) :] if x.strip()]
        == [x for x in summary if x.strip()],
        lambda: f"the summary is shown as {lines}",
    )
    head = "\n".join(lines[: lines.index(first)])
    ctx.ok(
        re.search(rf"(?<!\d){res.num_iterations} iterations", head),
        lambda: f"{res.num_iterations} iterations not in {text!r}",
    )
    ctx.ok(
        re.search(rf"(?<!\d){re.escape(f'{res.runtime:.2f}')}s", head),
        lambda: f"runtime {res.runtime} not in {text!r}",
    )
    cost = re.search(r"cost (\S+?)\.?$", head, re.MULTILINE)
    ctx.ok(cost, lambda: f"no cost in {text!r}")
    ctx.eq("final cost", float(cost.group(1)), float(res.cost()))


def printer(d, ctx, num=None):
    spec = gen_spec(d, max_clients=4, max_ships=2)
    data = build(spec)
    sols = []
    for _ in range(d.int(1, 4)):
        routes = gen_routes(
            d, spec, p_visit=d.choice([0.95, 0.5]), complete=d.bool()
        )
        sols.append((build_solution(data, routes), SolutionRef(spec, routes)))
    enabled = d.bool(0.85)
    interval = d.choice([0.0, 1.0, 5.0, 0.25, 2])
    best_shown = math.inf
    with FakeClock() as clock, Capture() as log:
        stats = Statistics(collect_stats=d.bool(0.85))
        prog = ProgressPrinter(enabled, interval)
        last = began = clock.now
        count, row = 0, None
        for _ in range(d.int(1, 12) if num is None else num):
            kind = d.weighted(
                [
                    (6, "iteration"),
                    (2, "silent"),
                    (2, "wait"),
                    (1, "restart"),
                    (1, "start"),
                    (1, "end"),
                ]
            )
            clock.now += d.choice([0.0, 0.25, 1.0, 0.125, 4.75, 5.0, 63.0])
            if kind in ("iteration", "silent"):
                pen = gen_penalties(d, spec)
                idx = [d.int(0, len(sols) - 1) for _ in range(3)]
                curr, cand, best = (sols[i][0] for i in idx)
                stats.collect(curr, cand, best, build_ce(pen))
                count += 1
                row = []
                for i in idx:
                    ref = sols[i][1]
                    row += [ref.penalised(pen), ref.feasible]
                elapsed = clock.now - began
            if kind == "iteration":
                prog.iteration(stats)
                lines = log.take()
                wait = clock.now - last
                shows = enabled and stats.is_collecting()
                if shows and wait == interval != 0 and not lines:
                    continue  # at exactly the interval: either is fine
                shows = shows and wait >= interval
                ctx.eq("lines shown", len(lines), int(shows))
                ctx.nontrivial = True
                if shows:
                    ctx.label("shown")
                    mark, num, secs, vals = parse_line(lines[0])
                    ctx.eq("iteration", num, count)
                    ctx.ok(
                        abs(secs - elapsed) <= 0.5 + 1e-9,
                        f"{secs} s shown after {elapsed} s",
                    )
                    ctx.eq("costs", vals, row)
                    new = vals[5] and vals[4] < best_shown
                    ctx.eq("mark", mark, "H" if new else "")
                    if new:
                        best_shown = vals[4]
                    last = clock.now
                elif enabled and stats.is_collecting():
                    ctx.label("too early")
                else:
                    ctx.label("disabled")
            elif kind == "restart":
                prog.restart()
                lines = log.take()
                ctx.eq("restart lines", len(lines), int(enabled))
                ctx.ok(all(map(is_restart, lines)), lambda: f"{lines}")
            elif kind == "start":
                prog.start(data)
                lines = log.take()
                ctx.eq("text at the start", bool(lines), enabled)
                if enabled:
                    check_start(ctx, lines, spec)
            elif kind == "end":
                res = Result(
                    d.choice(sols)[0],
                    stats,
                    d.choice([count, 0, 123]),
                    d.choice([0.0, 0.25, 12.125, 3600.0, 172800.5, 1e6]),
                )
                prog.end(res)
                lines = log.take()
                ctx.eq("text at the end", bool(lines), enabled)
                if enabled:
                    check_end(ctx, lines, res)
            ctx.eq("stray output", log.take(), [])
    ctx.note(spec=spec, enabled=enabled, interval=interval, count=count)
    ctx.raises("interval -0.5", ProgressPrinter, enabled, -0.5)


class Watch(IteratedLocalSearchCallbacks):
    """Advances the clock, and notes what happened."""

    def __init__(self, clock, steps):
        self.clock, self.steps = clock, steps
        self.events, self.iters = [], 0

    def on_restart(self, best):
        self.events.append(("R", None))

    def on_iteration(self, current, candidate, best, cost_evaluator):
        # The time this iteration was reported is the current time.
        self.iters += 1
        self.events.append(("I", self.clock.now))
        self.clock.now += self.steps[self.iters % len(self.steps)]


class Stop:
    def __init__(self, iters):
        self.left = iters

    def __call__(self, best):
        self.left -= 1
        return self.left < 0


def run(d, ctx, iters=None):
    spec = gen_spec(
        d, max_clients=5, max_ships=2, min_acts=1, forbid=("huge",)
    )
    no_late_release(spec)
    data = build(spec)
    make, note = gen_params(d)
    interval = d.choice([0.0, 1.0, 5.0, 0.5])
    display, collect = d.bool(0.85), d.bool(0.85)
    steps = [d.choice([0.5, 0.25, 0.0, 1.25]) for _ in range(d.int(1, 3))]
    seed = d.int(0, 1000)
    if iters is None:
        iters = d.int(0, 12)
    ctx.note(
        spec=spec, params=note, interval=interval, display=display, steps=steps
    )
    with FakeClock() as clock, Capture() as log:
        watch = Watch(clock, steps)
        began = clock.now
        res = solve(
            data,
            Stop(iters),
            seed,
            collect,
            display,
            make(watch, interval),
        )
    lines = log.take()
    ctx.nontrivial = True
    if not display:
        ctx.label("off")
        ctx.eq("output", lines, [])
        return
    if not collect:
        ctx.label("no statistics")
    # Split into start, middle and end.
    mid = [
        i
        for i, line in enumerate(lines)
        if is_restart(line) or re.match(r"^[^|]*\d+s\s*\|", line)
    ]
    ends = [i for i, x in enumerate(lines) if "erminated" in x]
    ctx.eq("number of end texts", len(ends), 1)
    head = mid[0] if mid else ends[0]
    check_start(ctx, lines[:head], spec)
    check_end(ctx, lines[ends[0] :], res)
    got = lines[head : ends[0]]
    while got and not got[-1].strip():
        got.pop()
    pos, last, best_shown, num = 0, began, math.inf, 0
    for kind, now in watch.events:
        if kind == "R":
            ctx.label("restart")
            ctx.ok(
                pos < len(got) and is_restart(got[pos]),
                lambda: f"no restart line at {pos} in {got}",
            )
            pos += 1
            continue
        num += 1
        if not collect or now - last < interval:
            continue
        if now - last == interval != 0 and (
            pos == len(got)
            or is_restart(got[pos])
            or parse_line(got[pos])[1] != num
        ):
            continue
        ctx.label("shown")
        ctx.ok(pos < len(got), lambda: f"iteration {num} not shown in {got}")
        mark, shown, secs, vals = parse_line(got[pos])
        pos += 1
        ctx.eq("iteration", shown, num)
        row = res.stats.data[num - 1]
        want = [
            row.current_cost,
            row.current_feas,
            row.candidate_cost,
            row.candidate_feas,
            row.best_cost,
            row.best_feas,
        ]
        ctx.eq("costs", vals, want)
        ctx.ok(abs(secs - (now - began)) <= 0.5 + 1e-9, f"{secs} s shown")
        new = vals[5] and vals[4] < best_shown
        ctx.eq("mark", mark, "H" if new else "")
        if new:
            best_shown = vals[4]
        last = now
    ctx.eq("further lines", got[pos:], [])


def long_printer(d, ctx):
    printer(d, ctx, d.int(30, 250))


def very_long(d, ctx):
    """The time shown is that of all iterations, however many there were."""
    num = d.int(8_000, 30_000)
    step = d.choice([0.25, 1.0, 2.0])
    mat = np.array([[0, 1], [1, 0]])
    data = ProblemData(
        [Location(0, 0), Location(1, 1)],
        [Client(1)],
        [Depot(0)],
        [VehicleType()],
        [mat],
        [mat],
    )
    sol = Solution(data, [[0]])
    with FakeClock() as clock, Capture() as log:
        stats = Statistics()
        interval = step * d.choice([1000, 4000]) + step / 2
        prog = ProgressPrinter(True, interval)
        began = last = clock.now
        ce = build_ce(([], 1, 1))
        for idx in range(1, num + 1):
            clock.now += step
            stats.collect(sol, sol, sol, ce)
            prog.iteration(stats)
            lines = log.take()
            shows = clock.now - last >= interval
            ctx.eq("lines shown", len(lines), int(shows))
            if shows:
                _, shown, secs, _ = parse_line(lines[0])
                ctx.eq("iteration", shown, idx)
                ctx.ok(
                    abs(secs - (clock.now - began)) <= 0.5 + 1e-9,
                    lambda secs=secs: f"{secs} s shown at {idx}",
                )
                last = clock.now
    ctx.note(num=num, step=step, interval=interval)
    ctx.nontrivial = True


def long_run(d, ctx):
    run(d, ctx, d.int(30, 250))


SUBS = [
    Sub("printer", printer, 6000, 120_000),
    Sub("run", run, 3000, 60_000),
    Sub("long_printer", long_printer, 150, 3000),
    Sub("long_run", long_run, 100, 2000),
    Sub("very_long", very_long, 4, 40),
]
