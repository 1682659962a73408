"""C22: statistics, history buffer and results."""

import csv
import math
import os
import tempfile

from clock import FakeClock
from engine import Sub
from gen import (
    build,
    build_ce,
    build_solution,
    gen_penalties,
    gen_routes,
    gen_spec,
    giant,
    large,
    routes_of,
    to_act,
)
from pyvrp import Result, Statistics
from pyvrp.RingBuffer import RingBuffer
from ref import SolutionRef

RULE = (
    "A case is a random instance with random solutions fed to a statistics "
    "object (and through CSV), a random operation history on a ring buffer, "
    "or a random result. Non-trivial: at least one record was collected, one "
    "value appended, or one route present."
)


def gen_solutions(d, num):
    spec = gen_spec(d, max_clients=5, max_ships=2)
    data = build(spec)
    routes = [
        gen_routes(d, spec, p_visit=d.choice([0.95, 0.5]), complete=d.bool())
        for _ in range(num)
    ]
    return spec, [(r, build_solution(data, r)) for r in routes]


def collect(d, ctx, num=None):
    spec, sols = gen_solutions(d, d.int(1, 4))
    collecting = d.bool(0.85)
    want, times = [], []
    plan = []
    with FakeClock() as clock:
        stats = Statistics(collect_stats=collecting)
        ctx.eq("is_collecting", stats.is_collecting(), collecting)
        for _ in range(d.int(0, 6) if num is None else num):
            pen = gen_penalties(d, spec)
            idx = [d.int(0, len(sols) - 1) for _ in range(3)]
            step = d.choice([0.5, 0.125, 0.0, 3.0])
            plan.append((pen, idx, step))
            clock.now += step
            curr, cand, best = (sols[i][1] for i in idx)
            stats.collect(curr, cand, best, build_ce(pen))
            row = []
            for i in idx:
                ref = SolutionRef(spec, sols[i][0])
                row += [ref.penalised(pen), ref.feasible]
            want.append(row)
            times.append(step)
    ctx.note(spec=spec, plan=plan, collecting=collecting)
    if not collecting:
        want, times = [], []
    ctx.nontrivial = len(plan) > 0
    check_stats(ctx, stats, want, times)

    # And through a file.
    quoting = d.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
    delim = d.choice([",", ";", "\t", "|"])
    fd, name = tempfile.mkstemp(suffix=".csv")
    os.close(fd)
    try:
        stats.to_csv(name, delimiter=delim, quoting=quoting)
        again = Statistics.from_csv(name, delimiter=delim)
        with open(name, newline="") as fh:
            raw = list(csv.DictReader(fh, delimiter=delim))
    finally:
        os.unlink(name)
    check_stats(ctx, again, want, times)
    ctx.eq("number of lines in file", len(raw), len(want))
    for line, row in zip(raw, want):
        keys = [
            f"{who}_{what}"
            for who in ("current", "candidate", "best")
            for what in ("cost", "feas")
        ]
        ctx.eq("line", [int(line[k]) for k in keys], [int(x) for x in row])
    if collecting:
        ctx.label("collecting")
        ctx.eq("statistics equal after round trip", again == stats, True)
        if want:
            # Statistics that differ anywhere are not equal.
            how = d.choice(["datum", "feas", "time", "swap", "data", "count"])
            at = d.int(0, len(want) - 1)
            other = d.int(0, len(want) - 1)
            if how == "datum":
                datum = again.data[at]
                field = d.choice(["current", "candidate", "best"]) + "_cost"
                more = d.choice([1, -1, 2**32])
                setattr(datum, field, getattr(datum, field) + more)
            elif how == "feas":
                datum = again.data[at]
                field = d.choice(["current", "candidate", "best"]) + "_feas"
                setattr(datum, field, not getattr(datum, field))
            elif how == "time":
                again.runtimes[at] += d.choice([1.0, 2**-20])
            elif how == "swap":
                again.runtimes[at], again.runtimes[other] = (
                    again.runtimes[other],
                    again.runtimes[at],
                )
            elif how == "data":
                again.data[at], again.data[other] = (
                    again.data[other],
                    again.data[at],
                )
            else:
                again.num_iterations += 1
            same = (
                again.runtimes == stats.runtimes
                and again.data == stats.data
                and how != "count"
            )
            ctx.eq(f"statistics with other {how}", again == stats, same)
    else:
        ctx.label("not collecting")


def long_collect(d, ctx):
    collect(d, ctx, d.int(30, 300))


def long_csv(d, ctx):
    csv_exact(d, ctx, d.int(50, 1500))


def check_stats(ctx, stats, want, times):
    got = [
        [
            x.current_cost,
            x.current_feas,
            x.candidate_cost,
            x.candidate_feas,
            x.best_cost,
            x.best_feas,
        ]
        for x in stats
    ]
    ctx.eq("records", got, want)
    ctx.eq("types", [type(x) for r in got for x in r], [int, bool] * 3 * len(got))
    ctx.eq("data", len(stats.data), len(want))
    ctx.eq("num_iterations", stats.num_iterations, len(want))
    ctx.eq("number of runtimes", len(stats.runtimes), len(want))
    for got_t, want_t in zip(stats.runtimes, times):
        ctx.ok(abs(got_t - want_t) < 1e-6, f"runtime {got_t} != {want_t}")


def csv_exact(d, ctx, num=None):
    """Extreme values survive the file."""
    ctx.nontrivial = True
    from pyvrp.Statistics import _Datum

    stats = Statistics()
    for _ in range(d.int(1, 5) if num is None else num):

        def cost():
            return d.choice([0, 1, 2**63 - 1, 2**53 + 1, d.int(0, 10**6), -7])

        stats.data.append(
            _Datum(cost(), d.bool(), cost(), d.bool(), cost(), d.bool())
        )
        stats.runtimes.append(
            d.choice([0.1, 1 / 3, 1e-9, 123456.789012345, d.float(0, 1)])
        )
        stats.num_iterations += 1
    fd, name = tempfile.mkstemp(suffix=".csv")
    os.close(fd)
    try:
        stats.to_csv(name)
        again = Statistics.from_csv(name)
    finally:
        os.unlink(name)
    ctx.note(data=[repr(x) for x in stats.data])
    ctx.eq("data", list(again), list(stats))
    ctx.eq("runtimes", again.runtimes, stats.runtimes)
    ctx.eq("equal", again == stats, True)


def ring(d, ctx):
    """A ring buffer is an array with a moving position."""
    size = d.weighted([(6, d.int(1, 6)), (1, d.int(7, 40))])
    buf = RingBuffer(maxlen=size)
    slots = [None] * size
    pos = 0
    ops = []
    for step in range(d.int(0, 30 if size < 7 else 4 * size)):
        op = d.weighted([(5, "append"), (3, "skip"), (0.4, "clear")])
        ops.append(op)
        if op == "append":
            val = d.choice([step + 1, 0, "", False])
            buf.append(val)
            slots[pos % size] = val
            pos += 1
            ctx.nontrivial = True
        elif op == "skip":
            buf.skip()
            pos += 1
        else:
            buf.clear()
            slots, pos = [None] * size, 0
        ctx.eq("peek", buf.peek(), slots[pos % size])
        ctx.eq("peek type", type(buf.peek()), type(slots[pos % size]))
        ctx.eq("len", len(buf), sum(x is not None for x in slots))
        ctx.eq("maxlen", buf.maxlen, size)
    ctx.note(size=size, ops=ops)
    # Walking once around reads back every slot, oldest position first.
    seen = []
    for _ in range(size):
        seen.append(buf.peek())
        buf.skip()
    want = [slots[(pos + i) % size] for i in range(size)]
    ctx.eq("contents", seen, want)


def printed(acts):
    return " ".join("|" if a[0] == "D" else str(to_act(a)) for a in acts)


def results(d, ctx):
    spec, sols = gen_solutions(d, 1)
    routes, sol = sols[0]
    ref = SolutionRef(spec, routes)
    iters = d.choice([0, 1, 10, 10**9])
    runtime = d.choice([0.0, 0, 1.5, 1e6, d.int(0, 10**7) / 64])
    ctx.note(spec=spec, routes=routes)
    ctx.nontrivial = len(routes) > 0
    ctx.label("feasible" if ref.feasible else "infeasible")
    stats = Statistics()
    res = Result(sol, stats, iters, runtime)
    ctx.eq("best", routes_of(res.best), routes)
    ctx.ok(res.stats is stats, "stats are the given ones")
    ctx.eq("num_iterations", res.num_iterations, iters)
    ctx.eq("runtime", res.runtime, runtime)
    ctx.eq("is_feasible", res.is_feasible(), ref.feasible)
    ctx.eq("cost", res.cost(), ref.cost() if ref.feasible else math.inf)
    for text in (res.summary(), str(res)):
        lines = dict(
            (x.strip() for x in line.split(":", 1))
            for line in text.splitlines()
            if ":" in line and not line.startswith("Route")
        )
        ctx.eq("# routes", int(lines["# routes"]), len(routes))
        ctx.eq("# trips", int(lines["# trips"]), ref.sum("num_trips"))
        ctx.eq("# clients", int(lines["# clients"]), len(ref.clients))
        ctx.eq("# shipments", int(lines["# shipments"]), len(ref.ships))
        ctx.eq("distance", int(lines["distance"]), ref.sum("distance"))
        ctx.eq("duration", int(lines["duration"]), ref.sum("duration"))
        ctx.eq("# iterations", int(lines["# iterations"]), iters)
        shown = float(lines["run-time"].split()[0])
        ctx.ok(
            abs(shown - runtime) <= 0.0051,
            lambda shown=shown: f"run-time {shown} for {runtime}",
        )
        want = str(ref.cost()) if ref.feasible else "INFEASIBLE"
        ctx.eq("objective", lines["objective"], want)
    for what, text in (("result", str(res)), ("solution", str(sol))):
        lines = [x for x in text.splitlines() if x.startswith("Route #")]
        want = [
            f"Route #{num}: {printed(acts)}"
            for num, (_, acts) in enumerate(routes, 1)
        ]
        ctx.eq(f"routes of the printed {what}", lines, want)
    for route, (_, acts) in zip(sol.routes(), routes):
        ctx.eq("printed route", str(route), printed(acts))
    ctx.raises("negative iterations", Result, sol, stats, -d.int(1, 9), 0.0)
    ctx.raises("negative runtime", Result, sol, stats, 1, -0.5 * d.int(1, 9))


SUBS = [
    Sub("collect", collect, 15000),
    Sub("csv_exact", csv_exact, 5000),
    Sub("long_collect", long_collect, 150),
    Sub("long_csv", long_csv, 100),
    Sub("ring", ring, 30000),
    Sub("results", results, 12000),
    Sub("large_results", large(results), 150),
    Sub("giant_results", giant(results), 30, 300),
]
