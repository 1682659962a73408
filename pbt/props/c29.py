"""C29: plots show the data they are given."""

import warnings
from collections import Counter
from itertools import pairwise

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from clock import FakeClock  # noqa: E402
from engine import Sub, Violation  # noqa: E402
from gen import (  # noqa: E402
    build,
    build_ce,
    build_route,
    build_solution,
    gen_penalties,
    gen_route,
    gen_routes,
    gen_spec,
    large,
)
from matplotlib.collections import LineCollection  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from pyvrp import Result, Statistics, plotting  # noqa: E402
from ref import RouteRef, SolutionRef, split_trips, stop_of  # noqa: E402

RULE = (
    "A case is a random instance, solution, route or result drawn on an "
    "off-screen figure, whose drawn points, bars, lines and areas are read "
    "back and compared with the reference model. Non-trivial: at least one "
    "visit, client or iteration is drawn."
)


class Axes:
    """New or given axes; closed afterwards."""

    def __init__(self, given):
        self.given = given

    def __enter__(self):
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter("ignore")
        plt.close("all")
        self.ax = Figure().add_subplot() if self.given else None
        return self

    def __exit__(self, *exc):
        plt.close("all")
        self.warn.__exit__(*exc)

    def get(self):
        if self.ax is None:
            figs = plt.get_fignums()
            if len(figs) != 1:
                raise Violation(f"{len(figs)} figures were opened")
            return plt.figure(figs[0]).axes[0]
        if plt.get_fignums():
            raise Violation("a figure was opened though axes were given")
        return self.ax


def offsets(ax, label):
    """Points scattered with this label, as a multiset."""
    out = Counter()
    for coll in ax.collections:
        if coll.get_label() == label:
            out.update(tuple(map(float, p)) for p in coll.get_offsets())
    return out


def points(spec, locs):
    return Counter(tuple(map(float, spec.locs[i])) for i in locs)


def bars(ax):
    """(x, bottom, height), sorted by x."""
    out = [
        (p.get_x() + p.get_width() / 2, float(p.get_y()), float(p.get_height()))
        for p in ax.patches
    ]
    return sorted(out)


def line(ax, label):
    lines = [x for x in ax.lines if x.get_label() == label]
    if len(lines) != 1:
        raise Violation(f"{len(lines)} lines with label {label!r}")
    return xy(lines[0])


def xy(line):
    return [
        (float(a), float(b))
        for a, b in zip(
            np.asarray(line.get_xdata()), np.asarray(line.get_ydata())
        )
    ]


def check_coordinates(ctx, spec, ax):
    ctx.eq(
        "depots",
        offsets(ax, "Depot"),
        points(spec, [x.loc for x in spec.depots]),
    )
    ctx.eq(
        "clients",
        offsets(ax, "Clients"),
        points(spec, [x.loc for x in spec.clients]),
    )
    ctx.eq(
        "pickups",
        offsets(ax, "Pickups"),
        points(spec, [x.p_loc for x in spec.shipments]),
    )
    ctx.eq(
        "deliveries",
        offsets(ax, "Deliveries"),
        points(spec, [x.d_loc for x in spec.shipments]),
    )


def check_demands(ctx, spec, dim, ax):
    got = bars(ax)
    want = sorted(c.delivery[dim] for c in spec.clients)
    ctx.eq("bars", [round(x, 6) for x, _, _ in got], list(range(len(want))))
    ctx.eq("demands", [h for _, _, h in got], [float(x) for x in want])
    ctx.ok(all(b == 0 for _, b, _ in got), "bars do not start at zero")


def check_windows(ctx, spec, ax):
    got = bars(ax)
    want = sorted((c.early, c.late) for c in spec.clients)
    ctx.eq("bars", [round(x, 6) for x, _, _ in got], list(range(len(want))))
    for (_, bottom, height), (early, late) in zip(got, want):
        ctx.eq("opening time", bottom, float(early))
        ctx.eq("window length", height, float(late - early))


def instance(d, ctx):
    spec = gen_spec(d, max_clients=5, max_ships=2, forbid=("huge",))
    data = build(spec)
    kind = d.choice(["coordinates", "windows", "demands", "instance"])
    ctx.note(spec=spec, kind=kind)
    ctx.label(kind)
    ctx.nontrivial = bool(spec.clients or spec.shipments)
    title = d.choice([None, "my title"])
    args = {} if title is None else {"title": title}
    if kind == "instance":
        if not spec.dims:
            return
        with Axes(False):
            fig = d.choice([None, Figure()])
            plotting.plot_instance(data, fig=fig)
            if fig is None:
                ctx.eq("figures", len(plt.get_fignums()), 1)
                fig = plt.figure(plt.get_fignums()[0])
            ctx.eq("subplots", len(fig.axes), 3)
            by_title = {x.get_title()[:7]: x for x in fig.axes}
            check_windows(ctx, spec, by_title["Time wi"])
            check_demands(ctx, spec, 0, by_title["Demands"])
            check_coordinates(ctx, spec, by_title["Coordin"])
        return
    with Axes(d.bool(0.7)) as axes:
        if kind == "coordinates":
            plotting.plot_coordinates(data, ax=axes.ax, **args)
            check_coordinates(ctx, spec, axes.get())
        elif kind == "windows":
            plotting.plot_time_windows(data, ax=axes.ax, **args)
            check_windows(ctx, spec, axes.get())
        else:
            dim = d.int(0, spec.dims)
            if dim == spec.dims:
                ctx.raises(
                    "load dimension", plotting.plot_demands, data, dim
                )
                return
            plotting.plot_demands(data, dim, ax=axes.ax, **args)
            check_demands(ctx, spec, dim, axes.get())
        if title is not None:
            ctx.eq("title", axes.get().get_title(), title)


def check_solution(ctx, spec, routes, ref, ax, locations):
    ctx.eq(
        "depots",
        offsets(ax, "Depot"),
        points(spec, [x.loc for x in spec.depots]),
    )

    def point(loc):
        return tuple(map(float, spec.locs[loc]))

    arrows, legs, free = Counter(), Counter(), Counter()
    for idx, (vt_idx, acts) in enumerate(routes):
        vt = spec.vtypes[vt_idx]
        ends = [vt.start, *(i for k, i in acts if k == "D"), vt.end]
        dots = []
        for trip, (a, b) in zip(split_trips(acts), pairwise(ends)):
            start, end = spec.depots[a].loc, spec.depots[b].loc
            locs = [stop_of(spec, x).loc for x in trip]
            if not locs:
                free[frozenset((point(start), point(end)))] += 1
                continue
            if locations or len(locs) == 1:
                dots += locs
            arrows[point(start), point(locs[0])] += 1
            for x, y in pairwise([*locs, end]):
                legs[frozenset((point(x), point(y)))] += 1
        ctx.eq(
            f"dots of route {idx}",
            offsets(ax, f"Route {idx + 1}"),
            points(spec, dots),
        )
    got_arrows = Counter(
        (tuple(map(float, t.xyann)), tuple(map(float, t.xy))) for t in ax.texts
    )
    got_legs = Counter(
        frozenset((x, y)) for ln in ax.lines for x, y in pairwise(xy(ln))
    )
    got_legs -= Counter(
        {k: max(got_legs[k] - legs[k], 0) and v for k, v in free.items()}
    )
    ctx.eq("arrows from depots", got_arrows, arrows)
    ctx.eq("legs", got_legs, legs)
    away = [stop_of(spec, x).loc for x in ref.unplanned] if locations else []
    ctx.eq("unvisited", offsets(ax, "Unvisited"), points(spec, away))


def solution(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=2, forbid=("huge",))
    data = build(spec)
    routes = gen_routes(d, spec, p_visit=d.choice([0.95, 0.5]))
    sol = build_solution(data, routes)
    ref = SolutionRef(spec, routes)
    locations = d.bool()
    ctx.note(spec=spec, routes=routes, locations=locations)
    ctx.nontrivial = any(not r.empty for r in ref.routes)
    if any(r.num_trips > 1 for r in ref.routes):
        ctx.label("trips")
    with Axes(d.bool(0.7)) as axes:
        plotting.plot_solution(sol, data, locations, axes.ax)
        check_solution(ctx, spec, routes, ref, axes.get(), locations)


def check_objectives(ctx, rows, skip, cost, adjust, ax):
    for pos, label in enumerate(["Current", "Candidate", "Best"]):
        want = [
            (float(i + 1), float(row[pos])) for i, row in enumerate(rows)
        ][skip:]
        ctx.eq(label, line(ax, label), want)
    if cost is not None and 0 < cost < 10**12:
        lo, hi = ax.get_ylim()
        want = [cost * adjust[0], cost * adjust[1]]
        ctx.ok(np.allclose([lo, hi], want), f"limits {lo, hi}, not {want}")


def check_runtimes(ctx, times, ax):
    want = [(float(i + 1), t) for i, t in enumerate(times)]
    lines = [xy(x) for x in ax.lines]
    ctx.ok(want in lines, f"no line of the runtimes in {lines}")
    lines.remove(want)
    if len(times) > 1:
        ctx.eq("number of trend lines", len(lines), 1)
        # Least squares, by hand.
        n = len(times)
        mx, my = (n + 1) / 2, sum(times) / n
        var = sum((x - mx) ** 2 for x, _ in want)
        slope = sum((x - mx) * (y - my) for x, y in want) / var
        tol = 1e-6 * (1 + max(times))
        if [x for x, _ in lines[0]] == list(range(n)):
            # Listed in KNOWN_FINDINGS.txt: drawn one iteration early.
            ctx.finding("trend-line-position")
            lines[0] = [(x + 1, y) for x, y in lines[0]]
        xs = [x for x, _ in lines[0]]
        ctx.ok(min(xs) == 1 and max(xs) == n, f"trend line over {xs}")
        for x, y in lines[0]:
            ctx.ok(
                abs(y - (my + slope * (x - mx))) <= tol,
                f"trend line is {y} at iteration {x}",
            )


def result(d, ctx):
    spec = gen_spec(d, max_clients=4, max_ships=1, forbid=("huge",))
    data = build(spec)
    sols = []
    for _ in range(d.int(1, 3)):
        routes = gen_routes(d, spec, p_visit=d.choice([0.95, 0.5]))
        sols.append((build_solution(data, routes), routes))
    refs = [SolutionRef(spec, routes) for _, routes in sols]
    rows, times = [], []
    with FakeClock() as clock:
        stats = Statistics()
        for _ in range(d.choice([3, 1, 0, 2, 25, 45])):
            pen = gen_penalties(d, spec)
            idx = [d.int(0, len(sols) - 1) for _ in range(3)]
            step = d.choice([0.5, 0.125, 0.0, 3.0])
            clock.now += step
            stats.collect(*(sols[i][0] for i in idx), build_ce(pen))
            rows.append([refs[i].penalised(pen) for i in idx])
            times.append(step)
    best = d.int(0, len(sols) - 1)
    res = Result(sols[best][0], stats, len(rows), 1.0)
    cost = refs[best].cost() if refs[best].feasible else None
    kind = d.choice(["objectives", "runtimes", "result"])
    ctx.label(kind)
    ctx.note(spec=spec, kind=kind, rows=rows, times=times)
    ctx.nontrivial = bool(rows)
    adjust = (0.99, 1.05)
    skip = int(0.05 * len(rows))
    if kind == "result":
        with Axes(False):
            fig = d.choice([None, Figure()])
            plotting.plot_result(res, data, fig)
            if fig is None:
                ctx.eq("figures", len(plt.get_fignums()), 1)
                fig = plt.figure(plt.get_fignums()[0])
            ctx.eq("subplots", len(fig.axes), 3)
            ax = {x.get_title()[:4]: x for x in fig.axes}
            check_objectives(ctx, rows, skip, cost, adjust, ax["Obje"])
            check_runtimes(ctx, times, ax["Iter"])
            check_solution(
                ctx, spec, sols[best][1], refs[best], ax["Solu"], False
            )
        return
    with Axes(d.bool(0.7)) as axes:
        if kind == "runtimes":
            plotting.plot_runtimes(res, axes.ax)
            check_runtimes(ctx, times, axes.get())
            return
        args = {}
        if d.bool():
            skip = args["num_to_skip"] = d.int(0, len(rows))
        if d.bool():
            adjust = args["ylim_adjust"] = (0.5, 2.0)
        plotting.plot_objectives(res, ax=axes.ax, **args)
        check_objectives(ctx, rows, skip, cost, adjust, axes.get())


def dedup(pts):
    out = []
    for p in pts:
        p = (float(p[0]), float(p[1]))
        if not out or out[-1] != p:
            out.append(p)
    return out


def schedule(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=2, forbid=("huge",))
    vt_idx, acts = gen_route(d, spec)
    data = build(spec)
    route = build_route(data, vt_idx, acts)
    vt = spec.vtypes[vt_idx]
    ref = RouteRef(spec, vt_idx, acts)
    if vt.start_late < spec.depots[vt.start].early:
        return  # when the route starts is then not specified
    sched = ref.schedule()
    if not all(x[-1] for x in sched):
        return
    dim = d.int(0, spec.dims)
    ctx.note(spec=spec, vehicle_type=vt_idx, acts=acts, dimension=dim)
    ctx.nontrivial = not ref.empty
    if ref.num_trips > 1:
        ctx.label("trips")

    dist, dur = spec.dist[vt.profile], spec.dur[vt.profile]
    stops = [spec.depots[vt.start]]
    stops += [stop_of(spec, a) for a in acts]
    stops += [spec.depots[vt.end]]
    time, drive, both, windows, warps, loads = [], [], [], [], [], []
    total = driven = serviced = 0
    for pos, (stop, row) in enumerate(zip(stops, sched)):
        _, _, _, begin, end, wait, warp, _ = row
        if pos:
            total += dist[stops[pos - 1].loc][stop.loc]
            driven += dur[stops[pos - 1].loc][stop.loc]
        time += [(total, begin - wait), (total, begin), (total, end)]
        drive += [(total, driven)]
        both += [(total, driven + serviced)]
        serviced += end - begin
        both += [(total, driven + serviced)]
        windows.append((total, stop.early, stop.late))
        if warp:
            warps.append((total, begin, begin + warp))
    if dim < spec.dims:
        # Load carried on each leg.
        trips = split_trips(acts)

        def packed(trip):
            return sum(
                spec.clients[i].delivery[dim] for k, i in trip if k == "C"
            )

        load, at, num = vt.initial[dim] + packed(trips[0]), 0, 0
        for pos, stop in enumerate(stops[1:]):
            nxt = at + dist[stops[pos].loc][stop.loc]
            loads.append((at, nxt, load))
            at = nxt
            if pos == len(acts):
                break
            kind, i = acts[pos]
            if kind == "C":
                c = spec.clients[i]
                load += c.pickup[dim] - c.delivery[dim]
            elif kind == "P":
                load += spec.shipments[i].amount[dim]
            elif kind == "X":
                load -= spec.shipments[i].amount[dim]
            else:
                num += 1
                load = packed(trips[num])

    title, legend = d.choice([None, "my title"]), d.bool(0.7)
    with Axes(d.bool(0.7)) as axes:
        plotting.plot_route_schedule(
            data, route, dim, legend, title, axes.ax
        )
        ax = axes.get()
        ctx.eq("time", dedup(line(ax, "Time (earliest)")), dedup(time))
        ctx.eq("drive time", dedup(line(ax, "Drive time")), dedup(drive))
        ctx.eq(
            "drive and service time",
            dedup(line(ax, "Drive + service time")),
            dedup(both),
        )
        lo, hi = ax.get_ylim()
        ctx.ok(
            warps  # then some times may lie before the first
            or lo <= min(t for _, t in time)
            and hi >= max(t for _, t in time),
            f"time axis limits {lo, hi} hide part of {time}",
        )
        segs = {"Time window": [], "Time warp": []}
        for coll in ax.collections:
            if isinstance(coll, LineCollection):
                segs[coll.get_label()] += [
                    [tuple(map(float, p)) for p in seg]
                    for seg in coll.get_segments()
                ]
        for label, want in [("Time window", windows), ("Time warp", warps)]:
            want = [
                [(float(x), float(a)), (float(x), float(b))]
                for x, a, b in want
            ]
            ctx.eq(label, sorted(map(sorted, segs[label])), sorted(want))
        slack = [c for c in ax.collections if c.get_label() == "Time (slack)"]
        ctx.eq("slack is drawn", len(slack), int(route.slack() > 0))
        if slack:
            verts = [
                tuple(map(float, v))
                for p in slack[0].get_paths()
                for v in p.vertices
            ]
            for x, t in time:
                ctx.ok(
                    (float(x), float(t + route.slack())) in verts,
                    f"slack {route.slack()} not drawn at {x}",
                )
        areas = [
            c
            for other in ax.figure.axes
            for c in other.collections
            if c.get_label() == "Load in vehicle"
        ]
        ctx.eq("load is drawn", len(areas), int(dim < spec.dims))
        if areas:
            verts = {
                tuple(map(float, v))
                for p in areas[0].get_paths()
                for v in p.vertices
            }
            for a, b, load in loads:
                ctx.ok(
                    (float(a), float(load)) in verts
                    and (float(b), float(load)) in verts,
                    f"load {load} not drawn from {a} to {b}",
                )
        ctx.eq("title", ax.get_title(), title or "")
        ctx.eq("legend", ax.get_legend() is not None, legend)


SUBS = [
    Sub("instance", instance, 1200),
    Sub("solution", solution, 1500),
    Sub("result", result, 1200),
    Sub("schedule", schedule, 2000),
    Sub("large_solution", large(solution), 200),
]
