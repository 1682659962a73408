"""C20: solution files, and solving from the command line."""

import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import warnings
from pathlib import Path
from types import SimpleNamespace as NS

from engine import Discard, Sub
from gen import Spec, build_route, gen_routes, routes_of
from pyvrp import (
    CostEvaluator,
    Result,
    Solution,
    SolveParams,
    Statistics,
    read,
    read_solution,
    solve,
)
from pyvrp import cli
from pyvrp.stop import MaxIterations, MultipleCriteria, NoImprovement
from vrpfile import gen_file, large, round_arg

RULE = (
    "A case is a generated instance file with a random valid solution that is "
    "written, checked as text and read back; a faulty solution file; or a "
    "command line run that is compared with solving directly. Non-trivial: "
    "the solution has at least two visits, or the run at least one iteration."
)


class Scratch:
    def __enter__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="verif-c20-"))
        return self.dir

    def __exit__(self, *exc):
        shutil.rmtree(self.dir)


def spec_of(data):
    """Enough of a specification to generate solutions for an instance."""
    spec = Spec()
    spec.clients = [
        NS(required=c.required, group=c.group) for c in data.clients()
    ]
    spec.groups = [
        NS(clients=list(g.clients), required=g.required) for g in data.groups()
    ]
    spec.shipments = [NS(required=s.required) for s in data.shipments()]
    spec.depots = list(data.depots())
    spec.vtypes = [
        NS(
            num=v.num_available,
            reloads=list(v.reload_depots),
            max_reloads=v.max_reloads,
        )
        for v in data.vehicle_types()
    ]
    return spec


def instance(d, ctx, where):
    f, m = gen_file(d)
    path = where / "inst.vrp"
    path.write_text(f.text(d))
    ctx.note(rounding=f.rounding, text=path.read_text())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = read(path, round_arg(f.rounding))
    return f, m, path, data


def locations(data, acts):
    out = []
    for kind, idx in acts:
        if kind == "D":
            out.append(data.depot(idx).location)
        elif kind == "C":
            out.append(data.client(idx).location)
        elif kind == "P":
            out.append(data.shipment(idx).pickup.location)
        else:
            out.append(data.shipment(idx).delivery.location)
    return out


def parse(text):
    """Routes and cost of a solution file, by their number."""
    routes, cost = {}, None
    for line in text.splitlines():
        match = re.fullmatch(r"Route #(\d+):((?: \d+)*)\s*", line)
        if match:
            assert int(match[1]) not in routes
            routes[int(match[1])] = [int(x) for x in match[2].split()]
        elif line.strip():
            assert line.startswith("Cost: "), line
            cost = line.removeprefix("Cost: ").strip()
    return routes, cost


def canon(routes):
    return sorted((v, tuple(a)) for v, a in routes)


def check_text(ctx, data, routes, cost, text):
    got, got_cost = parse(text)
    ctx.eq("written cost", got_cost, str(round(cost, 2)))
    type_of = {}
    for idx, vt in enumerate(data.vehicle_types()):
        for v in vt.name.split(","):
            type_of[int(v)] = idx
    want = [(v, tuple(locations(data, a))) for v, a in routes]
    have = [
        (type_of[num - 1], tuple(visits))
        for num, visits in got.items()
        if visits
    ]
    ctx.eq("written routes", sorted(have), sorted(want))
    ctx.eq("route numbers", list(got), list(range(1, len(got) + 1)))


def round_trip(d, ctx):
    with Scratch() as where:
        f, m, path, data = instance(d, ctx, where)
        spec = spec_of(data)
        routes = gen_routes(
            d, spec, p_visit=d.choice([0.9, 0.6, 1.0]), complete=d.bool()
        )
        built = [build_route(data, v, a) for v, a in routes]
        sol = Solution(data, built)
        res = Result(sol, Statistics(), d.int(0, 5), 1.0)
        out = where / "inst.sol"
        cli.write_solution(out, data, res)
        ctx.note(routes=routes, written=out.read_text())
        check_text(ctx, data, routes, res.cost(), out.read_text())
        arg = out if d.bool() else str(out)
        again = read_solution(arg, data)
        ctx.ok(again == sol, "another solution is read back")
        ctx.eq("routes read back", canon(routes_of(again)), canon(routes))
        ctx.eq("distance", again.distance(), sol.distance())
        ctx.eq("feasible", again.is_feasible(), sol.is_feasible())
        ce = CostEvaluator([1] * data.num_load_dimensions, 1, 1)
        ctx.eq(
            "cost", ce.penalised_cost(again), ce.penalised_cost(sol)
        )
    ctx.nontrivial = sum(len(a) for _, a in routes) > 1
    if len(spec.vtypes) > 1:
        ctx.label("several types")
    if any(k == "D" for _, a in routes for k, _ in a):
        ctx.label("several trips")
    if m.pd:
        ctx.label("shipments")


def write_file(where, vehicles, data):
    """Writes routes by vehicle number."""
    lines = []
    for num, visits in enumerate(vehicles, 1):
        lines.append(f"Route #{num}: {' '.join(map(str, visits))}")
    where.write_text("\n".join(lines) + "\nCost: 10\n")


def faulty(d, ctx):
    """Solution files that describe no valid solution."""
    with Scratch() as where:
        f, m, path, data = instance(d, ctx, where)
        spec = spec_of(data)
        routes = gen_routes(d, spec, p_visit=0.9)
        free = [
            [int(v) for v in vt.name.split(",")] for vt in data.vehicle_types()
        ]
        vehicles = [[] for _ in range(data.num_vehicles)]
        for v, acts in routes:
            vehicles[free[v].pop(0)] = locations(data, acts)
        out = where / "inst.sol"
        write_file(out, vehicles, data)
        good = read_solution(out, data)
        ctx.eq("plain file", canon(routes_of(good)), canon(routes))
        used = [r for r in vehicles if r]
        if not used:
            raise Discard
        n = data.num_locations
        options = ["large", "negative", "text"]
        steps = [x for r in used for x in r if x >= data.num_depots]
        options += ["twice", "too many"]
        if m.pd:
            options += ["unpaired", "reversed"]
        if any(len(g) > 1 for g in m.groups):
            options.append("group")
        what = d.choice(options)
        route = d.choice(used)
        pos = d.int(0, len(route))
        if what == "large":
            route.insert(pos, n + d.int(0, 3))
        elif what == "negative":
            route.insert(pos, -d.int(1, n))
        elif what == "text":
            route.insert(pos, d.choice(["a", "1.5", "C0"]))
        elif what == "twice":
            d.choice(used).append(d.choice(steps))
        elif what == "too many":
            # A non-empty route on a vehicle that does not exist.
            step = steps[0]
            for r in used:
                if step in r:
                    r.remove(step)
            while len(vehicles) < data.num_vehicles:
                vehicles.append([])
            vehicles.append([step])
            if m.pd:
                raise Discard
        elif what == "unpaired":
            steps = [x for x in route if x >= data.num_depots]
            route.remove(d.choice(steps))
        elif what == "reversed":
            route.reverse()
        else:
            rows = [g for g in m.groups if len(g) > 1]
            grp = d.choice(rows)
            for i in grp[:2]:
                if not any(i in r for r in used):
                    d.choice(used).append(i)
            if sum(i in r for r in used for i in grp) < 2:
                raise Discard
        write_file(out, vehicles, data)
        ctx.note(fault=what, written=out.read_text())
        ctx.label("fault: " + what)
        ctx.nontrivial = True
        ctx.raises(f"fault {what}", read_solution, out, data)


def out_of_range(m):
    """
    Whether large values standing for forbidden travel may count as violations:
    their penalties add up to more than 64-bit costs can hold.
    """
    forbidden = m.vrpb or any(len(a) < m.n_cl for a in m.allowed)
    forbidden |= any(v > 10**9 for row in m.dist for v in row)
    return forbidden and (m.raw_windows or m.given_dist or m.given_dur)


def run_main(argv):
    """The program itself; what it prints."""
    out = io.StringIO()
    kept = sys.argv
    try:
        sys.argv = ["pyvrp", *argv]
        with (
            warnings.catch_warnings(),
            contextlib.redirect_stdout(out),
            contextlib.redirect_stderr(io.StringIO()),
        ):
            warnings.simplefilter("ignore")
            cli.main()
    finally:
        sys.argv = kept
    return out.getvalue()


def table_row(ctx, text, name):
    """The cells printed for an instance, after its name."""
    rows = []
    for line in text.splitlines():
        cells = line.rsplit(maxsplit=4)
        if len(cells) == 5 and cells[0].strip() == name:
            rows.append(cells[1:])
    ctx.eq("rows of the instance", len(rows), 1)
    return rows[0]


def command_line(d, ctx):
    with Scratch() as where:
        f, m, path, data = instance(d, ctx, where)
        if f.rounding == "double" or out_of_range(m):
            raise Discard
        if d.bool(0.3):
            path = path.rename(where / "some name.x.vrp")
        seed = d.int(0, 1000)
        iters = d.int(0, 3)
        noimp = d.choice([float("inf"), 1, 2])
        per_client = d.bool(0.3)
        stats_dir = where / "a" / "stats" if d.bool(0.6) else None
        sol_dir = where / "sols" if d.bool(0.8) else None
        argv = [str(path), "--seed", str(seed)]
        argv += ["--max_iterations", str(iters)]
        if f.rounding != "none" or d.bool():
            argv += ["--round_func", f.rounding]
        if noimp < float("inf"):
            argv += ["--no_improvement", str(noimp)]
        if per_client:
            argv.append("--per_client")
        if stats_dir:
            argv += ["--stats_dir", str(stats_dir)]
        if sol_dir:
            argv += ["--sol_dir", str(sol_dir)]
        params = SolveParams()
        if d.bool(0.4):
            conf = where / "conf.toml"
            conf.write_text(
                "display_interval = 2.0\n[ils]\nhistory_length = 2\n"
                "[penalty]\nmin_penalty = 3.0\nsolutions_between_updates = 2\n"
            )
            argv += ["--config_loc", str(conf)]
            params = SolveParams.from_file(conf)
        ctx.note(argv=argv[1:])
        out = run_main(argv)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            scale = data.num_clients if per_client else 1
            stop = [MaxIterations(iters * scale)]
            if noimp < float("inf"):
                stop.append(NoImprovement(noimp * scale))
            stop = MultipleCriteria(stop)
            want = solve(data, stop, seed, display=False, params=params)
        row = table_row(ctx, out, path.stem)
        ctx.eq("feasible", row[0], "Y" if want.is_feasible() else "N")
        ctx.eq("cost", float(row[1]), float(round(want.cost(), 2)))
        ctx.eq("iterations", int(row[2]), want.num_iterations)
        ctx.ok(float(row[3]) >= 0, "negative runtime")
        if sol_dir:
            out = sol_dir / (path.stem + ".sol")
            again = read_solution(out, data)
            ctx.ok(again == want.best, "another solution was written")
            check_text(
                ctx, data, routes_of(want.best), want.cost(), out.read_text()
            )
        if stats_dir:
            stats = Statistics.from_csv(stats_dir / (path.stem + ".csv"))
            got = [x[1:] if isinstance(x, tuple) else x for x in stats.data]
            exp = [x[1:] if isinstance(x, tuple) else x for x in want.stats.data]
            ctx.eq("statistics", got, exp)
        ctx.nontrivial = want.num_iterations > 0
    ctx.eq("scratch directory", os.path.exists(where), False)


def entry_point(d, ctx):
    """The program itself, over one or several instances."""
    with Scratch() as where:
        paths, wants = [], []
        num = 1 if d.bool(0.8) else d.int(2, 4)
        for i in range(num):
            f, m = gen_file(d)
            if out_of_range(m):
                raise Discard
            path = where / f"inst{i}.vrp"
            path.write_text(f.text(d))
            paths.append(path)
        seed, iters = d.int(0, 50), d.int(0, 2)
        func = d.choice(["round", "exact", "dimacs", "trunc"])
        argv = [*map(str, reversed(paths)), "--seed", str(seed)]
        argv += ["--round_func", func, "--max_iterations", str(iters)]
        argv += ["--sol_dir", str(where / "out")]
        params, noimp, per_client = SolveParams(), float("inf"), False
        stats_dir = None
        if d.bool(0.4):
            stats_dir = where / "stats"
            argv += ["--stats_dir", str(stats_dir)]
        if d.bool(0.3):
            noimp = d.int(0, 2)
            argv += ["--no_improvement", str(noimp)]
        if d.bool(0.3):
            per_client = True
            argv.append("--per_client")
        if d.bool(0.2):
            argv += ["--max_runtime", "1e9"]
        if d.bool(0.3):
            conf = where / "conf.toml"
            conf.write_text("[ils]\nhistory_length = 1\n[penalty]\n"
                            "min_penalty = 3.0\nmax_penalty = 5.0\n")
            argv += ["--config_loc", str(conf)]
            params = SolveParams.from_file(conf)
        if d.bool(0.3):
            argv += ["--num_procs", str(d.int(1, 3))]
        ctx.note(argv=argv, text=[p.read_text() for p in paths])
        out = run_main(argv)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            datas = [read(p, func) for p in paths]
        wants = []
        for x in datas:
            scale = x.num_clients if per_client else 1
            stop = [MaxIterations(iters * scale)]
            if noimp < float("inf"):
                stop.append(NoImprovement(noimp * scale))
            stop = MultipleCriteria(stop)
            wants.append(solve(x, stop, seed, display=False, params=params))
        for path, data, want in zip(paths, datas, wants):
            sol = read_solution(where / "out" / f"{path.stem}.sol", data)
            ctx.ok(sol == want.best, "another solution was written")
            row = table_row(ctx, out, path.stem)
            ctx.eq("feasible", row[0], "Y" if want.is_feasible() else "N")
            ctx.eq("cost", float(row[1]), float(round(want.cost(), 2)))
            ctx.eq("iterations", int(row[2]), want.num_iterations)
            if stats_dir:
                stats = Statistics.from_csv(stats_dir / (path.stem + ".csv"))
                ctx.eq("statistics", stats.data, want.stats.data)
        bad = sum(not w.is_feasible() for w in wants)
        for label, vals in (
            ("objective", [w.cost() for w in wants]),
            ("iterations", [w.num_iterations for w in wants]),
        ):
            line = [x for x in out.splitlines() if f"Avg. {label}" in x]
            ctx.eq(f"average {label}", len(line), 1)
            mean = sum(float(v) for v in vals) / len(vals)
            got = float(line[0].split()[-1])
            ctx.ok(
                got == mean or abs(got - mean) <= 0.5 + 1e-9 * mean,
                f"average {label}: {got} for {vals}",
            )
        last = out.strip().splitlines()[-1]
        ctx.eq("instances without solution", int(last.split()[-1]), bad)
        ctx.nontrivial = iters > 0
        if num > 1:
            ctx.label("several instances")


SUBS = [
    Sub("round_trip", round_trip, 6000),
    Sub("large_round_trip", large(round_trip), 400),
    Sub("large_faulty", large(faulty), 200),
    Sub("faulty", faulty, 3000),
    Sub("command_line", command_line, 1000),
    Sub("entry_point", entry_point, 300, 3000),
]
