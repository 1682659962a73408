"""C03: solution aggregates, feasibility, completeness, equality."""

from engine import Sub
from gen import (
    build,
    build_solution,
    canon,
    from_act,
    gen_routes,
    gen_spec,
    giant,
    large,
    routes_of,
)
from ref import SolutionRef

RULE = (
    "A case is a random instance with required and optional clients, groups "
    "and shipments and a random set of valid routes (or two, for equality). "
    "Non-trivial: the solution has at least one route."
)


def check_solution(ctx, sol, want: SolutionRef):
    spec = want.spec
    ctx.eq("distance", sol.distance(), want.sum("distance"))
    ctx.eq("distance_cost", sol.distance_cost(), want.sum("distance_cost"))
    ctx.eq("duration", sol.duration(), want.sum("duration"))
    ctx.eq("overtime", sol.overtime(), want.sum("overtime"))
    ctx.eq("duration_cost", sol.duration_cost(), want.sum("duration_cost"))
    ctx.eq(
        "excess_distance", sol.excess_distance(), want.sum("excess_distance")
    )
    ctx.eq("excess_load", list(sol.excess_load()), want.excess_load())
    ctx.eq(
        "fixed_vehicle_cost", sol.fixed_vehicle_cost(), want.sum("fixed_cost")
    )
    ctx.eq(
        "time_warp (sum of routes)",
        sol.time_warp(),
        sum(r.time_warp() for r in sol.routes()),
    )
    ctx.eq("time_warp", sol.time_warp(), want.sum("time_warp"))
    ctx.eq("prizes", sol.prizes(), want.prizes)
    ctx.eq("uncollected_prizes", sol.uncollected_prizes(), want.uncollected)
    ctx.eq("num_routes", sol.num_routes(), len(want.routes))
    ctx.eq("num_trips", sol.num_trips(), want.sum("num_trips"))
    ctx.eq("num_clients", sol.num_clients(), len(want.clients))
    ctx.eq("num_shipments", sol.num_shipments(), len(want.ships))
    ctx.eq(
        "num_missing_clients", sol.num_missing_clients(), want.missing_clients
    )
    ctx.eq(
        "num_missing_groups", sol.num_missing_groups(), want.missing_groups
    )
    ctx.eq(
        "num_missing_shipments",
        sol.num_missing_shipments(),
        want.missing_ships,
    )
    ctx.eq(
        "has_excess_load", sol.has_excess_load(), any(want.excess_load())
    )
    ctx.eq(
        "has_excess_distance",
        sol.has_excess_distance(),
        want.sum("excess_distance") > 0,
    )
    ctx.eq(
        "has_time_warp", sol.has_time_warp(), want.sum("time_warp") > 0
    )
    ctx.eq("is_complete", sol.is_complete(), want.complete)
    ctx.eq("is_feasible", sol.is_feasible(), want.feasible)
    ctx.eq(
        "unplanned",
        sorted(from_act(a) for a in sol.unplanned()),
        sorted(want.unplanned),
    )
    del spec


def aggregates(d, ctx):
    spec = gen_spec(d, max_clients=7, max_ships=3)
    routes = gen_routes(
        d,
        spec,
        p_visit=d.choice([0.9, 0.5, 1.0]),
        complete=d.bool(0.5),
        any_depot=True,
    )
    ctx.note(spec=spec, routes=routes)
    data = build(spec)
    sol = build_solution(data, routes)
    want = SolutionRef(spec, routes)
    check_solution(ctx, sol, want)
    ctx.eq("routes", routes_of(sol), routes)
    conds = {
        "feasible": want.feasible,
        "complete_infeasible": want.complete and not want.feasible,
        "missing_client": want.missing_clients > 0,
        "missing_group": want.missing_groups > 0,
        "missing_shipment": want.missing_ships > 0,
        "unplanned": bool(want.unplanned),
        "many_routes": len(routes) > 1,
    }
    ctx.label(*(k for k, v in conds.items() if v))
    ctx.nontrivial = len(routes) > 0


def feasible_iff(d, ctx):
    """Loosely constrained instances, so that feasibility is a coin toss."""
    spec = gen_spec(
        d,
        max_clients=5,
        max_ships=2,
        forbid=("huge", "startlate", "depot_tw", "release", "reload"),
    )
    for vt in spec.vtypes:
        vt.capacity = [c * 3 for c in vt.capacity]
        for dep in (spec.depots[vt.start], spec.depots[vt.end]):
            del dep
    routes = gen_routes(d, spec, p_visit=0.95, complete=d.bool(0.85))
    ctx.note(spec=spec, routes=routes)
    data = build(spec)
    sol = build_solution(data, routes)
    want = SolutionRef(spec, routes)
    check_solution(ctx, sol, want)
    ctx.nontrivial = len(routes) > 0
    ctx.label("feasible" if want.feasible else "infeasible")


def mutate_routes(d, routes, spec):
    """A small random change of a solution, which may also be no change."""
    routes = [(v, list(a)) for v, a in routes]
    kind = d.weighted(
        [
            (3, "permute"),
            (2, "swap"),
            (2, "vehicle"),
            (2, "drop"),
            (1, "reverse"),
            (1, "move"),
        ]
    )
    if not routes:
        return routes
    if kind == "permute":
        return d.shuffle(routes)
    idx = d.int(0, len(routes) - 1)
    vt, acts = routes[idx]
    if kind == "swap" and len(acts) > 1:
        a, b = d.int(0, len(acts) - 1), d.int(0, len(acts) - 1)
        acts[a], acts[b] = acts[b], acts[a]
    elif kind == "vehicle":
        routes[idx] = (d.int(0, len(spec.vtypes) - 1), acts)
    elif kind == "drop" and acts:
        del acts[d.int(0, len(acts) - 1)]
    elif kind == "reverse":
        acts.reverse()
    elif kind == "move" and len(routes) > 1:
        other = d.int(0, len(routes) - 1)
        if other != idx and acts:
            routes[other][1].append(acts.pop())
    return d.shuffle(routes) if d.bool(0.5) else routes


def equality(d, ctx):
    import ref

    # Many zeros and shared locations make different solutions look alike.
    spec = gen_spec(
        d, max_clients=5, max_ships=2, max_num=3, force=("shared_locs",)
    )
    first = gen_routes(d, spec, p_visit=0.9)
    second = mutate_routes(d, first, spec)
    for vt, acts in second:
        if ref.route_errors(spec, vt, acts):
            second = first
            break
    if ref.solution_errors(spec, second):
        second = d.shuffle(first)
    ctx.note(spec=spec, first=first, second=second)
    data = build(spec)
    a, b = build_solution(data, first), build_solution(data, second)
    same = canon(first) == canon(second)
    ctx.eq("equality", a == b, same)
    ctx.eq("inequality", a != b, not same)
    ctx.eq("symmetric equality", b == a, same)
    if same:
        ctx.eq("hash of equal solutions", hash(a), hash(b))
    ctx.eq("self equality", a == a, True)
    for (v1, a1), r1 in zip(first, a.routes()):
        for (v2, a2), r2 in zip(second, b.routes()):
            ctx.eq("route equality", r1 == r2, (v1, a1) == (v2, a2))
    ctx.nontrivial = len(first) > 0
    ctx.label("equal" if same else "different")


SUBS = [
    Sub("aggregates", aggregates, 45000),
    Sub("feasible_iff", feasible_iff, 15000),
    Sub("equality", equality, 40000),
    Sub("large_aggregates", large(aggregates), 2000),
    Sub("giant_aggregates", giant(aggregates), 30, 300),
    Sub("large_feasible_iff", large(feasible_iff), 1000),
]
