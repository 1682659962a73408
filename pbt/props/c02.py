"""C02: load, distance, prize and cost fields of routes."""

from engine import Sub
from gen import build, build_route, gen_route, gen_spec, giant, large, to_act
from pyvrp import Route
from ref import RouteRef

RULE = (
    "A case is a random instance with 0-3 load dimensions, several profiles "
    "and vehicle types, and one random valid route with clients, shipments and "
    "reload depots. Non-trivial: the route visits something and has a positive "
    "load, distance, prize or cost."
)


def check_fields(ctx, route, want: RouteRef):
    ctx.eq("distance", route.distance(), want.distance)
    ctx.eq("distance_cost", route.distance_cost(), want.distance_cost)
    ctx.eq("excess_distance", route.excess_distance(), want.excess_distance)
    ctx.eq(
        "has_excess_distance",
        route.has_excess_distance(),
        want.excess_distance > 0,
    )
    ctx.eq("duration_cost", route.duration_cost(), want.duration_cost)
    ctx.eq("fixed_vehicle_cost", route.fixed_vehicle_cost(), want.fixed_cost)
    ctx.eq("excess_load", list(route.excess_load()), want.excess_load)
    ctx.eq("has_excess_load", route.has_excess_load(), any(want.excess_load))
    ctx.eq("delivery", list(route.delivery()), want.delivery)
    ctx.eq("pickup", list(route.pickup()), want.pickup)
    ctx.eq("prizes", route.prizes(), want.prizes)
    ctx.eq("num_clients", route.num_clients(), want.num_clients)
    ctx.eq("num_shipments", route.num_shipments(), want.num_shipments)
    ctx.eq("num_depots", route.num_depots(), want.num_depots)
    ctx.eq("num_trips", route.num_trips(), want.num_trips)
    vt = want.spec.vtypes[want.vt_idx]
    ctx.eq("vehicle_type", route.vehicle_type(), want.vt_idx)
    ctx.eq("start_depot", route.start_depot(), vt.start)
    ctx.eq("end_depot", route.end_depot(), vt.end)
    ctx.eq(
        "is_feasible",
        route.is_feasible(),
        not any(want.excess_load)
        and want.excess_distance == 0
        and want.time_warp == 0,
    )


def fields(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=3)
    vt_idx, acts = gen_route(d, spec)
    # Routes (not solutions) may visit the same client more than once.
    if spec.clients and d.bool(0.05):
        acts = acts + [("C", d.int(0, len(spec.clients) - 1))]
    ctx.note(spec=spec, vehicle_type=vt_idx, acts=acts)
    data = build(spec)
    route = build_route(data, vt_idx, acts)
    want = RouteRef(spec, vt_idx, acts)
    check_fields(ctx, route, want)
    if all(k == "C" for k, _ in acts):
        same = Route(data, [i for _, i in acts], vt_idx)
        ctx.eq("route from client indices", same, route)
        check_fields(ctx, same, want)
        ctx.label("from_indices")
    conds = {
        "excess_load": any(want.excess_load),
        "excess_distance": want.excess_distance > 0,
        "multitrip": want.num_trips > 1,
        "shipments": want.num_shipments > 0,
        "prizes": want.prizes > 0,
        "pickup": any(want.pickup),
        "delivery": any(want.delivery),
        "multi_dim": spec.dims > 1,
        "initial_load": any(spec.vtypes[vt_idx].initial),
        "feasible": want.feasible,
    }
    ctx.label(*(k for k, v in conds.items() if v))
    ctx.nontrivial = not want.empty and (
        want.distance > 0 or any(v for k, v in conds.items() if k != "feasible")
    )


def multitrip_loads(d, ctx):
    """Emphasises loads over several trips with tight capacities."""
    spec = gen_spec(
        d,
        max_clients=10,
        max_ships=4,
        min_acts=4,
        max_vtypes=1,
        force=("load", "reload", "pickup"),
        forbid=("groups", "tw", "release", "huge"),
    )
    vt_idx, acts = gen_route(d, spec)
    ctx.note(spec=spec, vehicle_type=vt_idx, acts=acts)
    data = build(spec)
    route = Route(data, [to_act(a) for a in acts], vt_idx)
    want = RouteRef(spec, vt_idx, acts)
    check_fields(ctx, route, want)
    ctx.nontrivial = any(want.excess_load) and want.num_trips > 1
    if ctx.nontrivial:
        ctx.label("multitrip_excess")


SUBS = [
    Sub("fields", fields, 100000),
    Sub("multitrip_loads", multitrip_loads, 40000),
    Sub("large_fields", large(fields), 2000),
    Sub("giant_fields", giant(fields), 30, 300),
]
