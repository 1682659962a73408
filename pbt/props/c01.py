"""C01: route timing and schedule equal an explicit simulation."""

import ref
from engine import Sub, Violation
from gen import KINDS, build, build_route, gen_route, gen_spec, giant, large
from ref import RouteRef

RULE = (
    "A case is a random instance (windows, release times, reloads, shipments, "
    "depot service, several vehicle types and profiles) with one random valid "
    "route. Non-trivial: the route visits something, and its timing is "
    "constrained (it waits, warps, has a release time, several trips, "
    "overtime or finite slack)."
)
ASSUMPTIONS = [
    "Timing oracle: forward simulation from every candidate start time.",
    "When release times after the latest start combine with a maximum "
    "duration, both ways of counting the release time warp are accepted.",
]


def check_timing(ctx, route, want: RouteRef):
    ctx.eq("duration", route.duration(), want.duration)
    ctx.eq("travel_duration", route.travel_duration(), want.travel)
    ctx.eq("service_duration", route.service_duration(), want.service)
    ctx.eq("wait_duration", route.wait_duration(), want.wait)
    ctx.eq("start_time", route.start_time(), want.start_time)
    ctx.eq("release_time", route.release_time(), want.release)
    ctx.eq("slack", route.slack(), want.slack)
    ctx.eq("overtime", route.overtime(), want.overtime)
    ctx.eq("time_warp", route.time_warp(), want.time_warp)
    ctx.eq("has_time_warp", route.has_time_warp(), route.time_warp() > 0)
    ctx.eq(
        "end_time",
        route.end_time(),
        want.start_time + want.duration - route.time_warp(),
    )


def check_schedule(ctx, route, want: RouteRef):
    vt = want.spec.vtypes[want.vt_idx]
    if vt.start_late < want.spec.depots[vt.start].early:
        # The vehicle must leave before its depot opens: when exactly the start
        # is then scheduled is not specified.
        return
    sched = list(route.schedule())
    expected = want.schedule()
    ctx.eq("schedule length", len(sched), len(expected))
    ctx.eq("route length", len(route), len(expected))
    for pos, (got, exp) in enumerate(zip(sched, expected)):
        kind, idx, trip, begin, end, wait, warp, exact = exp
        tag = f"schedule[{pos}]"
        ctx.eq(f"{tag} activity", (KINDS[got.type], got.idx), (kind, idx))
        ctx.eq(f"{tag} trip", got.trip, trip)
        ctx.eq(f"{tag} start_time", got.start_time, begin)
        ctx.eq(f"{tag} end_time", got.end_time, end)
        ctx.eq(f"{tag} duration", got.duration, end - begin)
        ctx.eq(
            f"{tag} wait minus warp",
            got.wait_duration - got.time_warp,
            wait - warp,
        )
        if exact:
            ctx.eq(f"{tag} wait", got.wait_duration, wait)
            ctx.eq(f"{tag} time warp", got.time_warp, warp)
        ctx.ok(
            got.wait_duration >= 0 and got.time_warp >= 0,
            f"{tag} has negative wait or time warp",
        )


def timing(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=2)
    vt_idx, acts = gen_route(d, spec)
    ctx.note(spec=spec, vehicle_type=vt_idx, acts=acts)
    data = build(spec)
    route = build_route(data, vt_idx, acts)
    want = RouteRef(spec, vt_idx, acts)
    label(ctx, want)
    check_timing(ctx, route, want)
    check_schedule(ctx, route, want)


def label(ctx, want):
    conds = {
        "wait": want.wait > 0,
        "warp": want.base_warp > 0,
        "release": want.release > 0,
        "multitrip": want.num_trips > 1,
        "overtime": want.overtime > 0,
        "max_duration_excess": want.time_warp > want.base_warp,
        "slack": 0 < want.slack < 10**15,
        "late_start": want.start_time > 0,
        "shipments": want.num_shipments > 0,
    }
    ctx.label(*(k for k, v in conds.items() if v))
    ctx.nontrivial = not want.empty and any(conds.values())


def long_routes(d, ctx):
    spec = gen_spec(
        d,
        max_clients=14,
        max_ships=4,
        min_acts=8,
        max_vtypes=1,
        max_depots=2,
        force=("tw", "service"),
        forbid=("groups", "optional"),
    )
    vt_idx, acts = gen_route(d, spec)
    ctx.note(spec=spec, vehicle_type=vt_idx, acts=acts)
    data = build(spec)
    route = build_route(data, vt_idx, acts)
    want = RouteRef(spec, vt_idx, acts)
    label(ctx, want)
    check_timing(ctx, route, want)
    check_schedule(ctx, route, want)


SUBS = [
    Sub("timing", timing, 120000),
    Sub("long_routes", long_routes, 20000),
    Sub("large_timing", large(timing), 2000),
    Sub("giant_timing", giant(timing), 30, 300),
]
