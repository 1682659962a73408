"""C25: random solutions."""

from engine import Sub
from gen import build, gen_spec, giant, large, routes_of
from pyvrp import RandomNumberGenerator, Solution
from ref import SolutionRef, route_errors, solution_errors
from snap import diff, snap

RULE = (
    "A case is a random instance (heterogeneous fleets, groups, shipments, "
    "optional visits) with one or many seeds. Non-trivial: the random solution "
    "has at least two routes, or the instance has a group, a shipment or an "
    "optional visit."
)


def validate(ctx, spec, routes):
    errs = [e for v, a in routes for e in route_errors(spec, v, a)]
    errs += solution_errors(spec, routes)
    ctx.eq("structure", errs, [])
    ref = SolutionRef(spec, routes)
    ctx.eq("missing clients", ref.missing_clients, 0)
    ctx.eq("missing shipments", ref.missing_ships, 0)
    ctx.eq("missing groups", ref.missing_groups, 0)
    for g in spec.groups:
        num = sum(c in ref.clients for c in g.clients)
        ctx.ok(num <= 1, "several members of one group")
    for v, acts in routes:
        ctx.ok(
            any(k != "D" for k, _ in acts) and v < len(spec.vtypes),
            "empty route",
        )
    return ref


def single(d, ctx):
    spec = gen_spec(
        d,
        max_clients=d.choice([6, 15, 3]),
        max_ships=d.choice([3, 6]),
        max_num=d.choice([3, 1, 12]),
        max_vtypes=d.choice([3, 5]),
    )
    data = build(spec)
    before = snap(data)
    rng = RandomNumberGenerator(d.seed())
    for _ in range(d.int(1, 3)):
        state = rng.state()
        sol = Solution.make_random(data, rng)
        routes = routes_of(sol)
        ctx.note(spec=spec, routes=routes)
        ref = validate(ctx, spec, routes)
        ctx.eq("complete", sol.is_complete(), True)
        ctx.eq("distance", sol.distance(), ref.sum("distance"))
        again_rng = RandomNumberGenerator(state=state)
        again = Solution.make_random(data, again_rng)
        ctx.ok(again == sol, "the same random state, another solution")
        ctx.eq("same routes", routes_of(again), routes)
        ctx.eq("random state afterwards", again_rng.state(), rng.state())
        if len(routes) > 1 or spec.groups or spec.shipments:
            ctx.nontrivial = True
        if any(not c.required for c in spec.clients):
            ctx.nontrivial = True
        if len(routes) == sum(vt.num for vt in spec.vtypes):
            ctx.label("whole fleet")
    ctx.eq("instance", diff(snap(data), before), None)


def many(d, ctx):
    """Optional visits are sometimes in and sometimes out."""
    spec = gen_spec(d, force=("optional",), min_acts=1)
    data = build(spec)
    rng = RandomNumberGenerator(d.seed())
    ctx.note(spec=spec)
    seen_in, seen_out = set(), set()
    num = 200
    for _ in range(num):
        routes = routes_of(Solution.make_random(data, rng))
        have = {x for _, acts in routes for x in acts}
        for i in range(len(spec.clients)):
            (seen_in if ("C", i) in have else seen_out).add(("C", i))
        for i in range(len(spec.shipments)):
            (seen_in if ("P", i) in have else seen_out).add(("P", i))
    for i, c in enumerate(spec.clients):
        x = ("C", i)
        ctx.ok(x in seen_in, f"{x} in none of {num} random solutions")
        lone = c.group is not None and len(spec.groups[c.group].clients) == 1
        must = c.required or (lone and spec.groups[c.group].required)
        ctx.eq(f"{x} left out", x in seen_out, not must)
        ctx.nontrivial = ctx.nontrivial or not must
    for i, s in enumerate(spec.shipments):
        x = ("P", i)
        ctx.ok(x in seen_in, f"{x} in none of {num} random solutions")
        ctx.eq(f"{x} left out", x in seen_out, not s.required)
        ctx.nontrivial = ctx.nontrivial or not s.required


SUBS = [
    Sub("single", single, 10000),
    Sub("many", many, 400),
    Sub("large_single", large(single), 500),
    Sub("giant_single", giant(single, 40000), 30, 300),
]
