"""C05: cost evaluation."""

from engine import Sub
from gen import (
    build,
    build_ce,
    build_solution,
    gen_penalties,
    gen_routes,
    gen_spec,
    giant,
    large,
)
from pyvrp import CostEvaluator
from ref import INT_MAX, SolutionRef

RULE = (
    "A case is a random instance, solution and set of penalties (integer, "
    "fractional, zero and large). Non-trivial: the solution has a route, or, "
    "for the penalty functions, the violation is positive."
)
ASSUMPTIONS = ["Each penalty term is truncated to an integer separately."]


def costs(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=2)
    spec_neg = d.bool(0.05)
    if spec_neg:
        for vt in spec.vtypes:
            vt.fixed = -vt.fixed
    routes = gen_routes(
        d, spec, p_visit=d.choice([0.9, 0.5]), complete=d.bool(0.7)
    )
    pen = gen_penalties(d, spec)
    other = gen_penalties(d, spec)
    ctx.note(spec=spec, routes=routes, penalties=pen)
    data = build(spec)
    sol = build_solution(data, routes)
    want = SolutionRef(spec, routes)
    ce, ce2 = build_ce(pen), build_ce(other)
    exp = want.penalised(pen)
    ctx.eq("penalised_cost", ce.penalised_cost(sol), exp)
    ctx.eq("penalised_cost 2", ce2.penalised_cost(sol), want.penalised(other))
    if want.feasible:
        base = want.penalised(([0] * spec.dims, 0, 0))
        ctx.eq("penalised cost of feasible", exp, base)
        ctx.eq("cost", ce.cost(sol), base)
        ctx.eq("cost, other penalties", ce2.cost(sol), base)
    else:
        ctx.eq("cost of infeasible", ce.cost(sol), INT_MAX)
        ctx.eq("cost of infeasible 2", ce2.cost(sol), INT_MAX)
    # The sum of its parts, from the public accessors.
    parts = sol.distance_cost() + sol.duration_cost() + sol.uncollected_prizes()
    parts += sol.fixed_vehicle_cost()
    for r in sol.routes():
        for dim, excess in enumerate(r.excess_load()):
            parts += ce.load_penalty(excess, 0, dim)
        parts += ce.tw_penalty(r.time_warp())
        parts += ce.dist_penalty(r.excess_distance(), 0)
    ctx.eq("sum of parts", ce.penalised_cost(sol), parts)
    ctx.nontrivial = len(routes) > 0
    ctx.label("feasible" if want.feasible else "infeasible")
    if any(want.excess_load()):
        ctx.label("excess_load")
    if want.sum("time_warp"):
        ctx.label("time_warp")
    if want.sum("excess_distance"):
        ctx.label("excess_distance")
    if want.uncollected:
        ctx.label("uncollected")


def functions(d, ctx):
    dims = d.weighted([(9, d.int(0, 3)), (1, d.int(4, 9))])

    def pval():
        kind = d.int(0, 3)
        if kind == 0:
            return d.int(0, 1000)
        if kind == 1:
            return d.int(0, 8000) / 8
        if kind == 2:
            return d.int(0, 10**6)
        return d.int(0, 100) / 100

    loads, tw, dist = [pval() for _ in range(dims)], pval(), pval()
    ctx.note(loads=loads, tw=tw, dist=dist)
    ce = CostEvaluator(loads, tw, dist)
    size = d.choice([10, 1000, 10**6])
    for dim in range(dims):
        load, cap = d.int(0, size), d.int(0, size)
        want = int(float(loads[dim]) * max(load - cap, 0))
        ctx.eq(
            f"load_penalty({load}, {cap}, {dim})",
            ce.load_penalty(load, cap, dim),
            want,
        )
        ctx.eq("no excess", ce.load_penalty(cap, cap, dim), 0)
    val = d.int(0, size)
    ctx.eq(f"tw_penalty({val})", ce.tw_penalty(val), int(float(tw) * val))
    val, lim = d.int(0, size), d.int(0, size)
    ctx.eq(
        f"dist_penalty({val}, {lim})",
        ce.dist_penalty(val, lim),
        int(float(dist) * max(val - lim, 0)),
    )
    ctx.eq("dist penalty at limit", ce.dist_penalty(lim, lim), 0)
    ctx.nontrivial = val > lim


def rejects(d, ctx):
    dims = d.weighted([(9, d.int(0, 3)), (1, d.int(4, 9))])
    loads = [d.int(0, 100) for _ in range(dims)]
    tw, dist = d.int(0, 100), d.int(0, 100)
    which = d.int(0, dims + 1)
    bad = -d.int(1, 100) / d.choice([1, 100])
    if which < dims:
        loads[which] = bad
    elif which == dims:
        tw = bad
    else:
        dist = bad
    ctx.note(loads=loads, tw=tw, dist=dist)
    ctx.raises("negative penalty", CostEvaluator, loads, tw, dist)
    ctx.nontrivial = True


SUBS = [
    Sub("costs", costs, 60000),
    Sub("functions", functions, 20000),
    Sub("rejects", rejects, 2000),
    Sub("large_costs", large(costs), 2000),
    Sub("giant_costs", giant(costs), 30, 300),
]
