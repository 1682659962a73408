"""C24: solving."""

from engine import Sub
from gen import (
    build,
    build_solution,
    canon,
    gen_routes,
    gen_spec,
    giant,
    large,
    routes_of,
)
from props.c11 import NAMES, route_errs
from props.c15 import Quiet
from pyvrp import (
    IteratedLocalSearchCallbacks,
    IteratedLocalSearchParams,
    Model,
    PenaltyParams,
    SolveParams,
    solve,
)
from pyvrp.search import (
    OPERATORS,
    NeighbourhoodParams,
    PerturbationParams,
)
from pyvrp.search import _search as S
from pyvrp.stop import FirstFeasible, MaxIterations, MultipleCriteria, NoImprovement
from ref import SolutionRef, solution_errors
from snap import diff, snap
from sutil import no_late_release

import math
import warnings

RULE = (
    "A case is a random instance, parameters, stopping criterion, seed and "
    "possibly an initial solution, solved twice in different ways. "
    "Non-trivial: the solver did at least two iterations and visits something."
)


def gen_params(d, callbacks=None):
    if d.bool(0.6):
        ops = OPERATORS
    else:
        ops = [getattr(S, n) for n in NAMES if d.bool(0.4)]
        if d.bool():
            ops = d.shuffle(ops)
    ils = (
        d.choice([150_000, 4, 1, 0]),
        d.choice([300, 1, 3]),
        d.bool(0.7),
    )
    penalty = PenaltyParams(
        solutions_between_updates=d.choice([500, 1, 3]),
        penalty_increase=d.choice([1.5, 1.0, 4.0]),
        penalty_decrease=d.choice([0.9, 0.25]),
        max_penalty=d.choice([100_000.0, 30.0, 0.1]),
    )
    neigh = NeighbourhoodParams(
        d.choice([0.2, 0.0]), d.choice([50, 2, 1]), d.bool()
    )
    lo = d.small(0, 3)
    pert = PerturbationParams(lo, lo + d.small(0, 25))

    def make(callbacks=None, interval=5.0):
        return SolveParams(
            IteratedLocalSearchParams(*ils, callbacks),
            penalty,
            neigh,
            ops,
            interval,
            pert,
        )

    note = [ils, vars(penalty), [x.__name__ for x in ops], lo]
    return make, note


def gen_stop(d):
    kind = d.choice(["iters", "noimp", "multi"])
    num = d.choice([8, 1, 0, 20, 3, 60])
    if kind == "iters":
        return num, lambda: MaxIterations(num)
    if kind == "noimp":
        return None, lambda: NoImprovement(max(num, 1))
    return None, lambda: MultipleCriteria(
        [FirstFeasible(), MaxIterations(num)]
    )


def rows(result):
    return [
        (
            x.current_cost,
            x.current_feas,
            x.candidate_cost,
            x.candidate_feas,
            x.best_cost,
            x.best_feas,
        )
        for x in result.stats
    ]


class Spy(IteratedLocalSearchCallbacks):
    def __init__(self):
        self.bests = []
        self.seen = []
        self.iters = 0
        self.ended = 0

    def on_best(self, best):
        self.bests.append(routes_of(best))

    def on_iteration(self, current, candidate, best, cost_evaluator):
        self.iters += 1
        self.seen.append((routes_of(candidate), routes_of(best)))

    def on_end(self, result):
        self.ended += 1


def solves(d, ctx):
    spec = gen_spec(d, max_clients=d.choice([6, 9, 4, 16]), max_ships=3)
    no_late_release(spec)
    data = build(spec)
    whole = snap(data)
    make, note = gen_params(d)
    num, stop = gen_stop(d)
    seed = d.int(0, 1000)
    init = None
    if d.bool(0.4):
        init = build_solution(
            data, gen_routes(d, spec, complete=d.bool(0.8))
        )
    kept = snap(init) if init is not None else None
    given = routes_of(init) if init is not None else None
    ctx.note(spec=spec, params=note, seed=seed, initial=given)

    spy = Spy()
    with warnings.catch_warnings(), Quiet():
        warnings.simplefilter("ignore")
        res = solve(
            data, stop(), seed, params=make(spy), initial_solution=init
        )

    routes = routes_of(res.best)
    errs = [e for v, a in routes for e in route_errs(spec, v, a)]
    errs += solution_errors(spec, routes)
    ctx.eq("structure", errs, [])
    ref = SolutionRef(spec, routes)
    ctx.eq("feasible", res.is_feasible(), ref.feasible)
    ctx.eq("feasible", res.best.is_feasible(), ref.feasible)
    ctx.eq("cost", res.cost(), ref.cost() if ref.feasible else math.inf)
    if init is None:
        ctx.ok(ref.complete, "incomplete, without an initial solution")
    if num is not None:
        ctx.eq("iterations", res.num_iterations, num)
    ctx.ok(res.runtime >= 0, "negative runtime")
    data_rows = rows(res)
    ctx.eq("records", len(data_rows), res.num_iterations)
    ctx.eq("callbacks", (spy.iters, spy.ended), (res.num_iterations, 1))
    last = None
    for curr, c_feas, cand, k_feas, best, b_feas in data_rows:
        for cost, feas in ((curr, c_feas), (cand, k_feas), (best, b_feas)):
            if feas:
                ctx.ok(
                    res.cost() <= cost,
                    lambda: f"cost {res.cost()}, but {cost} was recorded",
                )
        if last is not None and last[1]:
            ctx.ok(b_feas and best <= last[0], "the best got worse")
        last = (best, b_feas)
    for (cand, best), row in zip(spy.seen, data_rows):
        cand, best = SolutionRef(spec, cand), SolutionRef(spec, best)
        ctx.eq("candidate feasible", row[3], cand.feasible)
        ctx.eq("best feasible", row[5], best.feasible)
        if cand.feasible:
            ctx.eq("candidate cost", row[2], cand.cost())
            ctx.ok(best.cost() <= cand.cost(), "best is not the best")
        if best.feasible:
            ctx.eq("best cost", row[4], best.cost())
        ctx.ok(cand.complete, "incomplete candidate")
    for best in spy.bests:
        ctx.ok(SolutionRef(spec, best).feasible, "infeasible new best")
    if init is not None:
        ctx.eq("initial solution", diff(snap(init), kept), None)
        was = SolutionRef(spec, given)
        if was.feasible:
            ctx.ok(res.cost() <= was.cost(), "worse than the initial one")
        if not spy.bests:
            ctx.eq("best", canon(routes), canon(given))
    ctx.eq("instance", diff(snap(data), whole), None)

    # Once more, another way.
    how = d.choice(["same", "model", "silent", "display", "copy"])
    ctx.label(how)
    collect, display, interval = True, False, 5.0
    if how == "silent":
        collect = False
    if how == "display":
        display, interval = True, 0.0
    other = build(spec) if how == "copy" else data
    params = make(None, interval)
    with warnings.catch_warnings(), Quiet() as quiet:
        warnings.simplefilter("ignore")
        if how == "model":
            model = Model.from_data(data)
            again = model.solve(
                stop(),
                seed=seed,
                collect_stats=collect,
                display=display,
                params=params,
                **({"initial_solution": init} if init is not None else {}),
            )
        else:
            again = solve(
                other, stop(), seed, collect, display, params, init
            )
    ctx.eq("best again", routes_of(again.best), routes)
    ctx.eq("iterations again", again.num_iterations, res.num_iterations)
    ctx.eq("statistics again", rows(again), data_rows if collect else [])
    ctx.eq("displayed", bool(quiet.lines), display)
    ctx.nontrivial = res.num_iterations >= 2 and bool(routes)
    if res.is_feasible():
        ctx.label("feasible")
    if spy.bests:
        ctx.label("improved")


SUBS = [
    Sub("solves", solves, 5000),
    Sub("large_solves", large(solves), 100),
    Sub("giant_solves", giant(solves, 300), 10, 100),
]
