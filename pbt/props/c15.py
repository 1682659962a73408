"""C15: the iterated local search loop."""

import logging

from clock import FakeClock
from engine import Sub
from gen import (
    build,
    build_ce,
    build_solution,
    gen_penalties,
    gen_routes,
    gen_spec,
    routes_of,
)
from pyvrp import (
    IteratedLocalSearch,
    IteratedLocalSearchCallbacks,
    IteratedLocalSearchParams,
    Solution,
)
from ref import INT_MAX, SolutionRef

RULE = (
    "A case is a pool of random solutions of one instance, a script of the "
    "candidates the search method returns, and changing penalties. "
    "Non-trivial: at least two iterations with at least two different "
    "solutions."
)


class Quiet:
    """Collects what is logged instead of printing it."""

    def __enter__(self):
        self.lines = []
        self.logger = logging.getLogger("pyvrp")
        self.kept = self.logger.handlers[:]
        handler = logging.Handler()
        handler.emit = lambda rec: self.lines.append(rec.getMessage())
        self.logger.handlers = [handler]
        return self

    def __exit__(self, *exc):
        self.logger.handlers = self.kept


TIGHT = (
    "huge",
    "tw",
    "depot_tw",
    "release",
    "load",
    "shift",
    "maxdist",
    "startlate",
    "overtime",
)


class Pool:
    """Solutions with their reference costs."""

    def __init__(self, d):
        # A mixed pool has only distance limits, chosen such that about half
        # the solutions are feasible.
        self.mixed = d.bool(0.5)
        forbid = TIGHT if self.mixed else ("huge",) if d.bool(0.8) else ()
        self.spec = gen_spec(
            d, max_clients=4, max_ships=1, max_vtypes=2, forbid=forbid
        )
        pool = [
            gen_routes(
                d,
                self.spec,
                d.choice([0.9, 0.4]),
                self.mixed or d.bool(0.8),
            )
            for _ in range(d.int(5, 12) if self.mixed else d.int(2, 8))
        ]
        if self.mixed:
            longest = [
                max([r.distance for r in SolutionRef(self.spec, x).routes] or [0])
                for x in pool
            ]
            limit = sorted(longest)[len(pool) // 2]
            for vt in self.spec.vtypes:
                vt.max_dist = limit
        self.data = build(self.spec)
        self.routes, self.sols, self.refs = [], [], []
        for routes in pool:
            sol = build_solution(self.data, routes)
            if sol in self.sols:
                continue
            self.routes.append(routes)
            self.sols.append(sol)
            self.refs.append(SolutionRef(self.spec, routes))

    def find(self, sol):
        """Index of a solution, which may be another, equal object."""
        for i, other in enumerate(self.sols):
            if other is sol:
                return i
        for i, other in enumerate(self.sols):
            if other == sol:
                return i
        return None

    def cost(self, i):
        return self.refs[i].cost()

    def pen(self, i, pen):
        return self.refs[i].penalised(pen)


def model(pool, init, script, pens, length, patience, exhaustive, limit):
    """
    What must happen, as a list of events. `script(kind, iteration, given)`
    is what the search method returns.
    """
    events = [("start",)]
    hist, at = [None] * length, 0
    best = curr = init
    waited = 0
    rows = []
    pen_idx = 0
    for it in range(limit):
        events.append(("stop", pool.cost(best)))
        if waited == patience:
            hist, at = [None] * length, 0
            curr, waited = best, 0
            events.append(("restart", best))
        pen = pens[pen_idx % len(pens)]
        cand = script("search", it, curr)
        events.append(("search", curr, pen_idx % len(pens), False))
        events.append(("register", cand))
        pen_idx += 1
        waited += 1
        if pool.cost(cand) < pool.cost(best):
            best, waited = cand, 0
            if exhaustive:
                events.append(("search", cand, (pen_idx - 1) % len(pens), True))
                cand = script("exhaustive", it, cand)
                if pool.refs[cand].feasible:
                    best = cand
            events.append(("best", best))
        late = hist[at % length]
        late_cost = pool.pen(init if late is None else late, pen)
        if pool.pen(cand, pen) < late_cost or pool.pen(cand, pen) < pool.pen(
            curr, pen
        ):
            curr = cand
        if late is None or pool.pen(curr, pen) < late_cost:
            hist[at % length] = curr
        at += 1
        events.append(("iteration", curr, cand, best, (pen_idx - 1) % len(pens)))
        row = []
        for i in (curr, cand, best):
            row += [pool.pen(i, pen), pool.refs[i].feasible]
        rows.append(row)
    events.append(("stop", pool.cost(best)))
    events.append(("end", best))
    return events, rows, best


def long(d, ctx):
    """Runs of hundreds of iterations."""
    loop(d, ctx, d.int(15, 600))


def loop(d, ctx, limit=None):
    pool = Pool(d)
    num = len(pool.sols)
    init = d.int(0, num - 1)
    if d.bool():  # mostly new bests
        init = max(range(num), key=pool.cost)
    pens = [gen_penalties(d, pool.spec) for _ in range(d.int(1, 4))]
    if pool.mixed:
        pens = [(a, b, d.choice([c, 0, 0.125, 1])) for a, b, c in pens]
    length = d.weighted([(3, 1), (3, 2), (2, 3), (1, 5), (1, 300)])
    patience = d.weighted([(3, 3), (2, 1), (2, 5), (1, 0), (2, 1000)])
    exhaustive = d.bool()
    if limit is None:
        limit = d.int(0, 14)
    else:
        length = d.choice([length, 20, 150])
        patience = d.choice([patience, 40, 200])
    choices = [
        (d.int(0, num - 1), d.int(0, num - 1), d.bool(0.6))
        for _ in range(limit)
    ]

    def script(kind, it, given):
        cand, extra, keep = choices[it]
        if kind == "search":
            return cand
        # An exhaustive search never returns something more costly, unless it
        # is infeasible.
        if keep or (
            pool.refs[extra].feasible and pool.cost(extra) >= pool.cost(given)
        ):
            return given
        return extra

    want, rows, best = model(
        pool, init, script, pens, length, patience, exhaustive, limit
    )
    ctx.note(
        spec=pool.spec,
        pool=pool.routes,
        script=choices,
        penalties=pens,
        params=[length, patience, exhaustive, limit, init],
    )

    got = []
    evals = [build_ce(p) for p in pens]
    state = {"registered": 0, "iters": 0, "started": False}

    def which(ce):
        """Index of the penalties of a cost evaluator."""
        for i, other in enumerate(evals):
            if other is ce:
                return i
        return None

    class Manager:
        def cost_evaluator(self):
            return evals[state["registered"] % len(evals)]

        def register(self, sol):
            got.append(("register", pool.find(sol)))
            state["registered"] += 1

    def search(solution, cost_evaluator, exhaustive=False):
        i = pool.find(solution)
        got.append(("search", i, which(cost_evaluator), exhaustive))
        if not exhaustive:
            state["iters"] += 1
        kind = "exhaustive" if exhaustive else "search"
        return pool.sols[script(kind, state["iters"] - 1, i)]

    def stop(cost):
        got.append(("stop", cost))
        return state["iters"] >= limit

    class Callbacks(IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            ctx.ok(ils is algo, "on_start argument")
            got.append(("start",))

        def on_end(self, result):
            ended.append(result)
            got.append(("end", pool.find(result.best)))

        def on_iteration(self, current, candidate, best, cost_evaluator):
            got.append(
                (
                    "iteration",
                    pool.find(current),
                    pool.find(candidate),
                    pool.find(best),
                    which(cost_evaluator),
                )
            )

        def on_restart(self, best):
            got.append(("restart", pool.find(best)))

        def on_best(self, best):
            got.append(("best", pool.find(best)))

    ended = []
    with_calls = d.bool(0.8)
    collect, display = d.bool(0.8), d.bool(0.3)
    params = IteratedLocalSearchParams(
        patience, length, exhaustive, Callbacks() if with_calls else None
    )
    algo = IteratedLocalSearch(
        pool.data, Manager(), search, pool.sols[init], params
    )
    ctx.ok(algo.search is search, "search property")
    ctx.ok(algo.initial_solution is pool.sols[init], "initial solution")
    ctx.eq("params", algo.params, params)
    kept = [routes_of(s) for s in pool.sols]
    with Quiet() as quiet, FakeClock() as clock:
        interval = d.choice([0.0, 100.0])
        result = algo.run(stop, collect, display, interval)

    if not with_calls:
        own = {"stop", "search", "register"}
        want = [e for e in want if e[0] in own]
    for names in (
        ("stop", "search"),
        ("register",),
        ("start", "restart", "best", "iteration", "end"),
    ):
        mine = [e for e in got if e[0] in names]
        must = [e for e in want if e[0] in names]
        for i, (a, b) in enumerate(zip(mine, must)):
            ctx.eq(f"event {i}", a, b)
        ctx.eq(f"number of events {names}", len(mine), len(must))
    if with_calls:
        ctx.ok(ended == [result], "on_end argument")
    ctx.eq("result", pool.find(result.best), best)
    ctx.eq("iterations", result.num_iterations, limit)
    ctx.eq("runtime", result.runtime, clock.now - 1000.0)
    stats = [
        [
            x.current_cost,
            x.current_feas,
            x.candidate_cost,
            x.candidate_feas,
            x.best_cost,
            x.best_feas,
        ]
        for x in result.stats
    ]
    ctx.eq("statistics", stats, rows if collect else [])
    ctx.eq("records", result.stats.num_iterations, limit if collect else 0)
    ctx.eq("pool", [routes_of(s) for s in pool.sols], kept)
    ctx.ok(
        pool.cost(best) <= pool.cost(init),
        "worse than the initial solution",
    )
    restarts = sum(e[0] == "restart" for e in want)
    if display:
        ctx.ok(quiet.lines, "nothing was displayed")
        if with_calls:
            ctx.eq(
                "displayed restarts",
                sum("restart" in x for x in quiet.lines),
                restarts,
            )
    else:
        ctx.eq("displayed", quiet.lines, [])
    if restarts:
        ctx.label("restart")
    if any(e[0] == "best" for e in want):
        ctx.label("new best")
    ctx.nontrivial = limit >= 2 and num >= 2


def params(d, ctx):
    def one():
        return (
            d.choice([150_000, 0, 1, 20]),
            d.choice([300, 1, 2]),
            d.bool(),
        )

    a, b = one(), one()
    if d.bool(0.6):
        b = list(a)
        i = d.int(0, 2)
        b[i] = one()[i]
        b = tuple(b)
    pa = IteratedLocalSearchParams(*a, callbacks=IteratedLocalSearchCallbacks())
    pb = IteratedLocalSearchParams(*b)
    for p, x in ((pa, a), (pb, b)):
        ctx.eq("patience", p.num_iters_no_improvement, x[0])
        ctx.eq("length", p.history_length, x[1])
        ctx.eq("exhaustive", p.exhaustive_on_best, x[2])
        ctx.ok(
            isinstance(p.callbacks, IteratedLocalSearchCallbacks), "callbacks"
        )
    ctx.eq("equality", pa == pb, a == b)
    ctx.raises("patience", IteratedLocalSearchParams, -1 - d.int(0, 3), a[1])
    ctx.raises("length", IteratedLocalSearchParams, a[0], -d.int(0, 3))
    default = IteratedLocalSearchParams()
    ctx.eq(
        "defaults",
        (
            default.num_iters_no_improvement,
            default.history_length,
            default.exhaustive_on_best,
        ),
        (150_000, 300, True),
    )
    ctx.note(a=a, b=b)
    ctx.nontrivial = True


SUBS = [
    Sub("loop", loop, 12000),
    Sub("params", params, 200),
    Sub("long", long, 250),
]
