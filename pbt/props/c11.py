"""C11: the local search."""

from engine import Sub
from gen import (
    build,
    build_ce,
    build_solution,
    canon,
    from_act,
    gen_penalties,
    gen_routes,
    gen_spec,
    giant,
    large,
    routes_of,
    to_act,
)
from pyvrp import RandomNumberGenerator
from pyvrp.search import (
    LocalSearch,
    NeighbourhoodParams,
    PerturbationManager,
    PerturbationParams,
    compute_neighbours,
)
from pyvrp.search import _search as S
from props.c10 import BINARY, UNARY, State, tidy
from ref import SolutionRef, solution_errors
from snap import diff, snap
from sutil import (
    Costs,
    all_keys,
    gen_neighbours,
    no_late_release,
    pattern,
    real_neighbours,
    valid_pattern,
)

RULE = (
    "A case is a random instance, set of operators, neighbourhood, penalties "
    "and seed with one or more local search calls on random solutions. "
    "Non-trivial: the search changed some solution, or searched from a "
    "complete solution without finding an improvement."
)

NAMES = sorted(UNARY) + sorted(BINARY)


def gen_ops(d, data, names=None, p=None):
    if names is None:
        p = d.choice([1.0, 0.5, 0.2]) if p is None else p
        names = [n for n in NAMES if d.bool(p)] if p < 1.0 else list(NAMES)
    if d.bool(0.3):
        names = d.shuffle(names)
    return [n for n in names if getattr(S, n).supports(data)]


def gen_neigh(d, spec, data):
    if d.bool(0.4):
        params = NeighbourhoodParams(num_neighbours=d.choice([50, 1, 3]))
        real = compute_neighbours(data, params)
        return {
            from_act(k): [from_act(v) for v in vs] for k, vs in real.items()
        }
    return gen_neighbours(d, spec, d.choice([1.0, 0.7, 0.3]))


def make(data, neigh, names, pm, rng=None):
    if rng is None:
        ls = S.LocalSearch(data, real_neighbours(neigh), pm)
    else:
        ls = LocalSearch(data, rng, real_neighbours(neigh), pm)
    for name in names:
        ls.add_operator(getattr(S, name)(data))
    return ls


def stats_of(ls):
    st = ls.statistics
    return st.num_moves, st.num_improving, st.num_updates


def check_result(ctx, spec, data, costs, ls, sol, new, exhaustive, num_pert):
    """Everything that must hold of one call."""
    old_routes, new_routes = routes_of(sol), routes_of(new)
    errs = [e for v, a in new_routes for e in route_errs(spec, v, a)]
    errs += solution_errors(spec, new_routes)
    ctx.eq("structure", errs, [])
    ctx.ok(SolutionRef(spec, new_routes).complete, "result is incomplete")
    before, after = SolutionRef(spec, old_routes), SolutionRef(spec, new_routes)
    was, now = before.penalised(costs.pen), after.penalised(costs.pen)
    ce = build_ce(costs.pen)
    ctx.eq("cost of the result", ce.penalised_cost(new), now)

    moves, improving, updates = stats_of(ls)
    ctx.ok(improving <= updates, f"{improving} improving, {updates} updates")
    ctx.ok(improving <= moves, f"{improving} improving, {moves} moves")
    ops = [*ls.unary_operators, *ls.binary_operators]
    ctx.eq("moves", moves, sum(o.statistics.num_evaluations for o in ops))
    ctx.eq(
        "improving", improving, sum(o.statistics.num_applications for o in ops)
    )
    if not ops:
        ctx.eq("moves without operators", moves, 0)

    changed = canon(old_routes) != canon(new_routes)
    if changed:
        ctx.nontrivial = True
        ctx.label("changed")
    if exhaustive and before.complete:
        ctx.nontrivial = True
        ctx.ok(now <= was, f"cost went from {was} to {now}")
        # Every change comes from an applied move, and all but depot removals
        # must improve.
        ctx.eq("updates", updates, improving)
        if not improving:
            ctx.ok(not changed, "changed without applying a move")
        if improving and not any(
            o.name == "RemoveAdjacentDepot"
            for o in ls.unary_operators
            if hasattr(o, "name")
        ):
            depots = sum(k == "D" for _, a in old_routes for k, _ in a)
            if not depots:
                ctx.ok(now < was, f"{improving} improving, {was} to {now}")
        ctx.label("improved" if now < was else "local optimum")
    return was, now


def route_errs(spec, v, acts):
    return valid_pattern(spec, [(v, acts)])


def gen_case(d, ctx, **kw):
    spec = gen_spec(d, **kw)
    no_late_release(spec)
    data = build(spec)
    pen = gen_penalties(d, spec)
    neigh = gen_neigh(d, spec, data)
    ctx.note(
        spec=spec,
        penalties=pen,
        neighbours={str(k): v for k, v in neigh.items()},
    )
    return spec, data, pen, neigh


def gen_sol(d, spec, data, complete=None):
    complete = d.bool(0.6) if complete is None else complete
    p = d.choice([0.8, 0.3, 1.0])
    return build_solution(data, gen_routes(d, spec, p, complete=complete))


def calls(d, ctx):
    """A history of calls on one search object, repeated on another."""
    spec, data, pen, neigh = gen_case(d, ctx)
    names = gen_ops(d, data)
    seed = d.seed()
    lo = d.small(0, 3)
    hi = lo + d.small(0, 6)
    ls, twin = (
        make(
            data,
            neigh,
            names,
            PerturbationManager(PerturbationParams(lo, hi)),
            RandomNumberGenerator(seed),
        )
        for _ in range(2)
    )
    ctx.ok(ls.neighbours == real_neighbours(neigh), "neighbours")
    whole = snap(data)
    log = []
    ctx.note(operators=names, log=log, perturbations=[lo, hi])
    sol = gen_sol(d, spec, data)
    for _ in range(d.int(1, 4)):
        if d.bool(0.4):
            sol = gen_sol(d, spec, data)
        if d.bool(0.3):
            pen = gen_penalties(d, spec)
        costs = Costs(spec, pen)
        exhaustive = d.bool()
        log.append((routes_of(sol), pen, exhaustive))
        kept = snap(sol)
        new = ls(sol, build_ce(pen), exhaustive)
        ctx.eq("input", diff(snap(sol), kept), None)
        check_result(ctx, spec, data, costs, ls, sol, new, exhaustive, hi)
        again = twin(sol, build_ce(pen), exhaustive)
        ctx.ok(again == new, "the same calls gave another solution")
        ctx.eq("statistics of the same calls", stats_of(twin), stats_of(ls))
        sol = new
    ctx.eq("instance", diff(snap(data), whole), None)


def repeats(d, ctx):
    """What was searched before does not matter."""
    spec, data, pen, neigh = gen_case(d, ctx)
    names = gen_ops(d, data)
    num = d.int(1, 4)
    pm = PerturbationManager(PerturbationParams(num, num))
    used, fresh = (make(data, neigh, names, pm) for _ in range(2))
    if d.bool():
        seed = d.seed()
        used.shuffle(RandomNumberGenerator(seed))
        fresh.shuffle(RandomNumberGenerator(seed))
    ctx.note(operators=names)
    for _ in range(d.int(1, 3)):
        other = gen_penalties(d, spec)
        used(gen_sol(d, spec, data), build_ce(other), d.bool())
    sol = gen_sol(d, spec, data)
    exhaustive = d.bool()
    costs = Costs(spec, pen)
    ctx.note(routes=routes_of(sol), exhaustive=exhaustive)
    want = fresh(sol, build_ce(pen), exhaustive)
    got = used(sol, build_ce(pen), exhaustive)
    ctx.ok(
        got == want,
        lambda: f"{routes_of(got)} after other searches, else {routes_of(want)}",
    )
    ctx.eq("statistics", stats_of(used), stats_of(fresh))
    check_result(ctx, spec, data, costs, used, sol, got, exhaustive, num)


def still(d, ctx):
    """Without perturbation or marks nothing is searched."""
    spec, data, pen, neigh = gen_case(d, ctx)
    pm = PerturbationManager(PerturbationParams(0, 0))
    ls = make(data, neigh, gen_ops(d, data), pm, RandomNumberGenerator(1))
    sol = gen_sol(d, spec, data, complete=True)
    new = ls(sol, build_ce(pen), exhaustive=False)
    ctx.ok(new == sol, "changed without perturbation")
    ctx.ok(new is not sol, "not a new object")
    ctx.eq("statistics", stats_of(ls), (0, 0, 0))
    ctx.nontrivial = bool(sol.routes())


def optima(d, ctx):
    """An exhaustive search leaves no improving move behind."""
    # Optional activities and groups are left out: whether they can be moved
    # may change with other routes than those a pair was last tested for.
    forbid = ("optional", "groups")
    spec, data, pen, neigh = gen_case(
        d, ctx, forbid=forbid, min_acts=2, max_clients=6, max_ships=2
    )
    names = d.sample(NAMES, d.int(1, 3)) if d.bool(0.7) else None
    names = gen_ops(d, data, names)
    full = d.bool(0.7)
    if full:
        neigh = gen_neighbours(d, spec, 1.0)
    ls = make(data, neigh, names, PerturbationManager(), RandomNumberGenerator(d.seed()))
    ctx.note(operators=names, full=full)
    ce, costs = build_ce(pen), Costs(spec, pen)
    sol = gen_sol(d, spec, data)
    ctx.note(routes=routes_of(sol))
    new = ls(sol, ce, exhaustive=True)
    check_result(ctx, spec, data, costs, ls, sol, new, True, 0)
    again = ls(new, ce, exhaustive=True)
    ctx.ok(
        again == new,
        lambda: f"{routes_of(new)} was searched exhaustively, but searching "
        f"again gives {routes_of(again)}",
    )
    ctx.eq("improving moves left", stats_of(ls)[1:], (0, 0))

    ss = S.Solution(data)
    ss.load(new)
    pat = pattern(ss)
    st = State(spec, pat)
    empty = {}
    for r, (v, acts) in enumerate(pat):
        if not acts:
            empty.setdefault(v, r)
    for U in all_keys(spec):
        for name in names:
            if name in UNARY:
                for cand in UNARY[name](st, U):
                    left(ctx, costs, pat, name, U, None, cand)
                continue
            # Operators for both directions of a pair are only tried if both
            # neighbour each other.
            spots = [(r, 0) for r in empty.values()]
            for v in neigh[U]:
                r, pos = st.where[v]
                if not full and name in ("Swap11", "Swap22", "Swap33", "SwapTails"):
                    continue
                spots.append((r, pos))
                if pos == 1:
                    spots.append((r, 0))
            for V in spots:
                # Tails are swapped from the route with the lower index; the
                # search never starts from depots and deliveries.
                if name == "SwapTails" and V[1] == 0 and st.acts(V[0]):
                    continue
                if name == "SwapTails" and V[1]:
                    if st.acts(V[0])[V[1] - 1][0] == "X":
                        continue
                for cand in BINARY[name](st, U, V):
                    left(ctx, costs, pat, name, U, V, cand)


def left(ctx, costs, pat, name, U, V, cand):
    delta = costs.delta(pat, tidy(cand))
    ctx.ok(
        delta >= 0,
        lambda: f"{name}{U, V} improves {pat} by {-delta}, but was not made",
    )


def optional(d, ctx):
    """Optional visits are dropped and inserted when that pays off."""
    spec, data, pen, neigh = gen_case(
        d, ctx, force=("optional",), forbid=("groups",), min_acts=2
    )
    names = d.sample(
        [
            "RemoveOptionalClient",
            "RemoveOptionalShipment",
            "InsertOptionalClient",
            "InsertOptionalShipment",
            "Relocate1",
            "RelocateDelivery",
        ],
        4,
    )
    names = gen_ops(d, data, names)
    ls = make(data, neigh, names, PerturbationManager(), RandomNumberGenerator(d.seed()))
    ctx.note(operators=names)
    ce, costs = build_ce(pen), Costs(spec, pen)
    sol = gen_sol(d, spec, data)
    ctx.note(routes=routes_of(sol))
    new = ls(sol, ce, exhaustive=True)
    check_result(ctx, spec, data, costs, ls, sol, new, True, 0)
    ss = S.Solution(data)
    ss.load(new)
    pat = pattern(ss)
    st = State(spec, pat)
    for U in all_keys(spec):
        for name in names:
            if name in UNARY:
                for cand in UNARY[name](st, U):
                    left(ctx, costs, pat, name, U, None, cand)


SUBS = [
    Sub("calls", calls, 5000),
    Sub("repeats", repeats, 3000),
    Sub("still", still, 800),
    Sub("optima", optima, 6000),
    Sub("optional", optional, 2500),
    Sub("large_calls", large(calls), 60),
    Sub("giant_calls", giant(calls, 300), 10, 100),
    Sub("large_repeats", large(repeats), 60),
]
