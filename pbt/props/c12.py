"""C12: perturbation and search space."""

from engine import Sub
from gen import (
    build,
    build_ce,
    build_solution,
    from_act,
    gen_penalties,
    gen_routes,
    gen_spec,
    giant,
    large,
    to_act,
)
from pyvrp import RandomNumberGenerator
from pyvrp.search import LocalSearch
from pyvrp.search import _search as S
from sutil import (
    all_keys,
    gen_neighbours,
    pattern,
    real_neighbours,
    valid_pattern,
)

RULE = (
    "A case is a random instance, solution, neighbourhood and number of "
    "perturbations, or a history of marks, shuffles and neighbourhood changes "
    "on a search space. Non-trivial: at least one activity was perturbed, or "
    "at least three operations on a non-empty search space."
)


def marks(space, spec):
    return {k for k in all_keys(spec) if space.is_promising(to_act(k))}


def key_of(act):
    """Shipments are marked as a whole."""
    return ("P", act[1]) if act[0] == "X" else act


def around(pat, act):
    """An activity and its direct neighbours in its route, depots aside."""
    for _, acts in pat:
        if act in acts:
            pos = acts.index(act)
            near = acts[max(pos - 1, 0) : pos + 2]
            return {key_of(x) for x in near if x[0] != "D"}
    raise AssertionError(act)


def where(pat, act):
    for r, (_, acts) in enumerate(pat):
        if act in acts:
            return r
    return None


def without(pat, gone):
    return [(v, [x for x in acts if x not in gone]) for v, acts in pat]


def both(act):
    return {act, ("X", act[1])} if act[0] == "P" else {act}


def expected_moves(pat, order, neigh, num):
    """
    The activities that are perturbed, in order, with whether they are removed.
    Follows only which activities are planned, as the routes that insertions
    go to are not modelled: those of groups found later are given by `where`.
    """
    moves, done = [], set()
    pat = [(v, list(a)) for v, a in pat]
    for U in order:
        groups = {}
        for x in (U, *(key_of(v) for v in neigh[U])):
            if x in done:
                continue
            done.add(x)
            groups.setdefault(where(pat, x), []).append(x)
        for route, members in groups.items():
            for x in members:
                moves.append((x, route is not None))
                if len(moves) == num:
                    return moves
                if route is not None:
                    pat = without(pat, both(x))
    return moves


def perturbs(d, ctx):
    spec = gen_spec(d)
    data = build(spec)
    pen = gen_penalties(d, spec)
    neigh = gen_neighbours(d, spec)
    space = S.SearchSpace(data, real_neighbours(neigh))
    lo = d.small(0, 6)
    hi = lo + d.small(0, 8)
    pm = S.PerturbationManager(S.PerturbationParams(lo, hi))
    ctx.eq("initial number", pm.num_perturbations(), lo)
    rng = RandomNumberGenerator(d.seed())
    if d.bool(0.8):
        pm.shuffle(rng)
        space.shuffle(rng)
    num = pm.num_perturbations()
    ctx.ok(lo <= num <= hi, lambda: f"{num} perturbations not in [{lo}, {hi}]")
    ss = S.Solution(data)
    routes = gen_routes(d, spec, p_visit=d.choice([0.9, 0.5, 0.1]))
    sol = build_solution(data, routes)
    ss.load(sol)
    ctx.note(
        spec=spec,
        routes=routes,
        neighbours={str(k): v for k, v in neigh.items()},
        perturbations=[lo, hi, num],
    )
    before = pattern(ss)
    for k in d.subset(all_keys(spec), 0.3):
        space.mark_promising(to_act(k))
    old = marks(space, spec)
    order = [from_act(a) for a in space.activity_order()]
    moves = expected_moves(before, order, neigh, num) if num else []

    pm.perturb(ss, space, build_ce(pen))

    after = pattern(ss)
    ctx.eq("number stays", pm.num_perturbations(), num)
    ctx.eq("order stays", [from_act(a) for a in space.activity_order()], order)
    if not num:
        ctx.eq("no perturbation, state", after, before)
        ctx.eq("no perturbation, marks", marks(space, spec), old)
        return

    removed = {x for m, gone in moves if gone for x in both(m)}
    added = {x for m, gone in moves if not gone for x in both(m)}
    ctx.nontrivial = bool(moves)
    if removed:
        ctx.label("removals")
    if added:
        ctx.label("insertions")
    had = {x for _, a in before for x in a if x[0] != "D"}
    have = {x for _, a in after for x in a if x[0] != "D"}
    ctx.eq("removed", sorted(had - have), sorted(removed))
    ctx.eq("inserted", sorted(have - had), sorted(added))
    ctx.eq("everything else", without(after, added), without(before, removed))
    ctx.eq("structure", valid_pattern(spec, after), [])
    for route in ss.routes:
        for pos, node in enumerate(route):
            ctx.eq("position", node.pos, pos)
            ctx.ok(node.route is route, "route of a planned node")
    for x in removed - added:
        ctx.ok(ss[to_act(x)].route is None, f"{x}: removed, but has a route")

    now = marks(space, spec)
    for m, _ in moves:
        ctx.ok(m in now, f"{m} was perturbed, but is not promising")
    if not added:
        want, pat = set(), before
        for m, _ in moves:
            want |= around(pat, m)
            pat = without(pat, {m})
            if m[0] == "P":
                want |= around(pat, ("X", m[1]))
                pat = without(pat, {("X", m[1])})
        ctx.eq("marks", sorted(now), sorted(want))

    # The same again gives the same.
    again = S.Solution(data)
    again.load(sol)
    pm.perturb(again, space, build_ce(pen))
    ctx.eq("repeat", pattern(again), after)
    ctx.eq("repeat, marks", marks(space, spec), now)


def numbers(d, ctx):
    """The number of perturbations over many draws."""
    lo = d.small(0, 30)
    hi = lo + d.weighted([(3, 1), (1, 0), (3, 3), (1, 10)])
    params = S.PerturbationParams(lo, hi)
    ctx.eq("min", params.min_perturbations, lo)
    ctx.eq("max", params.max_perturbations, hi)
    pm = S.PerturbationManager(params)
    rng = RandomNumberGenerator(d.seed())
    seen = set()
    for _ in range(60 * (hi - lo + 1)):
        pm.shuffle(rng)
        seen.add(pm.num_perturbations())
    # Missing a number has probability below 1e-23 each.
    ctx.eq("numbers drawn", sorted(seen), list(range(lo, hi + 1)))
    if lo != hi:
        ctx.raises("min > max", S.PerturbationParams, hi, lo)
        ctx.nontrivial = True
    ctx.note(lo=lo, hi=hi)
    other = S.PerturbationParams(
        lo + d.int(0, 1), hi + d.int(1, 2) * d.int(0, 1)
    ) if hi > lo else S.PerturbationParams(lo, hi + d.int(0, 1))
    same = (other.min_perturbations, other.max_perturbations) == (lo, hi)
    ctx.eq("equality", params == other, same)


def spaces(d, ctx):
    spec = gen_spec(d)
    data = build(spec)
    neigh = gen_neighbours(d, spec)
    space = S.SearchSpace(data, real_neighbours(neigh))
    rng0 = RandomNumberGenerator(1)
    search = LocalSearch(data, rng0, real_neighbours(neigh))
    keys = all_keys(spec)
    offsets, off = [], 0
    for v, vt in enumerate(spec.vtypes):
        offsets.append((v, off))
        off += vt.num
    ctx.eq("first order", [from_act(a) for a in space.activity_order()], keys)
    ctx.eq("first vehicle types", list(space.veh_type_order()), offsets)
    ss = S.Solution(data)
    routes = gen_routes(d, spec, p_visit=0.8)
    ss.load(build_solution(data, routes))
    pat = pattern(ss)
    model = set()
    log = []
    ctx.note(spec=spec, routes=routes, log=log)
    for _ in range(d.int(1, 12)):
        op = d.choice(
            ["mark", "node", "shuffle", "all", "none", "neigh", "bad", "depot"]
        )
        log.append(op)
        if op == "mark" and keys:
            act = d.choice(keys)
            if act[0] == "P" and d.bool():
                act = ("X", act[1])
            space.mark_promising(to_act(act))
            model.add(key_of(act))
        elif op == "node":
            planned = [x for _, a in pat for x in a if x[0] != "D"]
            if planned:
                act = d.choice(planned)
                space.mark_promising(ss[to_act(act)])
                model |= around(pat, act)
        elif op == "depot":
            r = d.int(0, len(pat) - 1)
            acts = pat[r][1]
            spots = [0, len(acts) + 1]
            spots += [i for i, x in enumerate(acts, 1) if x[0] == "D"]
            pos = d.choice(spots)
            space.mark_promising(ss.routes[r][pos])
            full = [("D", 0), *acts, ("D", 0)]
            near = full[max(pos - 1, 0) : pos + 2]
            model |= {key_of(x) for x in near if x[0] != "D"}
        elif op == "shuffle":
            seed = d.seed()
            rng, rng2 = RandomNumberGenerator(seed), RandomNumberGenerator(seed)
            twin = S.SearchSpace(data, real_neighbours(neigh))
            fresh = len([x for x in log if x == "shuffle"]) == 1
            space.shuffle(rng)
            twin.shuffle(rng2)
            if fresh:
                ctx.ok(
                    list(twin.activity_order()) == list(space.activity_order())
                    and list(twin.veh_type_order())
                    == list(space.veh_type_order()),
                    "the same random state gives different orders",
                )
        elif op == "all":
            space.mark_all_promising()
            model = set(keys)
        elif op == "none":
            space.unmark_all_promising()
            model = set()
        elif op == "neigh":
            neigh = gen_neighbours(d, spec)
            space.neighbours = real_neighbours(neigh)
            search.neighbours = real_neighbours(neigh)
        elif op == "bad" and keys:
            bad = {k: list(v) for k, v in neigh.items()}
            how = d.choice(["self", "few", "kind", "many"])
            log.append(how)
            k = d.choice(keys)
            if how == "self":
                bad[k].insert(d.int(0, len(bad[k])), k)
            elif how == "few":
                if len(bad) == 1:
                    continue
                del bad[k]
            elif how == "many":
                bad[("P", len(spec.shipments))] = []
            elif how == "kind":
                del bad[k]
                bad[(d.choice("DX"), d.int(0, 3))] = []
            real = real_neighbours(bad)
            ctx.raises(f"constructor, {how}", S.SearchSpace, data, real)
            ctx.raises(
                f"setter, {how}", setattr, space, "neighbours", real
            )
            ctx.raises(f"search, {how}", LocalSearch, data, rng0, real)
            ctx.raises(
                f"search setter, {how}", setattr, search, "neighbours", real
            )
        ctx.eq("marks", sorted(marks(space, spec)), sorted(model))
        for i in range(len(spec.shipments)):
            ctx.eq(
                "mark of a delivery",
                space.is_promising(to_act(("X", i))),
                ("P", i) in model,
            )
        order = [from_act(a) for a in space.activity_order()]
        ctx.eq("activities", sorted(order), sorted(keys))
        ctx.eq("types", sorted(space.veh_type_order()), offsets)
        ctx.ok(space.neighbours == real_neighbours(neigh), "neighbours")
        ctx.ok(
            search.neighbours == real_neighbours(neigh),
            "neighbours of the local search",
        )
        for k in keys:
            got = [from_act(a) for a in space.neighbours_of(to_act(k))]
            ctx.eq(f"neighbours of {k}", got, neigh[k])
    ctx.eq("search solution", pattern(ss), pat)
    ctx.nontrivial = len(log) >= 3 and bool(keys)


def orders(d, ctx):
    """Shuffling can put everything everywhere."""
    spec = gen_spec(d, max_clients=4, max_ships=2)
    data = build(spec)
    keys = all_keys(spec)
    neigh = real_neighbours({k: [] for k in keys})
    num = max(len(keys), len(spec.vtypes))
    rng = RandomNumberGenerator(d.seed())
    ctx.note(spec=spec)
    acts, types = set(), set()
    for _ in range(50 * num):  # each misses a place with chance e**-50
        space = S.SearchSpace(data, neigh)
        space.shuffle(rng)
        acts |= {
            (from_act(a), i) for i, a in enumerate(space.activity_order())
        }
        types |= {(v, i) for i, (v, _) in enumerate(space.veh_type_order())}
    want = {(k, i) for k in keys for i in range(len(keys))}
    ctx.eq("places of activities", acts, want)
    n_types = len(spec.vtypes)
    want = {(v, i) for v in range(n_types) for i in range(n_types)}
    ctx.eq("places of vehicle types", types, want)
    ctx.nontrivial = num > 1


SUBS = [
    Sub("perturbs", perturbs, 14000),
    Sub("numbers", numbers, 600),
    Sub("spaces", spaces, 8000),
    Sub("orders", orders, 200),
    Sub("large_perturbs", large(perturbs), 200),
    Sub("giant_perturbs", giant(perturbs, 260), 4, 60),
    Sub("large_spaces", large(spaces), 40),
    Sub("giant_spaces", giant(spaces, 260), 4, 60),
]
