"""C13: search solutions."""

from engine import Sub
from gen import (
    build,
    build_ce,
    build_solution,
    canon,
    from_act,
    gen_penalties,
    gen_routes,
    gen_spec,
    giant,
    large,
    routes_of,
    to_act,
)
from pyvrp import RandomNumberGenerator
from pyvrp.search import _search as S
from ref import RouteRef
from sutil import (
    Costs,
    all_keys,
    all_visits,
    gen_neighbours,
    nonempty,
    pattern,
    real_neighbours,
    valid_pattern,
)

RULE = (
    "A case is a random instance with a history of solutions loaded into one "
    "search solution, interleaved with removals and insertions, or a random "
    "search solution with one insertion. Non-trivial: a non-empty solution "
    "was loaded, or an insertion was attempted."
)


def check_shape(spec, ss, want, ctx):
    """want: list of (vehicle type, activities) of all routes."""
    ctx.eq("routes", pattern(ss), want)
    placed = {}
    for r, (_, acts) in enumerate(want):
        for pos, act in enumerate(acts, 1):
            if act[0] != "D":
                placed[act] = (r, pos)
    routes = ss.routes
    for act in all_visits(spec):
        node = ss[to_act(act)]
        ctx.eq("lookup", from_act(node.activity), act)
        if act[0] == "C":
            ctx.ok(node is ss.clients[act[1]], "client lookup")
        else:
            pair = ss.shipments[act[1]]
            ctx.ok(node is pair[act[0] == "X"], "shipment lookup")
        if act in placed:
            r, pos = placed[act]
            ctx.ok(node.route is routes[r], f"{act}: route")
            ctx.eq(f"{act}: pos", node.pos, pos)
            ctx.ok(routes[r][pos] is node, f"{act}: node at its position")
        else:
            ctx.ok(node.route is None, f"{act}: not planned, but has a route")
    for depot in range(len(spec.depots)):
        ctx.ok(ss[to_act(("D", depot))] is None, "lookup of a depot")


def check_stats(spec, ss, want, ctx):
    for route, (vt, acts) in zip(ss.routes, want):
        ref = RouteRef(spec, vt, acts)
        ctx.eq("distance", route.distance(), ref.distance)
        ctx.eq("duration", route.duration(), ref.duration)
        ctx.eq("time warp", route.time_warp(), ref.time_warp)
        ctx.eq("excess load", list(route.excess_load()), ref.excess_load)
        ctx.eq("clients", route.num_clients(), ref.num_clients)
        ctx.eq("shipments", route.num_shipments(), ref.num_shipments)


def layout(spec, routes):
    """Where a solution's routes go: in order, per vehicle type."""
    out = []
    for vt in range(len(spec.vtypes)):
        mine = [acts for v, acts in routes if v == vt]
        mine += [[]] * (spec.vtypes[vt].num - len(mine))
        out += [(vt, list(acts)) for acts in mine]
    return out


def related(d, spec, routes):
    """A variation on a solution, so that some routes stay as they are."""
    kind = d.weighted(
        [
            (2, "same"),
            (3, "drop"),
            (3, "permute"),
            (3, "reverse"),
            (3, "move"),
            (3, "depot"),
            (2, "other"),
        ]
    )
    routes = [(v, list(a)) for v, a in routes]
    if not routes:
        return gen_routes(d, spec)
    if kind == "drop":
        del routes[d.int(0, len(routes) - 1)]
    elif kind == "permute":
        routes = d.shuffle(routes)
    elif kind == "reverse":
        r = d.int(0, len(routes) - 1)
        v, acts = routes[r]
        if all(k in "CD" for k, _ in acts):
            routes[r] = (v, acts[::-1])
    elif kind == "move":
        a, b = d.int(0, len(routes) - 1), d.int(0, len(routes) - 1)
        clients = [x for x in routes[a][1] if x[0] == "C"]
        if clients:
            c = d.choice(clients)
            routes[a][1].remove(c)
            routes[b][1].insert(d.int(0, len(routes[b][1])), c)
            routes = nonempty(routes)
    elif kind == "depot":  # reload somewhere else
        r = d.int(0, len(routes) - 1)
        v, acts = routes[r]
        at = [i for i, (k, _) in enumerate(acts) if k == "D"]
        if at:
            acts[d.choice(at)] = ("D", d.choice(spec.vtypes[v].reloads))
    elif kind == "other":  # exchange a planned for an unplanned client
        seen = {x for _, acts in routes for x in acts}
        new = [("C", i) for i in range(len(spec.clients))]
        new = [x for x in new if x not in seen]
        r = d.int(0, len(routes) - 1)
        at = [i for i, (k, _) in enumerate(routes[r][1]) if k == "C"]
        if new and at and not spec.groups:
            routes[r][1][d.choice(at)] = d.choice(new)
    return routes


def flatten(spec):
    """Makes all distances and durations equal to zero."""
    for mats in (spec.dist, spec.dur):
        for p, mat in enumerate(mats):
            mats[p] = [[0] * len(row) for row in mat]


def loads(d, ctx):
    spec = gen_spec(d)
    if d.bool(0.3):  # so that different routes are hard to tell apart
        flatten(spec)
    data = build(spec)
    ss = S.Solution(data)
    check_shape(spec, ss, layout(spec, []), ctx)
    routes = []
    log = []
    ctx.note(spec=spec, log=log)
    for _ in range(d.int(1, 5)):
        if d.bool(0.5):
            routes = gen_routes(d, spec, p_visit=d.choice([0.9, 0.5]))
        else:
            routes = related(d, spec, routes)
        log.append(routes)
        sol = build_solution(data, routes)
        before = canon(routes_of(sol))
        ss.load(sol)
        if routes:
            ctx.nontrivial = True
        # The plain solution may order its routes differently from how they
        # were given.
        want = layout(spec, routes_of(sol))
        ctx.eq("kept routes", before, canon(routes))
        check_shape(spec, ss, want, ctx)
        check_stats(spec, ss, want, ctx)
        out = ss.unload()
        ctx.ok(out == sol, lambda: f"{routes_of(out)} is not {routes}")
        ctx.eq("exported", canon(routes_of(out)), canon(routes))
        ctx.eq("plain solution", canon(routes_of(sol)), before)
        pen = gen_penalties(d, spec)
        ce = build_ce(pen)
        ctx.eq("cost", ce.penalised_cost(out), ce.penalised_cost(sol))
        if d.bool(0.4):  # some edits, which the next load must undo
            pat = pattern(ss)
            acts = [x for _, a in pat for x in a if x[0] == "C"]
            for c in d.sample(acts, d.int(0, len(acts))):
                log.append(("remove", c))
                node = ss[to_act(c)]
                route = node.route
                del route[node.pos]
                route.update()
            ctx.label("edited")


def spots_client(st_pat, U, neigh):
    """Candidate placements (route, position) near the neighbours."""
    out = [(0, 0)]
    where = {}
    for r, (_, acts) in enumerate(st_pat):
        for pos, act in enumerate(acts, 1):
            where[act] = (r, pos)
    for v in neigh[U]:
        if v in where:
            out.append(where[v])
    return out


def first_empty(spec, pat):
    """The first empty route of each vehicle type that has one."""
    out = {}
    for r, (v, acts) in enumerate(pat):
        if not any(k != "D" for k, _ in acts) and v not in out:
            out[v] = r
    return out


def put(pat, r, acts):
    return [(v, acts if i == r else a) for i, (v, a) in enumerate(pat)]


def client_options(spec, pat, U, neigh):
    near = []
    for r, pos in spots_client(pat, U, neigh):
        acts = pat[r][1]
        near.append(put(pat, r, acts[:pos] + [U] + acts[pos:]))
    empty = [
        put(pat, r, [U] + pat[r][1])
        for r in first_empty(spec, pat).values()
    ]
    return near, empty


def ship_options(spec, pat, U, neigh):
    near = []
    where = {}
    for r, (_, acts) in enumerate(pat):
        for pos, act in enumerate(acts, 1):
            where[act] = (r, pos)
    p, x = U, ("X", U[1])
    for v in neigh[U]:
        if v not in where:
            continue
        r, pos = where[v]
        acts = pat[r][1]
        for after in (pos - 1, pos):
            end = after
            while True:
                new = acts[:after] + [p] + acts[after:end] + [x] + acts[end:]
                near.append(put(pat, r, new))
                if end == len(acts) or acts[end][0] == "D":
                    break
                end += 1
    empty = [
        put(pat, r, [p, x] + pat[r][1])
        for r in first_empty(spec, pat).values()
    ]
    return near, empty


def inserts(d, ctx):
    spec = gen_spec(d, min_acts=1)
    data = build(spec)
    pen = gen_penalties(d, spec)
    ce = build_ce(pen)
    costs = Costs(spec, pen)
    neigh = gen_neighbours(d, spec)
    space = S.SearchSpace(data, real_neighbours(neigh))
    if d.bool():
        space.shuffle(RandomNumberGenerator(d.seed()))
    ss = S.Solution(data)
    routes = gen_routes(d, spec, p_visit=d.choice([0.5, 0.8, 0.1]))
    ss.load(build_solution(data, routes))
    log = []
    ctx.note(spec=spec, routes=routes, neighbours={str(k): v for k, v in neigh.items()}, penalties=pen, log=log)
    for _ in range(d.int(1, 4)):
        before = pattern(ss)
        have = {x for _, a in before for x in a}
        free = [k for k in all_keys(spec) if k not in have]
        if not free:
            break
        ctx.nontrivial = True
        U = d.choice(free)
        required = d.bool()
        log.append((U, required))
        if U[0] == "C":
            near, empty = client_options(spec, before, U, neigh)
            done = ss.insert(ss.clients[U[1]], space, ce, required)
        else:
            near, empty = ship_options(spec, before, U, neigh)
            done = ss.insert(*ss.shipments[U[1]], space, ce, required)
        for route in ss.routes:
            route.update()
        after = pattern(ss)
        what = f"insert {U} (required={required})"
        if required:
            ctx.ok(done, f"{what} failed")
        if not done:
            ctx.eq(f"{what} failed, state", after, before)
            ctx.label("not inserted")
        else:
            new = {U, ("X", U[1])} if U[0] == "P" else {U}
            stripped = [
                (v, [x for x in a if x not in new]) for v, a in after
            ]
            ctx.eq(f"{what}: everything else", stripped, before)
            ctx.eq(f"{what}: structure", valid_pattern(spec, after), [])
            ctx.label(f"inserted {U[0]}")
        check_shape(spec, ss, after, ctx)

        options = near + empty
        if any(costs.any_vague(o) for o in (before, after, *options)):
            continue
        vals = [costs.delta(before, o) for o in near]
        best = min(vals, default=None)
        empties = [costs.delta(before, o) for o in empty]
        better = [v for v in empties if best is None or v < best]
        if not done:
            # The first empty route that is cheaper than the placements near
            # the neighbours is the one considered, whether it improves or not.
            ctx.ok(
                all(v >= 0 for v in vals),
                f"{what}: improving placement ({best}) ignored",
            )
            ctx.ok(
                not better or any(v >= 0 for v in better),
                f"{what}: improving empty routes ({better}) ignored",
            )
            continue
        got = costs.delta(before, after)
        if not required:
            ctx.ok(got < 0, f"{what}: optional insertion at cost {got}")
        if options:
            ctx.ok(
                got in (better or [best]),
                f"{what}: at {got}, near {vals}, empty {empties}",
            )


SUBS = [
    Sub("loads", loads, 12000),
    Sub("inserts", inserts, 25000),
    Sub("large_loads", large(loads), 100),
    Sub("giant_loads", giant(loads, 300), 10, 100),
    Sub("large_inserts", large(inserts), 100),
    Sub("giant_inserts", giant(inserts, 300), 10, 100),
]
