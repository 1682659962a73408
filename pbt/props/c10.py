"""C10: local search operators."""

import numpy as np
from engine import Sub
from gen import build, build_ce, build_solution, gen_penalties, gen_routes
from gen import gen_spec, to_act
from pyvrp import (
    Activity,
    Client,
    CostEvaluator,
    Depot,
    Location,
    ProblemData,
    Route,
    VehicleType,
)
from pyvrp import Solution as PlainSolution
from pyvrp.search import PerturbationManager, PerturbationParams
from pyvrp.search import _search as S
from ref import SolutionRef, max_trips
from sutil import (
    Costs,
    gen_neighbours,
    no_late_release,
    pattern,
    real_neighbours,
    valid_pattern,
)

RULE = (
    "A case is a random instance and solution loaded into the search "
    "representation, on which operators are evaluated at random nodes and "
    "applied when they say so. Non-trivial: at least one move was applied, or "
    "at least one structurally possible move was declined."
)


# --- models of what each operator may do ------------------------------------


class State:
    def __init__(self, spec, pat):
        self.spec = spec
        self.pat = [(v, list(a)) for v, a in pat]
        self.where = {}
        for r, (_, acts) in enumerate(self.pat):
            for pos, act in enumerate(acts, 1):
                if act[0] != "D":
                    self.where[act] = (r, pos)

    def acts(self, r):
        return self.pat[r][1]

    def trip(self, r, pos):
        return sum(k == "D" for k, _ in self.acts(r)[:pos])

    def num_trips(self, r):
        return 1 + sum(k == "D" for k, _ in self.acts(r))

    def open(self, r, pos):
        """Number of shipments on board after position pos."""
        part = self.acts(r)[:pos]
        return sum(k == "P" for k, _ in part) - sum(k == "X" for k, _ in part)

    def empty(self, r):
        return not any(k != "D" for k, _ in self.acts(r))

    def with_(self, **routes):
        raise NotImplementedError

    def replaced(self, new):
        return [
            (v, new[r] if r in new else a) for r, (v, a) in enumerate(self.pat)
        ]

    def closed(self, r, pos, num):
        """Whether pos, pos + 1, ... is a segment that can be moved freely."""
        acts = self.acts(r)
        seg = acts[pos - 1 : pos - 1 + num]
        if pos < 1 or len(seg) != num or any(k == "D" for k, _ in seg):
            return False
        return self.open(r, pos - 1) == 0 and self.open(r, pos + num - 1) == 0


def insert_after(acts, pos, new):
    return acts[:pos] + new + acts[pos:]


def relocate(num):
    def cands(st, U, V):
        if U not in st.where:
            return
        (ru, pu), (rv, pv) = st.where[U], V
        if not st.closed(ru, pu, num):
            return
        au, av = st.acts(ru), st.acts(rv)
        seg = au[pu - 1 : pu - 1 + num]
        rest = au[: pu - 1] + au[pu - 1 + num :]
        if ru != rv:
            yield st.replaced({ru: rest, rv: insert_after(av, pv, seg)})
            return
        if st.trip(ru, pu) != st.trip(rv, pv):
            return
        if pu <= pv <= pu + num - 1 or pu == pv + 1:
            return
        at = pv if pv < pu else pv - num
        yield st.replaced({ru: insert_after(rest, at, seg)})

    return cands


def swap(num, other):
    def cands(st, U, V):
        if U not in st.where:
            return
        (ru, pu), (rv, pv) = st.where[U], V
        if not st.closed(ru, pu, num) or not st.closed(rv, pv, other):
            return
        au, av = st.acts(ru), st.acts(rv)
        if num == other and V_key(st, V)[1] == U[1]:
            if V_key(st, V)[0] == U[0]:
                return
        segu = au[pu - 1 : pu - 1 + num]
        segv = av[pv - 1 : pv - 1 + other]
        if ru != rv:
            newu = au[: pu - 1] + segv + au[pu - 1 + num :]
            newv = av[: pv - 1] + segu + av[pv - 1 + other :]
            yield st.replaced({ru: newu, rv: newv})
            return
        if st.trip(ru, pu) != st.trip(rv, pv):
            return
        if pu + num < pv:
            mid = au[pu - 1 + num : pv - 1]
            new = au[: pu - 1] + segv + mid + segu + au[pv - 1 + other :]
        elif pv + other < pu:
            mid = au[pv - 1 + other : pu - 1]
            new = au[: pv - 1] + segu + mid + segv + au[pu - 1 + num :]
        else:
            return
        yield st.replaced({ru: new})

    return cands


def V_key(st, V):
    r, pos = V
    return st.acts(r)[pos - 1] if pos else ("D", None)


def swap_tails(st, U, V):
    if U not in st.where:
        return
    (ru, pu), (rv, pv) = st.where[U], V
    if ru == rv:
        return
    if st.trip(ru, pu) + 1 != st.num_trips(ru):
        return
    if st.trip(rv, pv) + 1 != st.num_trips(rv):
        return
    if st.open(ru, pu) or st.open(rv, pv):
        return
    au, av = st.acts(ru), st.acts(rv)
    yield st.replaced({ru: au[:pu] + av[pv:], rv: av[:pv] + au[pu:]})


def relocate_with_depot(st, U, V):
    if U not in st.where or U[0] != "C":
        return
    (ru, pu), (rv, pv) = st.where[U], V
    if (ru == rv and pu in (pv, pv + 1)) or st.empty(rv):
        return
    vt = st.spec.vtypes[st.pat[rv][0]]
    if st.num_trips(rv) >= max_trips(vt) or st.open(rv, pv):
        return
    if ru == rv and st.trip(ru, pu) != st.trip(rv, pv):
        return
    au, av = st.acts(ru), st.acts(rv)
    before_depot = pv < len(av) and av[pv][0] == "D"
    for depot in vt.reloads:
        for new in ([("D", depot), U], [U, ("D", depot)]):
            if before_depot and new[0] == U:
                continue
            if ru != rv:
                yield st.replaced(
                    {
                        ru: au[: pu - 1] + au[pu:],
                        rv: insert_after(av, pv, new),
                    }
                )
            else:
                rest = au[: pu - 1] + au[pu:]
                at = pv if pv < pu else pv - 1
                yield st.replaced({ru: insert_after(rest, at, new)})


def remove_adjacent_depot(st, U):
    if U not in st.where:
        return
    r, pos = st.where[U]
    acts = st.acts(r)
    for at in (pos - 2, pos):
        if 0 <= at < len(acts) and acts[at][0] == "D":
            yield st.replaced({r: acts[:at] + acts[at + 1 :]})


def remove_optional_client(st, U):
    if U not in st.where or U[0] != "C":
        return
    c = st.spec.clients[U[1]]
    if c.required or (
        c.group is not None and st.spec.groups[c.group].required
    ):
        return
    r, pos = st.where[U]
    acts = st.acts(r)
    yield st.replaced({r: acts[: pos - 1] + acts[pos:]})


def remove_optional_shipment(st, U):
    if U not in st.where or U[0] != "P" or st.spec.shipments[U[1]].required:
        return
    r, _ = st.where[U]
    drop = (U, ("X", U[1]))
    yield st.replaced({r: [a for a in st.acts(r) if a not in drop]})


def insert_optional_client(st, U, V):
    if U in st.where or U[0] != "C":
        return
    c = st.spec.clients[U[1]]
    if c.group is not None:
        g = st.spec.groups[c.group]
        if g.required or any(("C", m) in st.where for m in g.clients):
            return
    rv, pv = V
    yield st.replaced({rv: insert_after(st.acts(rv), pv, [U])})


def pair_after(acts, pos, ship):
    """All ways to pick up after pos and deliver later in the same trip."""
    p, x = ("P", ship), ("X", ship)
    end = pos
    while True:
        yield acts[:pos] + [p] + acts[pos:end] + [x] + acts[end:]
        if end == len(acts) or acts[end][0] == "D":
            return
        end += 1


def insert_optional_shipment(st, U, V):
    if U in st.where or U[0] != "P":
        return
    rv, pv = V
    for new in pair_after(st.acts(rv), pv, U[1]):
        yield st.replaced({rv: new})


def replace_optional_client(st, U, V):
    key = V_key(st, V)
    if U in st.where or U[0] != "C" or key[0] != "C":
        return
    u, v = st.spec.clients[U[1]], st.spec.clients[key[1]]
    if v.required or u.group is not None or v.group is not None:
        return
    rv, _ = V
    yield st.replaced({rv: [U if a == key else a for a in st.acts(rv)]})


def replace_optional_shipment(st, U, V):
    key = V_key(st, V)
    if U in st.where or U[0] != "P" or key[0] not in "PX":
        return
    if st.spec.shipments[key[1]].required:
        return
    rv, _ = V
    other = key[1]
    new = [
        (k, U[1]) if k in "PX" and i == other else (k, i)
        for k, i in st.acts(rv)
    ]
    yield st.replaced({rv: new})


def replace_group(st, U):
    if U in st.where or U[0] != "C":
        return
    c = st.spec.clients[U[1]]
    if c.group is None:
        return
    for m in st.spec.groups[c.group].clients:
        if ("C", m) in st.where:
            r, _ = st.where[("C", m)]
            yield st.replaced(
                {r: [U if a == ("C", m) else a for a in st.acts(r)]}
            )


def relocate_alternative(st, U, V):
    if U not in st.where or U[0] != "C":
        return
    c = st.spec.clients[U[1]]
    (ru, pu), (rv, pv) = st.where[U], V
    if c.group is None or (ru == rv and pu in (pv, pv + 1)):
        return
    if ru == rv and st.trip(ru, pu) != st.trip(rv, pv):
        return
    au, av = st.acts(ru), st.acts(rv)
    rest = au[: pu - 1] + au[pu:]
    for m in st.spec.groups[c.group].clients:
        alt = ("C", m)
        if alt == U:
            continue
        if ru != rv:
            yield st.replaced({ru: rest, rv: insert_after(av, pv, [alt])})
        else:
            at = pv if pv < pu else pv - 1
            yield st.replaced({ru: insert_after(rest, at, [alt])})


def relocate_delivery(st, U):
    if U not in st.where or U[0] != "P":
        return
    r, _ = st.where[U]
    x = ("X", U[1])
    rest = [a for a in st.acts(r) if a != x]
    at = rest.index(U) + 1
    while True:
        new = insert_after(rest, at, [x])
        if new != st.acts(r):
            yield st.replaced({r: new})
        if at == len(rest) or rest[at][0] == "D":
            return
        at += 1


def relocate_pickup(st, U):
    if U not in st.where or U[0] != "P":
        return
    r, _ = st.where[U]
    rest = [a for a in st.acts(r) if a != U]
    at = rest.index(("X", U[1]))
    while True:
        new = insert_after(rest, at, [U])
        if new != st.acts(r):
            yield st.replaced({r: new})
        if at == 0 or rest[at - 1][0] == "D":
            return
        at -= 1


def relocate_shipment(st, U, V):
    if U not in st.where or U[0] != "P":
        return
    (ru, _), (rv, pv) = st.where[U], V
    if ru == rv:
        return
    drop = (U, ("X", U[1]))
    rest = [a for a in st.acts(ru) if a not in drop]
    for new in pair_after(st.acts(rv), pv, U[1]):
        yield st.replaced({ru: rest, rv: new})


UNARY = {
    "RelocateDelivery": relocate_delivery,
    "RelocatePickup": relocate_pickup,
    "RemoveAdjacentDepot": remove_adjacent_depot,
    "RemoveOptionalClient": remove_optional_client,
    "RemoveOptionalShipment": remove_optional_shipment,
    "ReplaceGroup": replace_group,
}
BINARY = {
    "InsertOptionalClient": insert_optional_client,
    "InsertOptionalShipment": insert_optional_shipment,
    "Relocate1": relocate(1),
    "Relocate2": relocate(2),
    "Relocate3": relocate(3),
    "RelocateAlternative": relocate_alternative,
    "RelocateShipment": relocate_shipment,
    "RelocateWithDepot": relocate_with_depot,
    "ReplaceOptionalClient": replace_optional_client,
    "ReplaceOptionalShipment": replace_optional_shipment,
    "Swap11": swap(1, 1),
    "Swap21": swap(2, 1),
    "Swap22": swap(2, 2),
    "Swap31": swap(3, 1),
    "Swap32": swap(3, 2),
    "Swap33": swap(3, 3),
    "SwapTails": swap_tails,
}


# --- the real thing ----------------------------------------------------------


class World:
    def __init__(self, d, spec):
        self.spec = spec
        self.data = build(spec)
        self.reprice(gen_penalties(d, spec))
        self.ss = S.Solution(self.data)
        self.load(gen_routes(d, spec, p_visit=d.choice([0.8, 0.5, 1.0])))

    def reprice(self, pen):
        self.pen = pen
        self.ce = build_ce(pen)
        self.costs = Costs(self.spec, pen)

    def load(self, routes):
        self.routes = routes
        self.ss.load(build_solution(self.data, routes))

    def make(self, name):
        op = getattr(S, name)(self.data)
        if hasattr(op, "init"):
            op.init(self.ss)
        return op

    def node(self, key):
        return self.ss[to_act(key)]

    def vnode(self, V):
        r, pos = V
        return self.ss.routes[r][pos]

    def complete(self):
        return SolutionRef(self.spec, self.routes).complete

    def stats(self):
        return [
            (r.distance(), r.duration(), r.time_warp(), list(r.load()))
            for r in self.ss.routes
        ]

    def settle(self):
        """What the local search does after each move."""
        for route in self.ss.routes:
            route.update()
            if route.num_clients() + route.num_shipments() == 0:
                route.clear()


def tidy(pat):
    """Empty routes lose their left-over depots."""
    return [(v, a if any(k != "D" for k, _ in a) else []) for v, a in pat]


def try_move(w, ctx, op, name, U, V, do_apply):
    """Evaluates, and possibly applies, one move. Returns whether applied."""
    model = UNARY.get(name) or BINARY[name]
    before = pattern(w.ss)
    stats = w.stats()
    st = State(w.spec, before)
    args = (w.node(U),) if V is None else (w.node(U), w.vnode(V))
    margs = (st, U) if V is None else (st, U, V)
    delta, should = op.evaluate(*args, w.ce)
    ctx.eq(f"{name}{U, V}: state after evaluation", pattern(w.ss), before)
    ctx.eq(f"{name}{U, V}: statistics after evaluation", w.stats(), stats)

    cands = list(model(*margs))
    if not should:
        declined(w, ctx, op, name, U, V, before, cands, delta)
        return False

    ctx.ok(cands, f"{name}{U, V}: applies, but no such move exists")
    ctx.label(f"improving {name}")
    if name == "RemoveAdjacentDepot":
        ctx.ok(delta <= 0, f"{name}{U, V}: applies at delta {delta}")
    else:
        ctx.ok(delta < 0, f"{name}{U, V}: applies at delta {delta}")
    if not do_apply:
        # Even if not applied, the value must be that of some possible move.
        vals = [w.costs.delta(before, tidy(c)) for c in cands]
        if not any(w.costs.any_vague(c) for c in (before, *cands)):
            ctx.ok(
                delta in vals,
                f"{name}{U, V}: delta {delta} is not one of {vals}",
            )
        return False

    op.apply(*args)
    w.settle()
    after = pattern(w.ss)
    ctx.eq(f"{name}{U, V}: valid structure", valid_pattern(w.spec, after), [])
    ctx.ok(
        after in [tidy(c) for c in cands],
        f"{name}{U, V}: {before} became {after}, which is no such move",
    )
    if not w.costs.any_vague(before) and not w.costs.any_vague(after):
        want = w.costs.total(after) - w.costs.total(before)
        ctx.eq(f"{name}{U, V}: delta of {before} to {after}", delta, want)
    else:
        ctx.label("cost not compared")
    ctx.label(f"applied {name}")
    ctx.nontrivial = True
    # The exported solution agrees too.
    sol = w.ss.unload()
    if not w.costs.any_vague(after):
        ctx.eq(
            "exported cost",
            w.ce.penalised_cost(sol),
            w.costs.total(after),
        )
    return True


def declined(w, ctx, op, name, U, V, before, cands, delta):
    if not cands:
        return
    if any(w.costs.any_vague(c) for c in (before, *cands)):
        return
    best = min(w.costs.delta(before, tidy(c)) for c in cands)
    bound = 0 if name != "RemoveAdjacentDepot" else 1
    ctx.nontrivial = True
    ctx.label(f"declined {name}")
    if best >= bound:
        return
    # Symmetric moves are evaluated in only one of the two orders.
    if name in ("Swap11", "Swap22", "Swap33") or (
        name == "SwapTails" and V[1] > 0
    ):
        other = op.evaluate(w.vnode(V), w.node(U), w.ce)
        ctx.ok(
            other == (best, True),
            f"{name}{U, V}: improving move ({best}) declined in both orders",
        )
        return
    if name == "SwapTails":
        # With V at the start of a route the mirrored move does not exist, and
        # only one order of the routes is evaluated.
        ru = [r for r, (_, a) in enumerate(before) if U in a][0]
        if ru > V[0] and before[V[0]][1]:
            return
    ctx.ok(
        False,
        lambda: f"{name}{U, V}: improving move ({best}) in {before} declined"
        f" at {delta}",
    )


def gen_world(d, ctx, **kw):
    spec = gen_spec(d, min_acts=2, **kw)
    w = World(d, spec)
    ctx.note(spec=spec, penalties=w.pen, routes=w.routes)
    return w


def pick(d, w, name):
    keys = [("C", i) for i in range(len(w.spec.clients))]
    keys += [("P", i) for i in range(len(w.spec.shipments))]
    U = d.choice(keys)
    if name in UNARY:
        return U, None
    spots = []
    for r, (_, acts) in enumerate(pattern(w.ss)):
        spots.append((r, 0))
        for pos, act in enumerate(acts, 1):
            if act[0] != "D" and act != U:
                spots.append((r, pos))
    return U, d.choice(spots)


def moves(d, ctx, **kw):
    w = gen_world(d, ctx, **kw)
    ops = {}
    log = []
    ctx.note(moves=log)
    names = sorted(UNARY) + sorted(BINARY)
    for _ in range(d.int(6, 20)):
        name = d.choice(names)
        if name not in ops:
            ops[name] = w.make(name)
        # Prefer nodes for which the operator has something to do.
        st = State(w.spec, pattern(w.ss))
        model = UNARY.get(name) or BINARY[name]
        for _ in range(6):
            U, V = pick(d, w, name)
            margs = (st, U) if V is None else (st, U, V)
            if next(iter(model(*margs)), None) is not None:
                break
        log.append((name, U, V))
        stats = ops[name].statistics
        evals, appls = stats.num_evaluations, stats.num_applications
        applied = try_move(w, ctx, ops[name], name, U, V, d.bool(0.7))
        stats = ops[name].statistics
        ctx.ok(stats.num_evaluations > evals, "evaluation not counted")
        ctx.eq("applications", stats.num_applications, appls + applied)
        if applied:
            # Operators may cache route costs until told otherwise.
            again, ops = ops, {}
            if d.bool():
                if d.bool(0.3):
                    w.load(gen_routes(d, w.spec, p_visit=0.8))
                    log.append(("load", w.routes))
                if d.bool(0.5):
                    w.reprice(gen_penalties(d, w.spec))
                    log.append(("penalties", w.pen))
                for name, op in again.items():
                    if hasattr(op, "init"):
                        op.init(w.ss)
                        ops[name] = op


def neighbourhood(d, ctx):
    """One operator at every pair of nodes of a solution."""
    w = gen_world(d, ctx, max_clients=5, max_ships=2)
    name = d.choice(sorted(BINARY))
    ctx.note(operator=name)
    op = w.make(name)
    pat = pattern(w.ss)
    keys = [("C", i) for i in range(len(w.spec.clients))]
    keys += [("P", i) for i in range(len(w.spec.shipments))]
    supported = getattr(S, name).supports(w.data) or not w.complete()
    for U in keys:
        for r, (_, acts) in enumerate(pat):
            if not acts and r and pat[r - 1] == pat[r]:
                continue  # same as the previous empty route
            for pos in range(len(acts) + 1):
                if pos and (acts[pos - 1][0] == "D" or acts[pos - 1] == U):
                    continue
                V = (r, pos)
                try_move(w, ctx, op, name, U, V, False)
                if not supported and name != "SwapTails":
                    st = State(w.spec, pat)
                    cands = BINARY[name](st, U, V)
                    ctx.ok(
                        all(c == pat for c in cands),
                        f"{name} is unsupported, but applicable at {U, V}",
                    )


def unary(d, ctx):
    """Every unary operator at every activity."""
    w = gen_world(d, ctx)
    pat = pattern(w.ss)
    keys = [("C", i) for i in range(len(w.spec.clients))]
    keys += [("P", i) for i in range(len(w.spec.shipments))]
    for name in sorted(UNARY):
        op = w.make(name)
        supported = getattr(S, name).supports(w.data) or not w.complete()
        for U in keys:
            try_move(w, ctx, op, name, U, None, False)
            if not supported:
                cands = list(UNARY[name](State(w.spec, pat), U))
                ctx.eq(f"{name} is unsupported, moves at {U}", cands, [])


def relocates(d, ctx):
    """Segments within one tightly constrained route."""
    w = gen_world(d, ctx, max_clients=7, max_vtypes=2, max_num=1)
    names = ["Relocate1", "Relocate2", "Relocate3", "SwapTails"]
    names += ["Swap11", "Swap21", "Swap22", "Swap31", "Swap32", "Swap33"]
    log = []
    ctx.note(moves=log)
    for _ in range(d.int(5, 15)):
        name = d.choice(names)
        U, V = pick(d, w, name)
        log.append((name, U, V))
        try_move(w, ctx, w.make(name), name, U, V, True)


CACHING = [
    "Relocate1",
    "Relocate2",
    "Relocate3",
    "RelocateShipment",
    "RelocateWithDepot",
]


def cached(d, ctx):
    """
    Evaluations by operators that a local search has used before, and whose
    partial evaluations it has kept up to date.
    """
    spec = gen_spec(d, min_acts=2, max_clients=6)
    no_late_release(spec)
    w = World(d, spec)
    ctx.note(spec=spec, penalties=w.pen, routes=w.routes)
    names = [n for n in sorted(UNARY) + sorted(BINARY) if d.bool(0.6)]
    names = [n for n in names if getattr(S, n).supports(w.data)]
    neigh = gen_neighbours(d, spec)
    ctx.note(operators=names, neighbours=neigh)
    pm = PerturbationManager(PerturbationParams(0, 0))
    ls = S.LocalSearch(w.data, real_neighbours(neigh), pm)
    ops = {name: getattr(S, name)(w.data) for name in names}
    for op in ops.values():
        ls.add_operator(op)
    if not ops:
        return
    sol = build_solution(w.data, w.routes)
    log = []
    ctx.note(then=log)
    for step in range(d.int(1, 3)):
        if step and d.bool(0.6):  # another start, or other penalties
            routes = gen_routes(d, spec, p_visit=0.8)
            sol = build_solution(w.data, routes)
            log.append(routes)
        if step and d.bool(0.6):
            w.reprice(gen_penalties(d, spec))
            log.append(w.pen)
        sol = ls(sol, w.ce, d.bool(0.7))
        w.ss.load(sol)
        after = pattern(w.ss)
        # Operators that look up other nodes do so in the search's own copy of
        # the solution, so they cannot be evaluated on ours.
        own = [n for n in CACHING if n in ops]
        for _ in range(d.int(4, 12) if own else 0):
            name = d.choice(own)
            U, V = pick(d, w, name)
            try_move(w, ctx, ops[name], name, U, V, False)
        ctx.eq("evaluation changed the solution", pattern(w.ss), after)
    ctx.nontrivial = True


def known(d, ctx):
    """The recorded defect: a release time after the reload depot closed."""
    ctx.nontrivial = True
    mat = np.zeros((2, 2), dtype=int)
    data = ProblemData(
        [Location(0, 0), Location(0, 1)],
        [Client(1), Client(1, release_time=1), Client(1, required=False)],
        [Depot(0), Depot(0, tw_late=0)],
        [VehicleType(reload_depots=[1])],
        [mat],
        [mat],
    )
    ce = CostEvaluator([], 10, 0)
    before = Route(data, [Activity(x) for x in ("C0", "D1", "C1", "C2")], 0)
    after = Route(data, [Activity(x) for x in ("C0", "D1", "C1")], 0)
    ss = S.Solution(data)
    ss.load(PlainSolution(data, [before]))
    op = S.RemoveOptionalClient(data)
    op.init(ss)
    got = op.evaluate(ss.clients[2], ce)
    want = ce.penalised_cost(PlainSolution(data, [after]))
    want -= ce.penalised_cost(PlainSolution(data, [before]))
    ctx.eq("true delta", want, 0)
    if got == (-10, True):
        ctx.finding("release-after-depot-closes")
    else:
        ctx.eq("evaluated", got, (0, False))


SUBS = [
    Sub("moves", moves, 9000),
    Sub("neighbourhood", neighbourhood, 2500),
    Sub("unary", unary, 2500),
    Sub("relocates", relocates, 3000),
    Sub("cached", cached, 3000),
    Sub("known", known, 1, 1),
]
