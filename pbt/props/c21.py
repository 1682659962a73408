"""C21: fleet minimisation."""

from itertools import permutations
from math import comb, factorial

from engine import Discard, Sub
from gen import build, gen_spec, routes_of
from pyvrp import SolveParams, VehicleType, minimise_fleet, solve
from pyvrp.search import PerturbationParams
from pyvrp.stop import MaxIterations, NoImprovement
from ref import RouteRef, SolutionRef, max_trips, route_errors
from snap import diff, snap
from sutil import no_late_release

RULE = (
    "A case is a random instance with one vehicle type and only required "
    "clients and shipments, a stopping criterion and a seed. Non-trivial: "
    "the fleet has more than one vehicle and more than one visit is required."
)


class Scripted:
    """Stops at the given calls, and at every call from some number on."""

    def __init__(self, calls, last):
        self.calls, self.last = calls, last
        self.count = self.fired = 0

    def __call__(self, best):
        self.count += 1
        stop = self.count in self.calls or self.count >= self.last
        self.fired += stop
        return stop


class Fleet:
    """Exact minimum number of routes, by enumeration."""

    def __init__(self, spec):
        self.spec = spec
        self.items = [("C", i) for i in range(len(spec.clients))]
        self.items += [("P", i) for i in range(len(spec.shipments))]
        self.memo = {}

    def with_depots(self, seq):
        """All ways to reload between these visits."""
        vt = self.spec.vtypes[0]
        limit = min(max_trips(vt) - 1, len(seq) + 1)
        depots = sorted(set(vt.reloads))

        def rec(i, left):
            if i == len(seq):
                yield []
            else:
                for rest in rec(i + 1, left):
                    yield [seq[i], *rest]
            if left:
                for dep in depots:
                    for rest in rec(i, left - 1):
                        yield [("D", dep), *rest]

        yield from rec(0, limit)

    def feasible(self, part):
        """Whether one vehicle can visit exactly these."""
        if part not in self.memo:
            seq = [self.items[i] for i in part]
            seq += [("X", i) for k, i in seq if k == "P"]
            self.memo[part] = any(
                not route_errors(self.spec, 0, acts)
                and RouteRef(self.spec, 0, acts).feasible
                for perm in permutations(seq)
                for acts in self.with_depots(perm)
            )
        return self.memo[part]

    def fits(self, num):
        """Whether a feasible solution with at most num routes exists."""
        allitems = tuple(range(len(self.items)))

        def rec(left, num):
            if not left:
                return True
            if not num:
                return False
            first, rest = left[0], left[1:]
            for mask in range(2 ** len(rest)):
                sub = [x for i, x in enumerate(rest) if mask >> i & 1]
                other = tuple(x for i, x in enumerate(rest) if not mask >> i & 1)
                if self.feasible((first, *sub)) and rec(other, num - 1):
                    return True
            return False

        return rec(allitems, num)


def load_bound(spec):
    vt = spec.vtypes[0]
    bound = 0
    for dim in range(spec.dims):
        demand = max(
            sum(c.delivery[dim] for c in spec.clients),
            sum(c.pickup[dim] for c in spec.clients),
        )
        capacity = max(vt.capacity[dim] * max_trips(vt), 1)
        bound = max(bound, -(-demand // capacity))
    return bound


def minimise(d, ctx):
    spec = gen_spec(
        d,
        max_clients=4,
        max_ships=1,
        max_vtypes=1,
        max_num=6,
        forbid=("optional", "groups", "prize", "huge"),
    )
    no_late_release(spec)
    # Make feasibility more likely.
    for vt in spec.vtypes:
        if d.bool(0.7):
            vt.capacity = [c + 10 for c in vt.capacity]
    data = build(spec)
    before = snap(data)
    if d.bool(0.3):
        last = d.choice([10, 3, 1, 30, 100])
        stop = Scripted({d.int(1, last) for _ in range(d.int(0, 3))}, last)
        ctx.label("scripted")
    else:
        kind = d.choice([MaxIterations, NoImprovement])
        stop = kind(d.choice([10, 3, 1, 0, 30]))
    params = SolveParams(perturbation=PerturbationParams(1, 3))
    ctx.note(spec=spec)
    given = data.vehicle_type(0)
    got = minimise_fleet(data, stop, seed=d.int(0, 50), params=params)
    ctx.eq("instance", diff(snap(data), before), None)
    num = got.num_available
    ctx.ok(isinstance(got, VehicleType), "not a vehicle type")
    ctx.ok(
        got.replace(num_available=given.num_available) == given,
        lambda: f"{given} became {got}",
    )
    ctx.ok(
        got.replace(num_available=given.num_available, name=given.name)
        == given,
        "other field changed",
    )
    ctx.ok(1 <= num <= given.num_available, f"{num} vehicles")
    if isinstance(stop, Scripted) and not stop.fired:
        # There is no reason to give up but having reached the bound.
        ctx.label("bound reached")
        want = min(max(load_bound(spec), 1), given.num_available)
        ctx.eq("vehicles without having been stopped", num, want)
    visits = len(spec.clients) + len(spec.shipments)
    ctx.nontrivial = given.num_available > 1 and visits > 1
    if num == given.num_available:
        ctx.label("same")
        return
    ctx.label("smaller")
    ctx.ok(num >= load_bound(spec), f"{num} is below the load bound")
    # A feasible solution is quickly found, normally; else we enumerate.
    small = data.replace(vehicle_types=[got])
    for seed in range(3):
        best = solve(small, MaxIterations(40), seed, params=params).best
        routes = routes_of(best)
        if len(routes) <= num and SolutionRef(spec, routes).feasible:
            return
    ctx.label("enumerated")
    vt, size = spec.vtypes[0], len(spec.clients) + 2 * len(spec.shipments)
    limit = min(max_trips(vt) - 1, size + 1)
    if factorial(size) * sum(
        comb(size + k, k) * len(set(vt.reloads)) ** k for k in range(limit + 1)
    ) > 300_000:
        raise Discard  # too many routes to enumerate
    ctx.ok(Fleet(spec).fits(num), f"{num} vehicles are not enough")


def effort(d, ctx):
    """With ample effort, small unconstrained fleets reduce to one vehicle."""
    spec = gen_spec(
        d,
        max_clients=4,
        max_ships=1,
        max_vtypes=1,
        max_num=4,
        forbid=(
            "optional groups prize huge tw shift maxdist load depot_tw release "
            "startlate initial overtime"
        ).split(),
    )
    data = build(spec)
    ctx.note(spec=spec)
    got = minimise_fleet(data, MaxIterations(400), seed=d.int(0, 9))
    ctx.eq("vehicles", got.num_available, 1)
    ctx.nontrivial = spec.vtypes[0].num > 1


def bound(d, ctx):
    """Fleets that only the load limits, so that the bound is often reached."""
    spec = gen_spec(
        d,
        max_clients=5,
        min_acts=1,
        max_vtypes=1,
        max_num=6,
        forbid=(
            "optional groups prize huge tw shift maxdist depot_tw release "
            "startlate initial overtime ships"
        ).split(),
    )
    vt = spec.vtypes[0]
    vt.num = d.int(2, 6)
    if d.bool(0.7) and not vt.reloads:
        vt.reloads = [vt.start]
    vt.max_reloads = d.int(0, 4)
    for dim in range(spec.dims):
        vt.capacity[dim] = d.int(1, 6)
        for c in spec.clients:
            c.delivery[dim] = d.int(0, vt.capacity[dim])
            c.pickup[dim] = d.choice([0, d.int(0, vt.capacity[dim])])
    data = build(spec)
    stop = Scripted((), 200)
    ctx.note(spec=spec)
    num = minimise_fleet(data, stop, seed=d.int(0, 9)).num_available
    want = min(max(load_bound(spec), 1), vt.num)
    ctx.ok(want <= num <= vt.num, f"{num} vehicles, bound {want}")
    if not stop.fired:
        ctx.label("bound reached")
        ctx.eq("vehicles without having been stopped", num, want)
        ctx.nontrivial = want > 1 or max_trips(vt) > 1


def rejects(d, ctx):
    kind = d.choice(["types", "optional"])
    if kind == "types":
        spec = gen_spec(d, forbid=("optional", "groups"), max_vtypes=3)
        while len(spec.vtypes) < 2:
            spec.vtypes.append(spec.vtypes[0])
    else:
        spec = gen_spec(d, max_vtypes=1, min_acts=1, forbid=("ships",))
        spec.clients[0].required = False
        if d.bool(0.3):
            for c in spec.clients:
                c.required = False
    data = build(spec)
    ctx.note(spec=spec, kind=kind)
    ctx.raises(kind, minimise_fleet, data, MaxIterations(1))
    ctx.nontrivial = True


SUBS = [
    Sub("minimise", minimise, 5000),
    Sub("effort", effort, 300),
    Sub("bound", bound, 1500),
    Sub("rejects", rejects, 200),
]
