"""C07: pickling and copying preserve every observable field."""

import copy
import pickle
from types import SimpleNamespace

from engine import Sub
from gen import (
    build,
    build_ce,
    build_client,
    build_depot,
    build_shipment,
    build_solution,
    build_vtype,
    gen_penalties,
    gen_routes,
    gen_spec,
    giant,
    large,
)
from pyvrp import (
    Activity,
    ActivityType,
    ClientGroup,
    DynamicBitset,
    Location,
    PiecewiseLinearFunction,
    RandomNumberGenerator,
    Solution,
)
from snap import diff, snap

RULE = (
    "A case is a random object of a serialisable type, or a random instance "
    "with a random solution, taken through pickle (all protocols), copy and "
    "deepcopy and compared through every public accessor. Non-trivial: the "
    "object has at least one non-default field."
)


def trips(d, obj):
    """The object after a serialisation round trip."""
    how = d.weighted([(4, "pickle"), (1, "copy"), (1, "deepcopy")])
    if how == "copy":
        return how, copy.copy(obj)
    if how == "deepcopy":
        return how, copy.deepcopy(obj)
    proto = d.int(2, pickle.HIGHEST_PROTOCOL)
    return how, pickle.loads(pickle.dumps(obj, protocol=proto))


def same(ctx, d, obj, eq=True):
    before = snap(obj)
    how, new = trips(d, obj)
    name = type(obj).__name__
    ctx.label(name, how)
    res = diff(snap(new), before)
    ctx.ok(res is None, lambda: f"{how} of {name}: {res}")
    res2 = diff(snap(obj), before)
    ctx.ok(res2 is None, lambda: f"{how} changed the original {name}: {res2}")
    if eq:
        ctx.eq(f"{how} of {name} compares equal", new == obj, True)
        ctx.eq(f"{how} of {name} compares unequal", new != obj, False)
    return new


def data_objects(d, ctx):
    spec = gen_spec(d, max_clients=2, max_ships=1, min_acts=1)
    ctx.note(spec=spec)
    ctx.nontrivial = True
    data = build(spec)
    kinds = [
        ("clients", build_client),
        ("depots", build_depot),
        ("shipments", build_shipment),
        ("vtypes", build_vtype),
    ]
    for kind, make in kinds:
        for item in getattr(spec, kind):
            same(ctx, d, make(item))
    for objs in (data.locations(), data.groups(), data.shipments()):
        for obj in objs:
            same(ctx, d, obj)
    for ship in data.shipments():
        same(ctx, d, ship.pickup)
        same(ctx, d, ship.delivery)
    x = d.int(-100, 100) / 8
    same(ctx, d, Location(x, -x, name=d.choice(["", "a b", "é"])))
    members = d.sample(range(9), d.int(0, 4))
    same(ctx, d, ClientGroup(members, d.bool(), name=d.choice(["", "g"])))


FIELDS = {
    "clients": [
        "loc",
        "delivery",
        "pickup",
        "service",
        "early",
        "late",
        "release",
        "prize",
        "required",
        "group",
        "name",
    ],
    "depots": ["loc", "early", "late", "service", "name"],
    "shipments": [
        "p_loc",
        "d_loc",
        "p_early",
        "p_late",
        "p_service",
        "d_early",
        "d_late",
        "d_service",
        "amount",
        "prize",
        "required",
        "name",
    ],
    "vtypes": [
        "num",
        "capacity",
        "start",
        "end",
        "fixed",
        "early",
        "late",
        "shift",
        "max_dist",
        "unit_dist",
        "unit_dur",
        "profile",
        "start_late",
        "initial",
        "reloads",
        "max_reloads",
        "max_overtime",
        "unit_ot",
        "name",
    ],
}
FIELDS["groups"] = ["members", "required", "name"]
FIELDS["locations"] = ["x", "y", "name"]
MAKE = {
    "groups": lambda g: ClientGroup(g.members, g.required, name=g.name),
    "locations": lambda x: Location(x.x, x.y, name=x.name),
    "clients": build_client,
    "depots": build_depot,
    "shipments": build_shipment,
    "vtypes": build_vtype,
}


def tweak(d, val, field):
    """A slightly different value for a field."""
    if isinstance(val, bool):
        return not val
    if val is None:
        return 0
    if isinstance(val, str):
        how = d.int(0, 3)
        if val and how == 1:
            return val[:-1]
        if val and how == 2:
            pos = d.int(0, len(val) - 1)
            return val[:pos] + val[pos].swapcase() + val[pos + 1 :]
        return val + d.choice(["x", " ", "0", "y" * 40])
    if isinstance(val, list):
        how = d.int(0, 3)
        if how == 1 and len(val) > 1:  # another order
            i = d.int(0, len(val) - 2)
            val = list(val)
            val[i], val[i + 1] = val[i + 1], val[i]
            return val
        if how == 2 and val:
            return val[:-1]
        if field == "reloads":
            return [*val, 0]
        if field == "members":
            return [*val, max(val, default=0) + 1]
        if not val:
            return val
        if how == 3:
            return [*val, d.int(0, 1)]
        val = list(val)
        pos = d.int(0, len(val) - 1)
        val[pos] += 1
        return val
    if field == "group":
        return val + 1
    if isinstance(val, float):
        return d.choice([val + 0.5, val * (1 + 2**-50), -val, val - 1.0])
    if val >= 2**62:
        return val - 1
    return val + 1 if d.bool() or val == 0 else val - 1


def distinguish(d, ctx):
    """Objects that differ in one field do not compare equal."""
    spec = gen_spec(d, max_clients=2, max_ships=2, min_acts=1)
    ctx.nontrivial = True
    pools = {k: getattr(spec, k) for k in MAKE if hasattr(spec, k)}
    pools["groups"] = [
        SimpleNamespace(
            members=d.sample(range(9), d.int(0, 5)),
            required=d.bool(),
            name=d.choice(["", "g", "group " * 9]),
        )
    ]
    pools["locations"] = [
        SimpleNamespace(
            x=d.int(-100, 100) / d.choice([8, 3, 1e-9]),
            y=d.int(-9, 9) / 1.0,
            name=d.choice(["", "x", "location " * 9]),
        )
    ]
    kind = d.choice([k for k in FIELDS if pools[k]])
    item = d.choice(pools[kind])
    field = d.choice(FIELDS[kind])
    first = MAKE[kind](item)
    old = getattr(item, field)
    new = tweak(d, old, field)
    ctx.note(kind=kind, field=field, item=vars(item).copy(), new=new)
    setattr(item, field, new)
    try:
        second = MAKE[kind](item)
    except ValueError:
        ctx.label("invalid_tweak")
        ctx.nontrivial = False
        return
    ctx.label(f"{kind}.{field}")
    # Shorter lists of loads are padded with zeros, which can make them equal.
    equal = diff(snap(first), snap(second)) is None
    ctx.ok(equal or old != new, f"{kind} with the same {field} differ")
    if not isinstance(old, list) or len(old) == len(new):
        ctx.eq(f"{kind} read back {field}", equal, old == new)
    ctx.eq(f"{kind} differing in {field}", first == second, equal)
    ctx.eq(f"{kind} differing in {field}", second != first, not equal)
    ctx.eq(f"{kind} differing in {field}", second == first, equal)
    if kind == "shipments":
        for step in ("pickup", "delivery"):
            a, b = getattr(first, step), getattr(second, step)
            ctx.eq(f"{step} of shipments", a == b, snap(a) == snap(b))
    # And after a round trip.
    ctx.eq(
        f"{kind} differing in {field}, after pickle",
        pickle.loads(pickle.dumps(first)) == second,
        equal,
    )


def instances(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=2)
    ctx.note(spec=spec)
    ctx.nontrivial = True
    data = build(spec)
    new = same(ctx, d, data)
    routes = gen_routes(d, spec)
    sol = build_solution(data, routes)
    sol2 = build_solution(new, routes)
    ctx.eq("solution on the copied instance", sol2 == sol, True)
    res = diff(snap(sol2), snap(sol))
    ctx.ok(res is None, lambda: f"solution on the copied instance: {res}")
    # An instance that differs in one edge is a different instance.
    if len(spec.locs) > 1:
        mats = d.choice([spec.dist, spec.dur])
        prof = d.int(0, len(mats) - 1)
        i = d.int(0, len(spec.locs) - 1)
        j = d.int(0, len(spec.locs) - 2)
        j += j >= i
        mats[prof][i][j] += 1
        ctx.eq("instance with another edge", build(spec) == data, False)
        mats[prof][i][j] -= 1
    # As is an instance in which one object differs in one field.
    kind = d.choice([k for k in FIELDS if getattr(spec, k, None)])
    items = getattr(spec, kind)
    pos = d.int(0, len(items) - 1)
    field = d.choice([f for f in FIELDS[kind] if f not in ("group", "members")])
    old = getattr(items[pos], field)
    setattr(items[pos], field, tweak(d, old, field))
    try:
        other = build(spec)
    except (ValueError, IndexError):
        return
    finally:
        setattr(items[pos], field, old)
    equal = diff(snap(other), snap(data)) is None
    ctx.label(f"instance.{kind}.{field}")
    ctx.eq(f"instance with another {field} of {kind}", other == data, equal)
    ctx.eq(f"instance with another {field} of {kind}", data != other, not equal)
    if len(items) > 1 and kind != "groups":  # or two of them trade places
        j = d.int(0, len(items) - 2)
        items[j], items[j + 1] = items[j + 1], items[j]
        try:
            other = build(spec)
        except (ValueError, IndexError):
            return
        equal = diff(snap(other), snap(data)) is None
        ctx.eq(f"instance with other order of {kind}", other == data, equal)


def solutions(d, ctx):
    spec = gen_spec(d, max_clients=6, max_ships=3)
    routes = gen_routes(d, spec, p_visit=d.choice([0.9, 0.5]))
    pen = gen_penalties(d, spec)
    ctx.note(spec=spec, routes=routes)
    data = build(spec)
    sol = build_solution(data, routes)
    ctx.nontrivial = len(routes) > 0
    new = same(ctx, d, sol)
    ctx.eq("hash", hash(new), hash(sol))
    ce = build_ce(pen)
    ctx.eq("penalised cost", ce.penalised_cost(new), ce.penalised_cost(sol))
    ctx.eq("cost", ce.cost(new), ce.cost(sol))
    again = [same(ctx, d, r) for r in sol.routes()]
    for route in again:
        for act in route:
            same(ctx, d, act)
    rebuilt = Solution(data, again)
    ctx.eq("solution of copied routes", rebuilt == sol, True)
    res = diff(snap(rebuilt), snap(sol))
    ctx.ok(res is None, lambda: f"solution of copied routes: {res}")
    ctx.eq(
        "cost of copied routes",
        ce.penalised_cost(rebuilt),
        ce.penalised_cost(sol),
    )
    if sol.unplanned():
        ctx.label("unplanned")
    if sol.fixed_vehicle_cost():
        ctx.label("fixed_cost")


def utilities(d, ctx):
    kind = d.choice(
        [
            ActivityType.CLIENT,
            ActivityType.DEPOT,
            ActivityType.PICKUP,
            ActivityType.DELIVERY,
        ]
    )
    act = Activity(kind, d.choice([0, 1, 7, 10**6, 2**40]))
    new = same(ctx, d, act)
    ctx.eq("activity hash", hash(new), hash(act))

    bits = DynamicBitset(d.int(0, 200))
    for _ in range(d.int(0, 12)):
        if len(bits):
            bits[d.int(0, len(bits) - 1)] = d.bool(0.8)
    new = same(ctx, d, bits)
    if len(bits):
        pos = d.int(0, len(bits) - 1)
        new[pos] = not new[pos]
        ctx.eq("changed bitset", new == bits, False)

    xs = sorted({d.int(-50, 50) for _ in range(d.int(0, 4))})
    segs = [(d.int(-5, 5), d.int(-5, 5)) for _ in range(len(xs) + 1)]
    fn = PiecewiseLinearFunction(xs, segs)
    ctx.note(breakpoints=xs, segments=segs)
    new = same(ctx, d, fn)
    for x in range(-60, 60, 7):
        ctx.eq("function value", new(x), fn(x))
    other = list(segs)
    pos = d.int(0, len(segs) - 1)
    if d.bool():
        other[pos] = (other[pos][0], other[pos][1] + 1)
    else:
        other[pos] = (other[pos][0] + 1, other[pos][1])
    ctx.eq("other function", PiecewiseLinearFunction(xs, other) == fn, False)
    if xs:
        moved = list(xs)
        moved[-1] += 1
        ctx.eq(
            "other breakpoints",
            PiecewiseLinearFunction(moved, segs) == fn,
            False,
        )

    rng = RandomNumberGenerator(d.int(1, 1000))
    [rng() for _ in range(d.int(0, 5))]
    twin = RandomNumberGenerator(rng.state())
    ctx.eq("rng from state", [twin() for _ in "abc"], [rng() for _ in "abc"])
    ctx.nontrivial = True


SUBS = [
    Sub("data_objects", data_objects, 8000),
    Sub("distinguish", distinguish, 40000),
    Sub("instances", instances, 6000),
    Sub("solutions", solutions, 8000),
    Sub("utilities", utilities, 15000),
    Sub("large_instances", large(instances), 100),
    Sub("giant_instances", giant(instances, 2000), 30, 300),
    Sub("large_solutions", large(solutions), 100),
    Sub("giant_solutions", giant(solutions, 2000), 30, 300),
]
