"""
Generators: instance specifications (plain data), routes, solutions and
penalties, and their conversion into pyvrp objects.
"""

import copy
from types import SimpleNamespace as NS

import numpy as np
import pyvrp
from pyvrp import (
    Activity,
    ActivityType,
    Client,
    ClientGroup,
    CostEvaluator,
    Depot,
    Location,
    ProblemData,
    Route,
    Shipment,
    Solution,
    VehicleType,
)

import ref
from ref import INT_MAX

TYPES = {
    "C": ActivityType.CLIENT,
    "D": ActivityType.DEPOT,
    "P": ActivityType.PICKUP,
    "X": ActivityType.DELIVERY,
}
KINDS = {v: k for k, v in TYPES.items()}
SIZE_MAX = 2**64 - 1


def to_act(act):
    return Activity(TYPES[act[0]], act[1])


def from_act(act):
    return (KINDS[act.type], act.idx)


class Spec:
    """Plain description of an instance."""

    tiled = None  # or how many clients and shipments were repeated how often

    def to_json(self):
        if self.tiled:
            n_cl, n_sh, copies = self.tiled
            base = copy.copy(self)
            base.tiled = None
            base.clients = self.clients[:n_cl]
            base.shipments = self.shipments[:n_sh]
            return {**base.to_json(), "copies": copies}

        def short(obj):
            out = {}
            for key, val in vars(obj).items():
                if val == INT_MAX or val == SIZE_MAX:
                    val = "max"
                if val in (0, "", None, []) and key != "loc":
                    continue
                out[key] = val
            return out

        return {
            "dims": self.dims,
            "clients": [short(c) for c in self.clients],
            "depots": [short(c) for c in self.depots],
            "groups": [short(c) for c in self.groups],
            "shipments": [short(c) for c in self.shipments],
            "vtypes": [short(c) for c in self.vtypes],
            "dist": self.dist,
            "dur": self.dur,
        }


FEATURES = {
    "tw": 0.6,
    "service": 0.6,
    "release": 0.35,
    "load": 0.75,
    "pickup": 0.4,
    "reload": 0.45,
    "ships": 0.45,
    "groups": 0.35,
    "optional": 0.5,
    "prize": 0.5,
    "fixed": 0.5,
    "durcost": 0.5,
    "overtime": 0.35,
    "shift": 0.4,
    "maxdist": 0.35,
    "startlate": 0.3,
    "initial": 0.25,
    "depot_tw": 0.3,
    "depot_service": 0.3,
    "profiles": 0.3,
    "shared_locs": 0.3,
    "zero_edges": 0.3,
    "negfixed": 0.0,
    "huge": 0.04,
    "names": 0.3,
}


LARGE = False


def large(fn):
    """A check like the given one, on large instances."""

    def wrapped(d, ctx):
        global LARGE
        LARGE = True
        try:
            fn(d, ctx)
        finally:
            LARGE = False

    return wrapped


TILE = False


def giant(fn, most=10**6):
    """
    A check like the given one, on instances with very many copies of the same
    few clients and shipments, and routes that visit all of them.
    """

    def wrapped(d, ctx):
        global TILE
        TILE = most
        try:
            fn(d, ctx)
        finally:
            TILE = False

    return wrapped


def tile(d, spec):
    """Repeats the clients and shipments of an instance."""
    base = (len(spec.clients), len(spec.shipments))
    target = d.weighted([(5, 300), (3, 1100), (2, 33_000), (2, 66_000)])
    target = min(target, TILE)
    copies = target // max(sum(base), 1) + 1
    spec.tiled = (*base, copies)
    spec.clients = [NS(**vars(c)) for _ in range(copies) for c in spec.clients]
    spec.shipments = [
        NS(**vars(s)) for _ in range(copies) for s in spec.shipments
    ]
    for vt in spec.vtypes:
        vt.max_reloads = SIZE_MAX


def tile_acts(spec, acts):
    """Repeats the activities of a route."""
    if not spec.tiled:
        return acts
    n_cl, n_sh, copies = spec.tiled
    step = {"C": n_cl, "P": n_sh, "X": n_sh, "D": 0}
    return [
        (kind, idx + at * step[kind])
        for at in range(copies)
        for kind, idx in acts
    ]


def gen_spec(d, *args, **kwargs):
    """Draws an instance specification."""
    if not TILE:
        return _gen_spec(d, *args, **kwargs)
    forbid = (*kwargs.pop("forbid", ()), "groups", "huge")
    force = [f for f in kwargs.pop("force", ()) if f not in forbid]
    spec = _gen_spec(d, *args, forbid=forbid, force=force, **kwargs)
    tile(d, spec)
    return spec


def _gen_spec(
    d,
    max_clients=6,
    max_ships=3,
    max_depots=3,
    max_vtypes=3,
    max_dims=3,
    min_acts=0,
    force=(),
    forbid=(),
    metric=False,
    max_num=3,
):
    spec = Spec()
    feat = {}
    for name, prob in FEATURES.items():
        if name in forbid:
            feat[name] = False
        elif name in force:
            feat[name] = True
        else:
            feat[name] = d.bool(prob)
    spec.feat = feat

    scale = d.choice([10, 100, 1000, 3])
    if feat["huge"]:
        scale *= 10**6 if LARGE else 10**8
    horizon = scale * d.choice([4, 2, 10])

    n_cl = d.int(0, max_clients)
    n_sh = d.int(1, max_ships) if feat["ships"] and max_ships else 0
    if LARGE:
        n_cl = d.int(30, 100)
        n_sh = d.int(1, 40) if n_sh else 0
        max_depots, max_vtypes = max_depots + 2, max_vtypes + 3
        max_num = 4 * max_num
        horizon *= d.choice([1, 10])
    while n_cl + n_sh < min_acts:
        n_cl += 1
    n_dep = d.small(1, max_depots)
    n_vt = d.small(1, max_vtypes)
    dims = d.weighted([(6, 1), (2, 2), (1, 0), (1, 3)]) if feat["load"] else 0
    if dims == 3 and max_dims == 3 and d.bool(0.3):
        dims = d.int(4, 6)
    else:
        dims = min(dims, max_dims)
    n_prof = d.int(1, 2) if feat["profiles"] else 1
    if n_prof == 2 and d.bool(0.3):
        n_prof = d.int(3, 5)
    spec.dims = dims

    # Locations.
    need = n_dep + n_cl + 2 * n_sh
    if feat["shared_locs"]:
        n_loc = d.int(1, max(need, 1))
        where = [d.int(0, n_loc - 1) for _ in range(need)]
    else:
        n_loc = need
        where = list(range(need))
        if d.bool(0.3):
            where = d.shuffle(where)
    spec.locs = [(d.int(0, 20), d.int(0, 20)) for _ in range(n_loc)]
    if d.bool(0.1):  # coordinates are floating point numbers
        odd = [0.1, 1 / 3, -2.5, 2**24 + 1, 123456.789]
        spec.locs = [(x + d.choice(odd), y * d.choice(odd)) for x, y in spec.locs]
    where = iter(where)

    # Matrices.
    spec.dist, spec.dur = [], []
    symmetric = d.bool(0.4)
    same = d.weighted([(4, "indep"), (3, "same"), (1, "zero")])
    for _ in range(n_prof):
        for mats in (spec.dist, spec.dur):
            if mats is spec.dur and same == "same":
                spec.dur.append([list(row) for row in spec.dist[-1]])
                continue
            mat = [[0] * n_loc for _ in range(n_loc)]
            if LARGE and not (mats is spec.dur and same == "zero"):
                # Cheaper to draw.
                a, b = d.int(1, scale), d.int(0, scale)
                for i in range(n_loc):
                    for j in range(n_loc):
                        if i != j:
                            mat[i][j] = (a * i + b * j + i * j) % (scale + 1)
            elif not (mats is spec.dur and same == "zero"):
                for i in range(n_loc):
                    for j in range(n_loc):
                        if i == j:
                            continue
                        if symmetric and j < i:
                            mat[i][j] = mat[j][i]
                        elif feat["zero_edges"] and d.bool(0.3):
                            mat[i][j] = 0
                        else:
                            mat[i][j] = d.int(0, scale)
            mats.append(mat)

    def window(prob=0.75):
        if not d.bool(prob):
            return 0, INT_MAX
        early = d.int(0, horizon)
        if d.bool(0.1):
            return early, INT_MAX
        return early, early + d.int(0, horizon // 2)

    def service(flag):
        return d.int(0, max(scale // 2, 1)) if flag and d.bool(0.7) else 0

    cap = d.choice([10, 5, 20, 1]) * (10 if LARGE else 1)

    def amounts(flag=True, prob=0.7):
        return [
            d.int(0, max(cap // 2, 1)) if flag and d.bool(prob) else 0
            for _ in range(dims)
        ]

    if feat["names"] and d.bool(0.3):
        longer = d.choice(["a rather long name of ", "n" * 70, "ünï "])
    else:
        longer = ""

    def name(prefix, idx):
        prefix = longer + prefix
        return f"{prefix}{idx}" if feat["names"] else ""

    # Depots.
    spec.depots = []
    for idx in range(n_dep):
        loc = next(where)
        early, late = window(0.6) if feat["depot_tw"] else (0, INT_MAX)
        spec.depots.append(
            NS(
                loc=loc,
                early=early,
                late=late,
                service=service(feat["depot_service"]),
                name=name("depot", idx),
            )
        )

    # Clients.
    spec.clients = []
    for idx in range(n_cl):
        loc = next(where)
        early, late = window() if feat["tw"] else (0, INT_MAX)
        release = 0
        if feat["release"] and d.bool(0.6):
            release = min(d.int(0, horizon), late)
        spec.clients.append(
            NS(
                loc=loc,
                delivery=amounts(),
                pickup=amounts(feat["pickup"], 0.5),
                service=service(feat["service"]),
                early=early,
                late=late,
                release=release,
                prize=d.int(0, 2 * scale) if feat["prize"] else 0,
                required=not (feat["optional"] and d.bool(0.6)),
                group=None,
                name=name("client", idx),
            )
        )

    # Groups.
    spec.groups = []
    if feat["groups"] and n_cl:
        pool = d.shuffle(range(n_cl))
        while pool and len(spec.groups) < (20 if LARGE else 3):
            most = d.weighted([(9, 3), (1, 5), (2 if LARGE else 0, 30)])
            size = d.int(1, min(most, len(pool)))
            members, pool = pool[:size], pool[size:]
            if d.bool(0.5):
                members = sorted(members)
            for m in members:
                spec.clients[m].group = len(spec.groups)
                spec.clients[m].required = False
            spec.groups.append(
                NS(
                    clients=members,
                    required=d.bool(0.6),
                    name=name("group", len(spec.groups)),
                )
            )
            if d.bool(0.1 if LARGE else 0.5):
                break

    # Shipments.
    spec.shipments = []
    for idx in range(n_sh):
        p_loc, d_loc = next(where), next(where)
        p_early, p_late = window() if feat["tw"] else (0, INT_MAX)
        d_early, d_late = window() if feat["tw"] else (0, INT_MAX)
        d_late = max(d_late, p_early)
        spec.shipments.append(
            NS(
                p_loc=p_loc,
                d_loc=d_loc,
                p_early=p_early,
                p_late=p_late,
                p_service=service(feat["service"]),
                d_early=d_early,
                d_late=d_late,
                d_service=service(feat["service"]),
                amount=amounts(),
                prize=d.int(0, 2 * scale) if feat["prize"] else 0,
                required=not (feat["optional"] and d.bool(0.6)),
                name=name("ship", idx),
            )
        )

    # Vehicle types.
    spec.vtypes = []
    for idx in range(n_vt):
        start, end = d.int(0, n_dep - 1), d.int(0, n_dep - 1)
        early, late = window(0.6) if feat["tw"] else (0, INT_MAX)
        # The vehicle's window must overlap those of its depots.
        for dep in (spec.depots[start], spec.depots[end]):
            early = min(early, dep.late)
            late = max(late, dep.early)
        start_late = late
        if feat["startlate"] and d.bool(0.7):
            start_late = early + d.int(0, horizon)
            start_late = min(start_late, late)
        capacity = [d.int(0, cap) for _ in range(dims)]
        reloads, max_reloads = [], SIZE_MAX
        if feat["reload"] and d.bool(0.85):
            most = d.weighted([(9, 2), (1, 4)])
            reloads = [d.int(0, n_dep - 1) for _ in range(d.int(1, most))]
            max_reloads = d.weighted(
                [(3, 1), (3, 2), (1, 0), (2, SIZE_MAX), (1, 3), (0.3, 7)]
            )
        spec.vtypes.append(
            NS(
                num=d.int(1, max_num),
                capacity=capacity,
                start=start,
                end=end,
                fixed=(
                    d.int(-scale if feat["negfixed"] else 0, scale)
                    if feat["fixed"]
                    else 0
                ),
                early=early,
                late=late,
                shift=(
                    d.int(0, horizon)
                    if feat["shift"] and d.bool(0.8)
                    else INT_MAX
                ),
                max_dist=(
                    d.int(0, 4 * scale)
                    if feat["maxdist"] and d.bool(0.8)
                    else INT_MAX
                ),
                unit_dist=d.weighted([(5, 1), (1, 0), (2, 2), (1, 7)]),
                unit_dur=(
                    d.weighted([(3, 1), (1, 0), (1, 5)])
                    if feat["durcost"]
                    else 0
                ),
                profile=d.int(0, n_prof - 1),
                start_late=start_late,
                initial=(
                    [d.int(0, c) for c in capacity]
                    if feat["initial"]
                    else [0] * dims
                ),
                reloads=reloads,
                max_reloads=max_reloads,
                max_overtime=(
                    d.weighted([(4, d.int(0, horizon)), (1, INT_MAX)])
                    if feat["overtime"]
                    else 0
                ),
                unit_ot=d.int(0, 5) if feat["overtime"] else 0,
                name=name("veh", idx),
            )
        )
    return spec


def build(spec) -> ProblemData:
    """The pyvrp instance of a specification."""
    return ProblemData(
        locations=[Location(x, y) for x, y in spec.locs],
        clients=[build_client(c) for c in spec.clients],
        depots=[build_depot(x) for x in spec.depots],
        vehicle_types=[build_vtype(v) for v in spec.vtypes],
        distance_matrices=[np.array(m, dtype=np.int64) for m in spec.dist],
        duration_matrices=[np.array(m, dtype=np.int64) for m in spec.dur],
        groups=[
            ClientGroup(g.clients, g.required, name=g.name)
            for g in spec.groups
        ],
        shipments=[build_shipment(s) for s in spec.shipments],
    )


def build_client(c):
    return Client(
        location=c.loc,
        delivery=c.delivery,
        pickup=c.pickup,
        service_duration=c.service,
        tw_early=c.early,
        tw_late=c.late,
        release_time=c.release,
        prize=c.prize,
        required=c.required,
        group=c.group,
        name=c.name,
    )


def build_depot(x):
    return Depot(
        location=x.loc,
        tw_early=x.early,
        tw_late=x.late,
        service_duration=x.service,
        name=x.name,
    )


def build_shipment(s):
    return Shipment(
        pickup_location=s.p_loc,
        delivery_location=s.d_loc,
        pickup_tw_early=s.p_early,
        pickup_tw_late=s.p_late,
        pickup_service_duration=s.p_service,
        delivery_tw_early=s.d_early,
        delivery_tw_late=s.d_late,
        delivery_service_duration=s.d_service,
        amount=s.amount,
        prize=s.prize,
        required=s.required,
        name=s.name,
    )


def build_vtype(v):
    return VehicleType(
        num_available=v.num,
        capacity=v.capacity,
        start_depot=v.start,
        end_depot=v.end,
        fixed_cost=v.fixed,
        tw_early=v.early,
        tw_late=v.late,
        shift_duration=v.shift,
        max_distance=v.max_dist,
        unit_distance_cost=v.unit_dist,
        unit_duration_cost=v.unit_dur,
        profile=v.profile,
        start_late=v.start_late,
        initial_load=v.initial,
        reload_depots=v.reloads,
        max_reloads=v.max_reloads,
        max_overtime=v.max_overtime,
        unit_overtime_cost=v.unit_ot,
        name=v.name,
    )


def weave(d, clients, ships):
    """A random order of clients and paired pickups and deliveries."""
    seq = [("C", i) for i in d.shuffle(clients)]
    for s in ships:
        p = d.int(0, len(seq))
        q = d.int(p, len(seq))
        seq = seq[:p] + [("P", s)] + seq[p:q] + [("X", s)] + seq[q:]
    return seq


def gen_acts(d, spec, vt_idx, clients, ships, any_depot=False, lone=0.1):
    """
    A valid activity sequence of the given clients and shipments for the given
    vehicle type, split into trips when the vehicle may reload.
    """
    vt = spec.vtypes[vt_idx]
    limit = min(ref.max_trips(vt), 12 if LARGE else 4)
    num = d.int(1, limit) if d.bool(0.7) else 1
    parts = [([], []) for _ in range(num)]
    for c in clients:
        parts[d.int(0, num - 1)][0].append(c)
    for s in ships:
        parts[d.int(0, num - 1)][1].append(s)
    acts = []
    for idx, (cs, ss) in enumerate(parts):
        if idx:
            if any_depot and d.bool(lone):
                depot = d.int(0, len(spec.depots) - 1)
            else:
                depot = d.choice(vt.reloads)
            acts.append(("D", depot))
        acts += weave(d, cs, ss)
    return acts


def gen_route(d, spec, any_depot=True):
    """(vehicle type, activities) of one valid route."""
    vt_idx = d.int(0, len(spec.vtypes) - 1)
    n_cl, n_sh = len(spec.clients), len(spec.shipments)
    if spec.tiled:
        n_cl, n_sh, _ = spec.tiled
    clients = d.subset(range(n_cl), 0.75)
    ships = d.subset(range(n_sh), 0.75)
    acts = gen_acts(d, spec, vt_idx, clients, ships, any_depot)
    return vt_idx, tile_acts(spec, acts)


def gen_routes(d, spec, p_visit=0.85, complete=False, any_depot=False):
    """
    A list of (vehicle type, activities) forming a valid solution.
    """
    fleet = [i for i, vt in enumerate(spec.vtypes) for _ in range(vt.num)]
    if d.bool(0.5):
        fleet = d.shuffle(fleet)
    used = d.int(1, len(fleet))
    fleet = fleet[:used]
    clients, ships = [], []
    n_cl, n_sh = len(spec.clients), len(spec.shipments)
    if spec.tiled:
        n_cl, n_sh, _ = spec.tiled
    for idx, c in enumerate(spec.clients[:n_cl]):
        if c.group is not None:
            continue
        if (complete and c.required) or d.bool(p_visit):
            clients.append(idx)
    for g in spec.groups:
        if (complete and g.required) or d.bool(p_visit):
            clients.append(d.choice(g.clients))
    for idx, s in enumerate(spec.shipments[:n_sh]):
        if (complete and s.required) or d.bool(p_visit):
            ships.append(idx)
    parts = [([], []) for _ in fleet]
    for c in clients:
        parts[d.int(0, used - 1)][0].append(c)
    for s in ships:
        parts[d.int(0, used - 1)][1].append(s)
    routes = []
    for vt_idx, (cs, ss) in zip(fleet, parts):
        if cs or ss:
            acts = gen_acts(d, spec, vt_idx, cs, ss, any_depot)
            routes.append((vt_idx, tile_acts(spec, acts)))
    return routes


def build_route(data, vt_idx, acts) -> Route:
    return Route(data, [to_act(a) for a in acts], vt_idx)


def build_solution(data, routes) -> Solution:
    return Solution(data, [build_route(data, v, a) for v, a in routes])


def acts_of(route):
    """Activities of a pyvrp route, without start and end depots."""
    return [from_act(a) for a in list(route)[1:-1]]


def routes_of(sol):
    return [(r.vehicle_type(), acts_of(r)) for r in sol.routes()]


def gen_penalties(d, spec, small=False):
    """(load penalties, tw penalty, dist penalty), possibly fractional."""

    def one():
        kind = d.weighted([(4, "int"), (2, "frac"), (1, "zero"), (1, "big")])
        if kind == "int":
            return d.int(1, 100)
        if kind == "frac":
            # Dyadic fractions, which are exact in floating point.
            return d.int(1, 400) / 8
        if kind == "zero":
            return 0
        return d.int(1000, 100_000)

    return ([one() for _ in range(spec.dims)], one(), one())


def build_ce(pen) -> CostEvaluator:
    return CostEvaluator(list(pen[0]), pen[1], pen[2])


def canon(routes):
    """Order-independent form of a list of (vehicle type, activities)."""
    return sorted((v, tuple(a)) for v, a in routes)


