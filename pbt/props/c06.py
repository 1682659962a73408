"""C06: data objects store what is given, and reject what is invalid."""

import copy

import numpy as np
from engine import Sub, Violation
from gen import (
    SIZE_MAX,
    build,
    build_client,
    build_depot,
    build_shipment,
    build_vtype,
    gen_spec,
    giant,
    large,
)
from pyvrp import (
    Client,
    ClientGroup,
    Depot,
    Location,
    ProblemData,
    Shipment,
    VehicleType,
)
from ref import INT_MAX
from snap import diff, snap

RULE = (
    "A case is a set of constructor arguments drawn near the validity "
    "boundaries (negative by one, equal, inverted windows, mismatched sizes, "
    "unknown indices, omitted arguments), compared with a predicate of the "
    "documented rules in both directions. Non-trivial: at least one optional "
    "argument is given."
)


def num(d, hi=20, bad=0.04):
    """Mostly a non-negative number; sometimes slightly negative."""
    if d.bool(bad):
        return -d.int(1, 3)
    kind = d.weighted([(6, "s"), (1, "z"), (1, "big")])
    if kind == "s":
        return d.int(0, hi)
    return 0 if kind == "z" else d.int(0, 10**12)


def vec(d, bad=0.04):
    return [num(d, bad=bad) for _ in range(d.int(0, 3))]


def window(d):
    """(early, late), sometimes inverted by one."""
    early = num(d)
    kind = d.weighted([(5, "wide"), (2, "eq"), (1, "inv"), (2, "max")])
    if kind == "wide":
        return early, early + d.int(0, 20)
    if kind == "eq":
        return early, early
    if kind == "inv":
        return early, early - d.int(1, 3)
    return early, INT_MAX


def text(d):
    return d.choice(["", "a", "name", "Ünïcode ☃", "with space", "x" * 50])


def given(d, fields):
    """Randomly omits fields, so that defaults are exercised."""
    return {k: v for k, v in fields.items() if d.bool(0.75)}


def pad(a, b):
    size = max(len(a), len(b))
    return a + [0] * (size - len(a)), b + [0] * (size - len(b))


def compare(ctx, obj, want):
    for key, val in want.items():
        got = getattr(obj, key)
        if isinstance(val, list):
            got = list(got)
        ctx.eq(f"{type(obj).__name__}.{key}", got, val)


def client(d, ctx):
    early, late = window(d)
    kw = given(
        d,
        {
            "delivery": vec(d),
            "pickup": vec(d),
            "service_duration": num(d),
            "tw_early": early,
            "tw_late": late,
            "release_time": num(d),
            "prize": num(d),
            "required": d.bool(),
            "group": d.choice([None, 0, 3]),
            "name": text(d),
        },
    )
    loc = d.int(0, 5)
    want = {
        "location": loc,
        "delivery": [],
        "pickup": [],
        "service_duration": 0,
        "tw_early": 0,
        "tw_late": INT_MAX,
        "release_time": 0,
        "prize": 0,
        "required": True,
        "group": None,
        "name": "",
        **kw,
    }
    valid = (
        min(want["delivery"] + want["pickup"], default=0) >= 0
        and want["service_duration"] >= 0
        and 0 <= want["tw_early"] <= want["tw_late"]
        and 0 <= want["release_time"] <= want["tw_late"]
        and want["prize"] >= 0
    )
    want["delivery"], want["pickup"] = pad(want["delivery"], want["pickup"])
    judge(ctx, Client, (loc,), kw, valid, want)


def judge(ctx, cls, args, kw, valid, want):
    ctx.note(cls=cls.__name__, args=args, kwargs=kw, valid=valid)
    ctx.nontrivial = len(kw) > 0
    ctx.label(cls.__name__, "valid" if valid else "invalid")
    if not valid:
        ctx.raises(f"{cls.__name__}{args}{kw}", cls, *args, **kw)
        return
    obj = cls(*args, **kw)
    compare(ctx, obj, want)
    dup = copy.copy(obj)
    compare(ctx, dup, want)
    ctx.eq("copy equals", dup == obj, True)
    return obj


def depot(d, ctx):
    early, late = window(d)
    kw = given(
        d,
        {
            "tw_early": early,
            "tw_late": late,
            "service_duration": num(d),
            "name": text(d),
        },
    )
    loc = d.int(0, 5)
    want = {
        "location": loc,
        "tw_early": 0,
        "tw_late": INT_MAX,
        "service_duration": 0,
        "name": "",
        **kw,
    }
    valid = (
        0 <= want["tw_early"] <= want["tw_late"]
        and want["service_duration"] >= 0
    )
    judge(ctx, Depot, (loc,), kw, valid, want)


def shipment(d, ctx):
    p_early, p_late = window(d)
    d_early, d_late = window(d)
    kw = given(
        d,
        {
            "pickup_tw_early": p_early,
            "pickup_tw_late": p_late,
            "pickup_service_duration": num(d),
            "delivery_tw_early": d_early,
            "delivery_tw_late": d_late,
            "delivery_service_duration": num(d),
            "amount": vec(d),
            "prize": num(d),
            "required": d.bool(),
            "name": text(d),
        },
    )
    locs = (d.int(0, 5), d.int(0, 5))
    w = {
        "pickup_tw_early": 0,
        "pickup_tw_late": INT_MAX,
        "pickup_service_duration": 0,
        "delivery_tw_early": 0,
        "delivery_tw_late": INT_MAX,
        "delivery_service_duration": 0,
        "amount": [],
        "prize": 0,
        "required": True,
        "name": "",
        **kw,
    }
    valid = (
        0 <= w["pickup_tw_early"] <= w["pickup_tw_late"]
        and 0 <= w["delivery_tw_early"] <= w["delivery_tw_late"]
        and w["pickup_service_duration"] >= 0
        and w["delivery_service_duration"] >= 0
        and w["delivery_tw_late"] >= w["pickup_tw_early"]
        and min(w["amount"], default=0) >= 0
        and w["prize"] >= 0
    )
    want = {k: w[k] for k in ("amount", "prize", "required", "name")}
    obj = judge(ctx, Shipment, locs, kw, valid, want)
    if obj is not None:
        for name, loc in (("pickup", locs[0]), ("delivery", locs[1])):
            step = getattr(obj, name)
            ctx.eq(f"{name} location", step.location, loc)
            for fld in ("tw_early", "tw_late", "service_duration"):
                ctx.eq(f"{name} {fld}", getattr(step, fld), w[f"{name}_{fld}"])


def vehicle_kwargs(d):
    early, late = window(d)
    cap, init = vec(d), vec(d)
    if d.bool(0.5):
        init = [min(x, c) for x, c in zip(init, cap)]
    start_late = d.choice([None, early, late, early + 5, early - 1, late + 1])
    if start_late is not None and abs(start_late) > INT_MAX:
        start_late = INT_MAX
    return {
        "num_available": d.weighted(
            [(9, d.int(1, 5)), (1, 0), (1, d.int(1, 2**40))]
        ),
        "capacity": cap,
        "start_depot": d.int(0, 3),
        "end_depot": d.int(0, 3),
        "fixed_cost": num(d),
        "tw_early": early,
        "tw_late": late,
        "shift_duration": d.weighted([(4, num(d)), (1, INT_MAX)]),
        "max_distance": num(d),
        "unit_distance_cost": num(d),
        "unit_duration_cost": num(d),
        "profile": d.int(0, 2),
        "start_late": start_late,
        "initial_load": init,
        "reload_depots": [d.int(0, 3) for _ in range(d.int(0, 2))],
        "max_reloads": d.weighted([(4, d.int(0, 4)), (1, SIZE_MAX)]),
        "max_overtime": d.weighted([(4, num(d)), (1, INT_MAX)]),
        "unit_overtime_cost": num(d),
        "name": text(d),
    }


VEH_DEFAULTS = {
    "num_available": 1,
    "capacity": [],
    "start_depot": 0,
    "end_depot": 0,
    "fixed_cost": 0,
    "tw_early": 0,
    "tw_late": INT_MAX,
    "shift_duration": INT_MAX,
    "max_distance": INT_MAX,
    "unit_distance_cost": 1,
    "unit_duration_cost": 0,
    "profile": 0,
    "start_late": None,
    "initial_load": [],
    "reload_depots": [],
    "max_reloads": SIZE_MAX,
    "max_overtime": 0,
    "unit_overtime_cost": 0,
    "name": "",
}


def vehicle_model(kw):
    """(valid, fields) of a vehicle type with these arguments."""
    w = {**VEH_DEFAULTS, **kw}
    if w["start_late"] is None:
        w["start_late"] = w["tw_late"]
    w["capacity"], w["initial_load"] = pad(w["capacity"], w["initial_load"])
    valid = (
        w["num_available"] >= 1
        and min(w["capacity"] + w["initial_load"], default=0) >= 0
        and all(x <= c for x, c in zip(w["initial_load"], w["capacity"]))
        and 0 <= w["tw_early"] <= w["start_late"] <= w["tw_late"]
        and w["shift_duration"] >= 0
        and w["max_distance"] >= 0
        and w["unit_distance_cost"] >= 0
        and w["unit_duration_cost"] >= 0
        and w["max_overtime"] >= 0
        and w["unit_overtime_cost"] >= 0
    )
    w["max_duration"] = min(w["shift_duration"] + w["max_overtime"], INT_MAX)
    w["max_trips"] = (
        min(w["max_reloads"] + 1, SIZE_MAX) if w["reload_depots"] else 1
    )
    return valid, w


def vehicle(d, ctx):
    kw = given(d, vehicle_kwargs(d))
    if d.bool(0.3):
        kw["fixed_cost"] = d.int(0, 20)
    # The sign of the fixed cost is not restricted by the documentation.
    kw["fixed_cost"] = abs(kw.get("fixed_cost", 0))
    if not d.bool(0.5):
        kw.pop("start_late", None)
    valid, want = vehicle_model(kw)
    obj = judge(ctx, VehicleType, (), kw, valid, want)
    if obj is None:
        return
    # Replacing fields: the result is as if constructed with those fields.
    new = {k: v for k, v in vehicle_kwargs(d).items() if d.bool(0.25)}
    new = {k: v for k, v in new.items() if v is not None}
    if "fixed_cost" in new:
        new["fixed_cost"] = abs(new["fixed_cost"])
    old = {k: want[k] for k in VEH_DEFAULTS}
    valid, want2 = vehicle_model({**old, **new})
    ctx.note(replaced=new, replace_valid=valid)
    if valid:
        ctx.label("replaced")
        rep = obj.replace(**new)
        compare(ctx, rep, want2)
        compare(ctx, obj, want)  # original is unchanged
        same = all(want2[k] == want[k] for k in VEH_DEFAULTS)
        ctx.eq("equality after replace", rep == obj, same)
    else:
        ctx.raises(f"replace({new})", obj.replace, **new)


def group(d, ctx):
    clients = [d.int(0, 6) for _ in range(d.int(0, 4))]
    kw = given(d, {"required": d.bool(), "name": text(d)})
    ctx.note(clients=clients, kwargs=kw)
    valid = len(set(clients)) == len(clients)
    ctx.label("valid" if valid else "invalid")
    ctx.nontrivial = len(clients) > 0
    if not valid:
        ctx.raises("duplicate group members", ClientGroup, clients, **kw)
        return
    obj = ClientGroup(clients, **kw)
    want = {"required": True, "name": "", **kw, "clients": clients}
    compare(ctx, obj, want)
    ctx.eq("len", len(obj), len(clients))
    ctx.eq("iteration", list(obj), clients)
    ctx.eq("mutually exclusive", obj.mutually_exclusive, True)
    for _ in range(d.int(0, 3)):
        new = d.int(0, 8)
        if new in clients:
            ctx.raises("adding twice", obj.add_client, new)
        else:
            obj.add_client(new)
            clients = [*clients, new]
        ctx.eq("clients after add", list(obj.clients), clients)


def location(d, ctx):
    x = d.int(-(10**6), 10**6) / d.choice([1, 8, 100])
    y = d.int(-(10**6), 10**6) / d.choice([1, 8, 100])
    name = text(d)
    ctx.note(x=x, y=y, name=name)
    loc = Location(x, y, name=name)
    ctx.eq("x", loc.x, x)
    ctx.eq("y", loc.y, y)
    ctx.eq("name", loc.name, name)
    ctx.eq("equality", loc == Location(x, y, name=name), True)
    ctx.eq("equality of x", loc == Location(x + 1, y, name=name), False)
    ctx.eq("equality of y", loc == Location(x, y - 1, name=name), False)
    ctx.eq("equality of name", loc == Location(x, y, name=name + "z"), False)
    ctx.nontrivial = True


def check_instance(ctx, data, spec):
    ctx.eq("num_locations", data.num_locations, len(spec.locs))
    ctx.eq("num_clients", data.num_clients, len(spec.clients))
    ctx.eq("num_depots", data.num_depots, len(spec.depots))
    ctx.eq("num_groups", data.num_groups, len(spec.groups))
    ctx.eq("num_shipments", data.num_shipments, len(spec.shipments))
    ctx.eq("num_vehicle_types", data.num_vehicle_types, len(spec.vtypes))
    ctx.eq("num_vehicles", data.num_vehicles, sum(v.num for v in spec.vtypes))
    ctx.eq("num_profiles", data.num_profiles, len(spec.dist))
    ctx.eq("num_load_dimensions", data.num_load_dimensions, spec.dims)
    windows = [(c.early, c.late) for c in spec.clients]
    windows += [(c.early, c.late) for c in spec.depots]
    windows += [(c.early, c.late) for c in spec.vtypes]
    windows += [(0, c.start_late) for c in spec.vtypes]
    windows += [(c.p_early, c.p_late) for c in spec.shipments]
    windows += [(c.d_early, c.d_late) for c in spec.shipments]
    ctx.eq(
        "has_time_windows",
        data.has_time_windows(),
        any(w != (0, INT_MAX) for w in windows),
    )
    for name, plural, items, make in (
        ("client", "clients", spec.clients, build_client),
        ("depot", "depots", spec.depots, build_depot),
        ("shipment", "shipments", spec.shipments, build_shipment),
        ("vehicle_type", "vehicle_types", spec.vtypes, build_vtype),
    ):
        objs = getattr(data, plural)()
        ctx.eq(f"number of {plural}", len(objs), len(items))
        for idx, item in enumerate(items):
            want = snap(make(item))
            for got in (objs[idx], getattr(data, name)(idx)):
                res = diff(snap(got), want)
                ctx.ok(res is None, f"{name} {idx}: {res}")
    for idx, grp in enumerate(spec.groups):
        for got in (data.groups()[idx], data.group(idx)):
            ctx.eq("group clients", list(got.clients), grp.clients)
            ctx.eq("group required", got.required, grp.required)
            ctx.eq("group name", got.name, grp.name)
    for idx, (x, y) in enumerate(spec.locs):
        for got in (data.locations()[idx], data.location(idx)):
            ctx.eq("location", (got.x, got.y), (x, y))
    for prof in range(len(spec.dist)):
        for kind, mats in (("distance", spec.dist), ("duration", spec.dur)):
            one = getattr(data, f"{kind}_matrix")(prof)
            many = getattr(data, f"{kind}_matrices")()
            ctx.eq(f"{kind} matrix", one.tolist(), mats[prof])
            ctx.eq(f"{kind} matrices", many[prof].tolist(), mats[prof])


def instance(d, ctx):
    spec = gen_spec(d, max_clients=5, max_ships=2)
    if d.bool(0.1):  # practically unlimited fleet
        for vtype in spec.vtypes:
            vtype.num = d.choice([2**31 - 1, 2**31, 2**32, 2**40])
        ctx.label("huge fleet")
    ctx.note(spec=spec)
    ctx.nontrivial = True
    data = build(spec)
    check_instance(ctx, data, spec)

    # Matrices cannot be written to.
    size = len(spec.locs)
    for mat in (
        data.distance_matrix(0),
        data.duration_matrix(0),
        data.distance_matrices()[0],
        data.duration_matrices()[0],
    ):
        try:
            mat[0, size - 1] = 77
        except ValueError:
            continue
        raise Violation("an instance matrix could be modified")
    check_instance(ctx, data, spec)


def instance_args(spec):
    data = build(spec)
    return {
        "locations": [Location(x, y) for x, y in spec.locs],
        "clients": list(data.clients()),
        "depots": list(data.depots()),
        "vehicle_types": list(data.vehicle_types()),
        "distance_matrices": [np.array(m) for m in spec.dist],
        "duration_matrices": [np.array(m) for m in spec.dur],
        "groups": list(data.groups()),
        "shipments": list(data.shipments()),
    }


def faults(spec, d):
    """
    A list of single faults: (name, function that edits the specification or
    returns extra constructor arguments).
    """
    out = []
    n_loc, n_dep = len(spec.locs), len(spec.depots)

    def edit(name, obj, field, val):
        out.append((name, obj, field, val))

    far = d.small(0, 5)
    for c in spec.clients:
        edit("client location", c, "loc", n_loc + far)
        edit("client delivery", c, "delivery", [*c.delivery, 0])
        if spec.dims:
            short = (c.delivery[:-1], c.pickup[:-1])
            edit("client short amounts", c, ("delivery", "pickup"), short)
            edit("client long pickup", c, "pickup", [*c.pickup, 1])
        if c.group is None:
            edit("client unknown group", c, "group", len(spec.groups) + far)
            if spec.groups:
                edit("client not in group", c, "group", 0)
        else:
            edit("required client in group", c, "required", True)
            edit("group member without group", c, "group", None)
    for x in spec.depots:
        edit("depot location", x, "loc", n_loc + far)
    for g in spec.groups:
        edit("empty group", g, "clients", [])
        edit(
            "group with unknown client",
            g,
            "clients",
            [*g.clients, len(spec.clients) + far],
        )
        others = [i for i, c in enumerate(spec.clients) if i not in g.clients]
        if others:
            edit("group with other client", g, "clients", [*g.clients, others[0]])
    for s in spec.shipments:
        edit("pickup location", s, "p_loc", n_loc + far)
        edit("delivery location", s, "d_loc", n_loc + far)
        edit("shipment amount", s, "amount", [*s.amount, 0])
        if spec.dims:
            edit("shipment short amount", s, "amount", s.amount[:-1])
    for v in spec.vtypes:
        edit("start depot", v, "start", n_dep + far)
        edit("end depot", v, "end", n_dep + far)
        edit("profile", v, "profile", len(spec.dist) + far)
        edit("reload depot", v, "reloads", [*v.reloads, n_dep + far])
        edit("reload depot first", v, "reloads", [n_dep + far, *v.reloads])
        if len(spec.vtypes) > 1:
            edit("capacity size", v, "capacity", [*v.capacity, 1])
    for mats, kind in ((spec.dist, "distance"), (spec.dur, "duration")):
        for prof in range(len(mats)):
            for loc in range(n_loc):
                out.append((f"{kind} diagonal", mats[prof][loc], loc, 1))
            out.append(
                (f"{kind} rows", mats, prof, [r[:-1] for r in mats[prof][:-1]])
            )
            out.append((f"{kind} cols", mats, prof, [[*r, 0] for r in mats[prof]]))
        out.append((f"{kind} count", mats, None, None))
        out.append((f"{kind} extra", mats, None, "extra"))
    out.append(("no depots", spec, "depots", []))
    out.append(("no vehicles", spec, "vtypes", []))
    # Windows that do not overlap with those of the vehicle's depots.
    for v in spec.vtypes:
        if v.early > 0:
            for which in (v.start, v.end):
                dep = spec.depots[which]
                out.append(("early depot", dep, ("early", "late"), (0, v.early - 1)))
        if v.late < INT_MAX:
            for which in (v.start, v.end):
                dep = spec.depots[which]
                out.append(
                    ("late depot", dep, ("early", "late"), (v.late + 1, INT_MAX))
                )
    return out


def instance_faults(d, ctx):
    spec = gen_spec(d, max_clients=4, max_ships=2, forbid=("huge",))
    options = faults(spec, d)
    name, obj, field, val = d.choice(options)
    ctx.label(name)
    ctx.note(spec=spec, fault=name, value=val)
    ctx.nontrivial = True
    build(spec)  # is valid as it is
    if field is None and val == "extra":
        obj.append([list(row) for row in obj[0]])
    elif field is None:
        del obj[-1]
    elif isinstance(field, tuple):
        for f, x in zip(field, val):
            setattr(obj, f, x)
    elif isinstance(obj, list):
        obj[field] = val
    else:
        setattr(obj, field, val)
    ctx.raises(f"instance with fault '{name}'", build, spec)


def instance_replace(d, ctx):
    # Two valid instances with the same structure; swap some parts.
    spec = gen_spec(d, max_clients=4, max_ships=2, forbid=("huge",))
    base = instance_args(spec)
    data = ProblemData(**base)
    new = {}
    if d.bool():
        new["locations"] = [
            Location(x + 1, y + 2, name="n") for x, y in spec.locs
        ]
    if d.bool():
        new["clients"] = [
            build_client(c) for c in spec.clients if bump(c, "service", 1)
        ]
    if d.bool():
        new["depots"] = [
            build_depot(c) for c in spec.depots if bump(c, "service", 2)
        ]
    if d.bool():
        new["vehicle_types"] = [
            build_vtype(c) for c in spec.vtypes if bump(c, "num", 1)
        ]
    if d.bool():
        new["shipments"] = [
            build_shipment(c) for c in spec.shipments if bump(c, "prize", 1)
        ]
    if d.bool():
        new["groups"] = [
            ClientGroup(g.clients, not g.required, name="changed")
            for g in spec.groups
        ]
    for kind, mats in (("distance", spec.dist), ("duration", spec.dur)):
        if d.bool():
            new[f"{kind}_matrices"] = [
                np.array(m) + 1 - np.eye(len(m), dtype=int) for m in mats
            ]
    ctx.note(spec=spec, replaced=sorted(new))
    ctx.nontrivial = len(new) > 0
    before = snap(data)
    rep = data.replace(**new)
    want = ProblemData(**{**base, **new})
    res = diff(snap(rep), snap(want))
    ctx.ok(res is None, f"replace: {res}")
    ctx.eq("replace equals construction", rep == want, True)
    res = diff(snap(data), before)
    ctx.ok(res is None, f"replace changed the original: {res}")
    changed = diff(before, snap(want)) is not None
    ctx.eq("equal to the original", data == rep, not changed)


def matrix_form(d, mat):
    """The same matrix in some memory layout and number type."""
    arr = np.array(mat, dtype=np.int64)
    kind = d.choice(["c", "f", "t", "strided", "flipped", "type"])
    if kind == "f":
        return np.asfortranarray(arr)
    if kind == "t":
        return np.array(arr.T.tolist(), dtype=np.int64).reshape(arr.shape).T
    if kind == "strided":
        big = np.full((2 * len(arr), 3 * len(arr)), 91, dtype=np.int64)
        big[::2, 1::3] = arr
        return big[::2, 1::3]
    if kind == "flipped":
        return arr[::-1, ::-1].copy()[::-1, ::-1]
    if kind == "type":
        if arr.max() < 2**31:
            return arr.astype(d.choice([np.int32, np.float64, np.uint32]))
        if arr.max() < 2**53:
            return arr.astype(np.float64)
    return arr


def number_form(d, val):
    if isinstance(val, list):
        vals = [number_form(d, x) for x in val]
        return d.choice([list, tuple, np.array])(vals) if val else vals
    kinds = [int, np.int64]
    if val < 2**31:
        kinds += [np.int32, np.uint32]
    if val < 2**53:
        kinds += [float, np.float64]
    return d.choice(kinds)(val)


MEASURES = {
    "clients": "delivery pickup service early late release prize",
    "depots": "early late service",
    "shipments": "amount p_early p_late p_service d_early d_late d_service "
    "prize",
    "vtypes": "capacity fixed early late shift max_dist unit_dist unit_dur "
    "start_late initial max_overtime unit_ot",
}


def forms(d, ctx):
    """The same numbers in other forms give the same instance."""
    spec = gen_spec(d)
    ctx.note(spec=spec)
    data = build(spec)
    other = copy.deepcopy(spec)
    count = 0
    for kind, names in MEASURES.items():
        for obj in getattr(other, kind):
            for name in names.split():
                if d.bool(0.5):
                    setattr(obj, name, number_form(d, getattr(obj, name)))
                    count += 1
    mats = {}
    for kind in ("dist", "dur"):
        mats[kind] = [matrix_form(d, m) for m in getattr(spec, kind)]
    again = ProblemData(
        locations=[Location(x, y) for x, y in spec.locs],
        clients=[build_client(c) for c in other.clients],
        depots=[build_depot(x) for x in other.depots],
        vehicle_types=[build_vtype(v) for v in other.vtypes],
        distance_matrices=mats["dist"],
        duration_matrices=mats["dur"],
        groups=data.groups(),
        shipments=[build_shipment(s) for s in other.shipments],
    )
    ctx.eq("instance", diff(snap(again), snap(data)), None)
    for mat in mats["dist"] + mats["dur"]:
        mat[:] = 55  # the instance does not share the caller's memory
    check_instance(ctx, again, spec)
    ctx.ok(again == data, "equality")
    for bad in (np.zeros(4, int), np.zeros((1, 1, 1), int)):
        key = d.choice(["distance_matrices", "duration_matrices"])
        ctx.raises(f"{key} {bad.shape}", data.replace, **{key: [bad]})
    ctx.nontrivial = count > 0


def bump(obj, field, by):
    setattr(obj, field, getattr(obj, field) + by)
    return True


SUBS = [
    Sub("client", client, 40000),
    Sub("depot", depot, 15000),
    Sub("shipment", shipment, 30000),
    Sub("vehicle", vehicle, 50000),
    Sub("group", group, 10000),
    Sub("location", location, 5000),
    Sub("instance", instance, 10000),
    Sub("instance_faults", instance_faults, 40000),
    Sub("instance_replace", instance_replace, 8000),
    Sub("forms", forms, 6000),
    Sub("large_instance", large(instance), 100),
    Sub("giant_instance", giant(instance, 40000), 30, 300),
]
