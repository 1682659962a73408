"""C19: instance files are read as what they say."""

import os
import tempfile
import warnings

from engine import Discard, Sub
from pyvrp import read
from pyvrp.exceptions import ScalingWarning
from vrpfile import MAX_VALUE, ROUND, expect, gen_file, large, round_arg

RULE = (
    "A case is a generated instance file (random sections in random order, "
    "specifications or sections, explicit or computed distances, integral or "
    "fractional values, pickup-and-delivery and backhaul variants) with a "
    "rounding function, compared with what was written into it; or such a "
    "file with one fault. Non-trivial: at least four data sections."
)


class Written:
    def __init__(self, text, suffix=".vrp"):
        self.text, self.suffix = text, suffix

    def __enter__(self):
        fd, self.path = tempfile.mkstemp(suffix=self.suffix)
        with os.fdopen(fd, "w") as out:
            out.write(self.text)
        return self.path

    def __exit__(self, *exc):
        os.unlink(self.path)


def fields(obj, want):
    got = {}
    for key in want:
        val = getattr(obj, key)
        got[key] = list(val) if isinstance(want[key], list) else val
    return got


def compare(ctx, data, f, m):
    want = expect(f, m)
    ctx.eq("locations", [(p.x, p.y) for p in data.locations()], want.locs)
    ctx.eq("number of depots", data.num_depots, m.n_dep)
    for idx, depot in enumerate(data.depots()):
        ctx.eq("depot location", depot.location, idx)
        ctx.eq("depot service", depot.service_duration, 0)
    ctx.eq("number of clients", data.num_clients, len(want.clients))
    for idx, exp in enumerate(want.clients):
        ctx.eq(f"client {idx}", fields(data.client(idx), exp), exp)
    got = [sorted(g.clients) for g in data.groups()]
    ctx.eq("groups", got, want.groups)
    ctx.ok(all(g.required for g in data.groups()), "an optional group")
    ctx.eq("number of shipments", data.num_shipments, len(want.shipments))
    for s, exp in zip(data.shipments(), want.shipments):
        for step in ("pickup", "delivery"):
            x = getattr(s, step)
            val = (x.location, x.tw_early, x.tw_late, x.service_duration)
            ctx.eq(step, val, exp[step])
        ctx.eq("amount", list(s.amount), exp["amount"])
        ctx.eq("required", (s.required, s.prize), (True, 0))

    # Every vehicle belongs to exactly one type, which has its attributes.
    type_of = {}
    for idx, vt in enumerate(data.vehicle_types()):
        members = [int(x) for x in vt.name.split(",")]
        ctx.eq("vehicles of a type", vt.num_available, len(members))
        for v in members:
            ctx.ok(v not in type_of, f"vehicle {v} has two types")
            type_of[v] = idx
    ctx.eq("vehicles", sorted(type_of), list(range(m.n_veh)))
    ctx.eq("number of vehicles", data.num_vehicles, m.n_veh)
    kinds = {}
    for v in range(m.n_veh):
        vt = data.vehicle_type(type_of[v])
        exp = want.vehicles[v]
        ctx.eq(f"vehicle {v}", fields(vt, exp), exp)
        mat = want.matrices[v]
        for name in ("distance", "duration"):
            got = getattr(data, f"{name}_matrix")(vt.profile).tolist()
            ctx.eq(f"{name} matrix of vehicle {v}", got, mat)
        key = repr((exp, m.allowed[v]))
        kinds.setdefault(key, set()).add(type_of[v])
    ctx.ok(
        all(len(types) == 1 for types in kinds.values()),
        "identical vehicles have different types",
    )
    ctx.eq("number of types", data.num_vehicle_types, len(kinds))
    return want


def reading(d, ctx):
    f, m = gen_file(d)
    text = f.text(d)
    ctx.note(rounding=f.rounding, text=text)
    arg = round_arg(f.rounding)
    args = () if f.rounding == "none" and d.bool() else (arg,)
    with Written(text) as path, warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        data = read(path, *args)
        again = read(path, *args)
    ctx.ok(data == again, "reading twice gives different instances")
    want = compare(ctx, data, f, m)
    top = max(max(row) for mat in want.matrices for row in mat)
    scaled = any(issubclass(w.category, ScalingWarning) for w in log)
    ctx.eq("scaling warning", scaled, top > MAX_VALUE)
    ctx.nontrivial = len(f.sections) >= 4
    ctx.label(f"rounding {f.rounding}")
    if m.pd:
        ctx.label("shipments")
    if m.vrpb:
        ctx.label("backhauls")
    if data.num_vehicle_types > 1:
        ctx.label("several types")
    if data.num_profiles > 1:
        ctx.label("several profiles")
    if m.n_dep > 1:
        ctx.label("several depots")


VEHICLE = (
    "CAPACITY",
    "VEHICLES_MAX_DISTANCE",
    "VEHICLES_MAX_DURATION",
    "VEHICLES_MAX_RELOADS",
    "VEHICLES_FIXED_COST",
    "VEHICLES_UNIT_DISTANCE_COST",
    "VEHICLES_DEPOT",
    "VEHICLES_RELOAD_DEPOT",
    "VEHICLES_ALLOWED_CLIENTS",
)
CLIENT = (
    "DEMAND",
    "LINEHAUL",
    "BACKHAUL",
    "SERVICE_TIME",
    "TIME_WINDOW",
    "RELEASE_TIME",
    "PRIZE",
)


SIGNED = (
    "CAPACITY",
    "VEHICLES_MAX_DISTANCE",
    "VEHICLES_MAX_DURATION",
    "VEHICLES_UNIT_DISTANCE_COST",
    "DEMAND",
    "LINEHAUL",
    "BACKHAUL",
    "SERVICE_TIME",
    "PRIZE",
)


def faulty(d, ctx):
    f, m = gen_file(d)
    arg = round_arg(f.rounding)
    options = ["rounding", "depots", "dimension", "edge type"]
    rows = [s for s in VEHICLE if s in f.sections]
    short = [s for s in CLIENT if s in f.sections]
    if rows and m.n_veh >= 3:
        options.append("vehicle rows")
    if short and m.n_cl > 1:
        options.append("client rows")
    if "TIME_WINDOW" in f.sections:
        options.append("window")
    if "VEHICLES_DEPOT" in f.sections:
        options.append("vehicle depot")
    if "VEHICLES_RELOAD_DEPOT" in f.sections:
        options.append("reload depot")
    if m.groups:
        options.append("group member")
        options.append("two groups")
    if "RELEASE_TIME" in f.sections and "TIME_WINDOW" in f.sections:
        options.append("release")
    signed = [s for s in SIGNED if s in f.sections]
    if signed:
        options.append("negative")
    what = d.choice(options)
    if what == "negative":
        name = d.choice(signed)
        rows = [list(r) for r in f.sections[name]]
        i = d.int(m.n_dep if name in CLIENT else 0, len(rows) - 1)
        rows[i][d.int(0, len(rows[i]) - 1)] = -d.int(1, 9)
        f.sections[name] = rows
        what += " " + name
    elif what == "release":
        i = d.int(m.n_dep, m.n - 1)
        rows = list(f.sections["RELEASE_TIME"])
        rows[i] = (f.sections["TIME_WINDOW"][i][1] + d.int(1, 100),)
        f.sections["RELEASE_TIME"] = rows
    elif what == "two groups":
        rows = [list(r) for r in f.sections["MUTUALLY_EXCLUSIVE_GROUP"]]
        first = d.choice([r for r in rows if len(r) > 1])
        rest = [i + 1 for i in range(m.n_dep, m.n) if i + 1 not in first]
        if not rest:
            raise Discard
        rows.insert(d.int(0, len(rows)), [d.choice(first), d.choice(rest)])
        f.sections["MUTUALLY_EXCLUSIVE_GROUP"] = rows
    elif what == "rounding":
        arg = d.choice(["rounded", "", 1, None, "ROUND", "int", [1]])
    elif what == "depots":
        bad = [[2], [1, 3], [2, 3], [m.n]]
        f.sections["DEPOT"] = d.choice([b for b in bad if b != [1]])
        if max(f.sections["DEPOT"]) > m.n or m.n == 1:
            raise Discard
    elif what == "dimension":
        del f.specs["DIMENSION"]
    elif what == "edge type":
        f.specs["EDGE_WEIGHT_TYPE"] = "UNKNOWN"
    elif what == "vehicle rows":
        name = d.choice(rows)
        if d.bool():
            f.sections[name] = list(f.sections[name])[:-1]
        else:
            old = list(f.sections[name])
            f.sections[name] = old + old[:1]
        what += " " + name
    elif what == "client rows":
        name = d.choice(short)
        f.sections[name] = list(f.sections[name])[:-1]
        what += " " + name
    elif what == "window":
        i = d.int(m.n_dep, m.n - 1)
        rows = list(f.sections["TIME_WINDOW"])
        rows[i] = (rows[i][0] + 200, rows[i][0] + 100)
        f.sections["TIME_WINDOW"] = rows
    elif what in ("vehicle depot", "reload depot"):
        name = "VEHICLES_" + what.upper().replace(" ", "_").removeprefix(
            "VEHICLE_"
        )
        rows = [list(r) for r in f.sections[name]]
        i = d.int(0, len(rows) - 1)
        rows[i] = [d.choice([0, m.n_dep + 1, m.n + 1])]
        f.sections[name] = rows
    elif what == "group member":
        rows = [list(r) for r in f.sections["MUTUALLY_EXCLUSIVE_GROUP"]]
        for row in rows:
            if len(row) > 1:
                row[0] = d.choice([m.n + 1, m.n_dep, 0])
        f.sections["MUTUALLY_EXCLUSIVE_GROUP"] = rows
    text = f.text(d)
    ctx.note(fault=what, text=text, rounding=str(arg))
    ctx.label("fault: " + what)
    ctx.nontrivial = True
    with Written(text) as path, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(f"fault {what}", read, path, arg)


def rounding(d, ctx):
    """The named rounding functions, value by value."""
    import numpy as np
    from pyvrp.read import ROUND_FUNCS

    name = d.choice(["round", "trunc", "dimacs", "exact"])
    vals = [
        d.int(0, 10**6) + d.choice([0, 0.5, 0.25, 0.999, 0.1, 0.0005])
        for _ in range(d.int(1, 20))
    ]
    got = ROUND_FUNCS[name](np.array(vals))
    ctx.note(name=name, vals=vals)
    ctx.nontrivial = True
    ctx.eq("rounded", got.tolist(), [ROUND[name](v) for v in vals])
    ctx.eq("integral", got.dtype.kind, "i")


SUBS = [
    Sub("reading", reading, 8000),
    Sub("large_reading", large(reading), 400),
    Sub("faulty", faulty, 4000),
    Sub("rounding", rounding, 300, 5000),
]
