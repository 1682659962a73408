"""C18: the modelling interface builds what was described."""

import copy
import warnings

from engine import Sub
from gen import (
    SIZE_MAX,
    build,
    build_solution,
    gen_routes,
    gen_spec,
    giant,
    large,
)
from props.c28 import Capture
from pyvrp import Model, Profile, SolveParams, solve
from pyvrp.exceptions import ScalingWarning
from pyvrp.stop import MaxIterations
from ref import INT_MAX
from snap import diff, snap
from sutil import no_late_release

from props.c06 import check_instance

RULE = (
    "A case is a history of modelling calls (locations, depots, groups, "
    "clients, shipments, profiles, edges, vehicle types, interleaved, many of "
    "them look-alikes, with rejected calls in between) mirrored in plain data. "
    "Non-trivial: an edge is overridden or two profiles exist, or look-alike "
    "objects are referenced."
)

MAX_VALUE = 1 << 44


def maybe_int(d, vals):
    """A single amount can be given as a number."""
    return vals[0] if len(vals) == 1 and d.bool() else vals


def drop_defaults(d, kwargs, defaults):
    """Leaves out arguments that have their default value, sometimes."""
    return {
        k: v
        for k, v in kwargs.items()
        if not (k in defaults and defaults[k] == v and d.bool(0.7))
    }


CLIENT_DEFAULTS = dict(
    delivery=[],
    pickup=[],
    service_duration=0,
    tw_early=0,
    tw_late=INT_MAX,
    release_time=0,
    prize=0,
    required=True,
    group=None,
    name="",
)
SHIP_DEFAULTS = dict(
    pickup_tw_early=0,
    pickup_tw_late=INT_MAX,
    pickup_service_duration=0,
    delivery_tw_early=0,
    delivery_tw_late=INT_MAX,
    delivery_service_duration=0,
    amount=[],
    prize=0,
    required=True,
    name="",
)
DEPOT_DEFAULTS = dict(tw_early=0, tw_late=INT_MAX, service_duration=0, name="")
VEH_DEFAULTS = dict(
    num_available=1,
    capacity=[],
    fixed_cost=0,
    tw_early=0,
    tw_late=INT_MAX,
    shift_duration=INT_MAX,
    max_distance=INT_MAX,
    unit_distance_cost=1,
    unit_duration_cost=0,
    initial_load=[],
    reload_depots=[],
    max_reloads=SIZE_MAX,
    max_overtime=0,
    unit_overtime_cost=0,
    name="",
)


class Builder:
    """Feeds a specification to a model, call by call."""

    def __init__(self, d, spec, model=None):
        self.d = d
        self.spec = spec
        self.m = Model() if model is None else model
        self.locs, self.depots, self.groups = [], [], []
        self.clients, self.ships, self.profs, self.vehs = [], [], [], []
        self.base, self.own = {}, {}
        self.overridden = 0

    def add_loc(self, i):
        x, y = self.spec.locs[i]
        got = self.m.add_location(x, y, name=f"l{x}")
        self.locs.append(got)

    def add_depot(self, i):
        x = self.spec.depots[i]
        kw = dict(
            tw_early=x.early,
            tw_late=x.late,
            service_duration=x.service,
            name=x.name,
        )
        kw = drop_defaults(self.d, kw, DEPOT_DEFAULTS)
        self.depots.append(self.m.add_depot(self.locs[x.loc], **kw))

    def add_group(self, i):
        g = self.spec.groups[i]
        kw = dict(required=g.required, name=g.name)
        kw = drop_defaults(self.d, kw, dict(required=True, name=""))
        self.groups.append(self.m.add_client_group(**kw))

    def client_kw(self, c):
        kw = dict(
            delivery=maybe_int(self.d, c.delivery),
            pickup=maybe_int(self.d, c.pickup),
            service_duration=c.service,
            tw_early=c.early,
            tw_late=c.late,
            release_time=c.release,
            prize=c.prize,
            required=c.required,
            group=None if c.group is None else self.groups[c.group],
            name=c.name,
        )
        if not any(c.delivery) and self.d.bool():
            kw["delivery"] = []  # padded to the pickup amounts
            if not any(c.pickup) and c.pickup:
                kw["pickup"] = c.pickup
        return drop_defaults(self.d, kw, CLIENT_DEFAULTS)

    def add_client(self, i):
        c = self.spec.clients[i]
        got = self.m.add_client(self.locs[c.loc], **self.client_kw(c))
        self.clients.append(got)

    def add_ship(self, i):
        s = self.spec.shipments[i]
        kw = dict(
            pickup_tw_early=s.p_early,
            pickup_tw_late=s.p_late,
            pickup_service_duration=s.p_service,
            delivery_tw_early=s.d_early,
            delivery_tw_late=s.d_late,
            delivery_service_duration=s.d_service,
            amount=maybe_int(self.d, s.amount),
            prize=s.prize,
            required=s.required,
            name=s.name,
        )
        kw = drop_defaults(self.d, kw, SHIP_DEFAULTS)
        self.ships.append(
            self.m.add_shipment(self.locs[s.p_loc], self.locs[s.d_loc], **kw)
        )

    def add_prof(self, i):
        self.profs.append(self.m.add_profile())

    def add_veh(self, i):
        v = self.spec.vtypes[i]
        kw = dict(
            num_available=v.num,
            capacity=maybe_int(self.d, v.capacity),
            fixed_cost=v.fixed,
            tw_early=v.early,
            tw_late=v.late,
            shift_duration=v.shift,
            max_distance=v.max_dist,
            unit_distance_cost=v.unit_dist,
            unit_duration_cost=v.unit_dur,
            initial_load=maybe_int(self.d, v.initial),
            reload_depots=[self.depots[r] for r in v.reloads],
            max_reloads=v.max_reloads,
            max_overtime=v.max_overtime,
            unit_overtime_cost=v.unit_ot,
            name=v.name,
        )
        kw = drop_defaults(self.d, kw, VEH_DEFAULTS)
        if v.start_late != v.late or self.d.bool():
            kw["start_late"] = v.start_late
        if v.start != 0 or self.d.bool():
            kw["start_depot"] = self.depots[v.start]
        if v.end != 0 or self.d.bool():
            kw["end_depot"] = self.depots[v.end]
        if self.profs and (v.profile != 0 or self.d.bool()):
            kw["profile"] = self.profs[v.profile]
        self.vehs.append(self.m.add_vehicle_type(**kw))

    def add_edge(self):
        """A random edge, base or of a profile, possibly one given before."""
        d = self.d
        known = list(self.base) + list(self.own)
        if known and d.bool(0.4):
            *_, i, j = d.choice(known)
        else:
            i = d.int(0, len(self.locs) - 1)
            j = d.int(0, len(self.locs) - 1)
        dist, dur = (0, 0) if i == j else (d.int(0, 50), d.int(0, 50))
        kw = {}
        if dur or d.bool():
            kw["duration"] = dur
        prof = None
        if self.profs and d.bool(0.6):
            prof = d.int(0, len(self.profs) - 1)
        args = (self.locs[i], self.locs[j], dist)
        if prof is None:
            self.overridden += (i, j) in self.base
            self.m.add_edge(*args, **kw)
            self.base[i, j] = (dist, dur)
        else:
            self.overridden += (prof, i, j) in self.own
            if d.bool():
                self.m.add_edge(*args, profile=self.profs[prof], **kw)
            else:
                self.profs[prof].add_edge(*args, **kw)
            self.own[prof, i, j] = (dist, dur)

    def matrices(self, fill, num_locs):
        fill = min(fill, MAX_VALUE)
        num = max(len(self.profs), 1)
        res = ([], [])
        for p in range(num):
            for kind in (0, 1):
                mat = [
                    [0 if i == j else fill for j in range(num_locs)]
                    for i in range(num_locs)
                ]
                for (i, j), val in self.base.items():
                    mat[i][j] = val[kind]
                for (q, i, j), val in self.own.items():
                    if q == p:
                        mat[i][j] = val[kind]
                res[kind].append(mat)
        return res

    def state(self):
        m = self.m
        return (
            [id(x) for x in m.locations],
            [id(x) for x in m.clients],
            [id(x) for x in m.depots],
            [(id(x), list(x.clients)) for x in m.groups],
            [id(x) for x in m.shipments],
            [(id(x), len(x.edges)) for x in m.profiles],
            [id(x) for x in m.vehicle_types],
            len(m._edges) if hasattr(m, "_edges") else 0,
        )

    def ready(self, kind, i):
        s = self.spec
        locs = len(self.locs)
        if kind == "depot":
            return s.depots[i].loc < locs
        if kind == "client":
            c = s.clients[i]
            return c.loc < locs and (
                c.group is None or c.group < len(self.groups)
            )
        if kind == "ship":
            return max(s.shipments[i].p_loc, s.shipments[i].d_loc) < locs
        if kind == "veh":
            v = s.vtypes[i]
            if max([v.start, v.end, *v.reloads]) >= len(self.depots):
                return False
            return s.implicit or v.profile < len(self.profs)
        return True


def bad_call(d, ctx, b):
    """One call that must be rejected, and leave no trace."""
    m = b.m
    other = Model()
    loc = other.add_location(0, 0)
    depot = other.add_depot(loc)
    group = other.add_client_group()
    prof = other.add_profile()
    mine = b.locs[0] if b.locs else None
    # Look-alikes of the model's own objects.
    if mine is not None:
        loc = copy.copy(mine)
    if b.depots:
        depot = copy.copy(b.depots[0])
    if b.groups:
        group = copy.copy(b.groups[0])
    calls = {
        "client location": lambda: m.add_client(loc),
        "depot location": lambda: m.add_depot(loc),
        "start depot": lambda: m.add_vehicle_type(start_depot=depot),
        "end depot": lambda: m.add_vehicle_type(end_depot=depot),
        "reload depot": lambda: m.add_vehicle_type(reload_depots=[depot]),
        "profile": lambda: m.add_vehicle_type(profile=prof),
    }
    if mine is not None:
        calls |= {
            "pickup location": lambda: m.add_shipment(loc, mine),
            "delivery location": lambda: m.add_shipment(mine, loc),
            "group": lambda: m.add_client(mine, required=False, group=group),
            "negative distance": lambda: m.add_edge(mine, loc, -1, 3),
            "negative duration": lambda: m.add_edge(mine, loc, 1, -3),
            "self loop distance": lambda: m.add_edge(mine, mine, 1),
            "self loop duration": lambda: m.add_edge(mine, mine, 0, 1),
            "bad window": lambda: m.add_client(mine, tw_early=2, tw_late=1),
            "bad depot": lambda: m.add_depot(mine, tw_early=2, tw_late=1),
            "bad shipment": lambda: m.add_shipment(mine, mine, amount=-1),
            "bad vehicle": lambda: m.add_vehicle_type(0),
        }
        if b.groups:
            grp = d.choice(b.groups)
            calls["required member"] = lambda: m.add_client(mine, group=grp)
            calls["bad member"] = lambda: m.add_client(
                mine, required=False, group=grp, tw_early=2, tw_late=1
            )
        if b.profs:
            p = d.choice(b.profs)
            calls["profile negative"] = lambda: m.add_edge(
                mine, loc, -1, profile=p
            )
            calls["profile loop"] = lambda: p.add_edge(mine, mine, 0, 7)
    name = d.choice(sorted(calls))
    before = b.state()
    ctx.raises(f"{name} was accepted", calls[name])
    ctx.eq(f"state after a rejected call ({name})", b.state(), before)
    ctx.label("rejected: " + name)


KINDS = {
    "loc": ("locs", "locs", Builder.add_loc),
    "depot": ("depots", "depots", Builder.add_depot),
    "group": ("groups", "groups", Builder.add_group),
    "client": ("clients", "clients", Builder.add_client),
    "ship": ("shipments", "ships", Builder.add_ship),
    "veh": ("vtypes", "vehs", Builder.add_veh),
}


def expected(b, fill):
    """The specification of what the model now describes."""
    out = copy.copy(b.spec)
    out.clients = b.spec.clients[: len(b.clients)]
    out.depots = b.spec.depots[: len(b.depots)]
    out.shipments = b.spec.shipments[: len(b.ships)]
    out.vtypes = b.spec.vtypes[: len(b.vehs)]
    out.locs = b.spec.locs[: len(b.locs)]
    out.groups = []
    for g in b.spec.groups[: len(b.groups)]:
        g = copy.copy(g)
        g.clients = sorted(i for i in g.clients if i < len(b.clients))
        out.groups.append(g)
    out.dist, out.dur = b.matrices(fill, len(b.locs))
    return out


def check_names(ctx, data, spec):
    for idx, (x, _) in enumerate(spec.locs):
        ctx.eq("location name", data.location(idx).name, f"l{x}")


def gen_model_spec(d):
    spec = gen_spec(
        d, max_clients=6, max_ships=3, max_depots=4, max_vtypes=3
    )
    spec.implicit = len(spec.dist) == 1 and d.bool()
    if d.bool(0.4):
        spec.locs = [spec.locs[0]] * len(spec.locs)  # look-alikes
    if d.bool(0.4):
        for x in spec.depots[1:]:
            loc = x.loc
            vars(x).update(vars(spec.depots[0]))
            x.loc = loc if d.bool(0.3) else x.loc
        for v in spec.vtypes:
            for x in (spec.depots[v.start], spec.depots[v.end]):
                v.early = min(v.early, x.late)
                v.late = max(v.late, x.early)
            v.start_late = max(v.start_late, v.early)
    if d.bool(0.4):
        for g in spec.groups:
            g.required, g.name = True, "g"
    return spec


def history(d, ctx):
    spec = gen_model_spec(d)
    b = Builder(d, spec)
    total = {k: len(getattr(spec, KINDS[k][0])) for k in KINDS}
    n_prof = 0 if spec.implicit else len(spec.dist)
    ctx.note(spec=spec)
    snaps = []
    guard = 0
    while True:
        guard += 1
        todo = [
            k
            for k in KINDS
            if len(getattr(b, KINDS[k][1])) < total[k]
            and b.ready(k, len(getattr(b, KINDS[k][1])))
        ]
        if len(b.profs) < n_prof:
            todo.append("prof")
        if not todo:
            break
        kind = d.choice(todo)
        if kind == "prof":
            b.add_prof(len(b.profs))
        else:
            KINDS[kind][2](b, len(getattr(b, KINDS[kind][1])))
        if b.locs and d.bool(0.4):
            for _ in range(d.int(1, 3)):
                b.add_edge()
        if d.bool(0.2):
            bad_call(d, ctx, b)
        if b.vehs and d.bool(0.1) and intermediate(spec, b):
            fill = d.int(0, 100)
            exp = expected(b, fill)
            if all(g.clients for g in exp.groups):
                data = b.m.data(fill)
                check_instance(ctx, data, exp)
                snaps.append((data, snap(data)))
    for kind, (_, mine, _) in KINDS.items():
        ctx.eq(f"number of {kind}", len(getattr(b, mine)), total[kind])
    for name, mine in (
        ("locations", b.locs),
        ("clients", b.clients),
        ("depots", b.depots),
        ("groups", b.groups),
        ("shipments", b.ships),
        ("profiles", b.profs),
        ("vehicle_types", b.vehs),
    ):
        got = getattr(b.m, name)
        ctx.ok(
            [id(x) for x in got] == [id(x) for x in mine],
            f"model {name} are not the objects that were returned",
        )
    kind = d.choice(["default", "small", "huge", "zero"])
    if kind == "default":
        fill, data = MAX_VALUE, b.m.data()
    else:
        fill = {"small": d.int(1, 99), "huge": MAX_VALUE + 5, "zero": 0}[kind]
        data = b.m.data(missing_value=fill)
    exp = expected(b, fill)
    check_instance(ctx, data, exp)
    check_names(ctx, data, exp)
    if b.overridden:
        ctx.label("edge overridden")
    if len(b.profs) > 1:
        ctx.label("several profiles")
    ctx.nontrivial = bool(b.overridden) or len(b.profs) > 1
    if len(set(spec.locs)) < len(spec.locs):
        ctx.nontrivial = True
        ctx.label("look-alike locations")
    for old, before in snaps:
        ctx.label("earlier instance")
        ctx.eq("instance built earlier", diff(snap(old), before), None)


def intermediate(spec, b):
    """Whether the partial model is a valid instance."""
    return bool(b.depots) and (spec.implicit or b.profs)


def rebuild(d, ctx):
    """A model of an existing instance, then changed."""
    spec = gen_spec(d, max_clients=6)
    if d.bool(0.4):
        spec.locs = [spec.locs[0]] * len(spec.locs)
    for v in spec.vtypes:
        v.name = d.choice(["", v.name, "v"])
    data = build(spec)
    before = snap(data)
    ctx.note(spec=spec)
    model = Model.from_data(data)
    fill = d.choice([0, 5, MAX_VALUE])
    again = model.data(fill)
    ctx.eq("rebuilt instance", diff(snap(again), before), None)
    ctx.ok(again == data, "the rebuilt instance does not compare equal")
    check_instance(ctx, again, spec)

    # Now change the model: the old instance must stay as it was.
    new = copy.deepcopy(spec)
    locs = list(model.locations)
    for _ in range(d.int(1, 5)):
        what = d.choice(["client", "edge", "depot", "veh", "group", "loc"])
        if what == "loc":
            locs.append(model.add_location(1, 2))
            for mats in (new.dist, new.dur):
                for m in mats:
                    for row in m:
                        row.append(min(fill, MAX_VALUE))
                    m.append([min(fill, MAX_VALUE)] * len(m) + [0])
            new.locs = new.locs + [(1, 2)]
        elif what == "group":
            g = model.add_client_group(required=False, name="new")
            c = copy.copy(spec.clients[0]) if spec.clients else None
            if c is None:
                model.groups.remove(g)
                continue
            new.groups.append(copy.copy(c))
            grp = new.groups[-1]
            vars(grp).clear()
            grp.clients, grp.required, grp.name = [], False, "new"
            add(model, new, locs, d, len(new.groups) - 1)
        elif what == "client":
            options = [None] + list(range(len(new.groups)))
            add(model, new, locs, d, d.choice(options[::-1]))
        elif what == "depot":
            i = d.int(0, len(locs) - 1)
            model.add_depot(locs[i], name="d")
            dep = copy.copy(spec.depots[0])
            dep.loc, dep.early, dep.late = i, 0, INT_MAX
            dep.service, dep.name = 0, "d"
            new.depots.append(dep)
        elif what == "veh":
            idx = d.int(0, len(new.depots) - 1)
            model.add_vehicle_type(
                3,
                capacity=[4] * spec.dims,
                start_depot=model.depots[idx],
                end_depot=model.depots[idx],
                profile=model.profiles[-1],
            )
            v = copy.copy(spec.vtypes[0])
            v.num, v.capacity, v.start, v.end = 3, [4] * spec.dims, idx, idx
            v.profile = len(spec.dist) - 1
            v.fixed, v.early, v.late, v.shift = 0, 0, INT_MAX, INT_MAX
            v.max_dist, v.unit_dist, v.unit_dur = INT_MAX, 1, 0
            v.start_late, v.initial, v.reloads = INT_MAX, [0] * spec.dims, []
            v.max_reloads, v.max_overtime, v.unit_ot = SIZE_MAX, 0, 0
            v.name = ""
            new.vtypes.append(v)
        else:
            i, j = d.int(0, len(locs) - 1), d.int(0, len(locs) - 1)
            if i == j:
                continue
            p = d.int(0, len(new.dist) - 1)
            dist, dur = d.int(0, 9), d.int(0, 9)
            model.add_edge(
                locs[i], locs[j], dist, dur, profile=model.profiles[p]
            )
            new.dist[p][i][j], new.dur[p][i][j] = dist, dur
    ctx.eq("instance the model came from", diff(snap(data), before), None)
    changed = model.data(fill)
    check_instance(ctx, changed, new)
    ctx.eq("instance the model came from", diff(snap(data), before), None)
    ctx.eq("instance built before", diff(snap(again), before), None)
    ctx.nontrivial = len(spec.clients) > 0


def add(model, new, locs, d, group):
    i = d.int(0, len(locs) - 1)
    from types import SimpleNamespace as NS

    c = NS(
        loc=i,
        delivery=[1] * new.dims,
        pickup=[0] * new.dims,
        service=3,
        early=0,
        late=INT_MAX,
        release=0,
        prize=2,
        required=group is None,
        group=group,
        name="new",
    )
    model.add_client(
        locs[i],
        delivery=c.delivery,
        pickup=c.pickup,
        service_duration=3,
        prize=2,
        required=c.required,
        group=None if group is None else model.groups[group],
        name="new",
    )
    if group is not None:
        new.groups[group].clients.append(len(new.clients))
    new.clients.append(c)


def edges(d, ctx):
    """Single edges, profiles and warnings about large values."""
    m = Model()
    a, b = m.add_location(0, 0), m.add_location(0, 0)
    vals = [0, 1, -1, 7, MAX_VALUE, MAX_VALUE + 1, 10**15]
    dist, dur = d.choice(vals), d.choice(vals)
    frm, to = d.choice([a, b]), d.choice([a, b])
    prof = None
    if d.bool():
        prof = m.add_profile(name="p") if d.bool() else Profile(name="p")
        ctx.eq("profile name", (prof.name, str(prof)), ("p", "p"))
    bad = dist < 0 or dur < 0
    bad |= frm is to and (dist, dur) != (0, 0)
    ctx.note(dist=dist, dur=dur, loop=frm is to)
    ctx.nontrivial = True
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if bad:
            ctx.raises("edge", m.add_edge, frm, to, dist, dur, prof)
            ctx.eq("edges", len(prof.edges) if prof else 0, 0)
            return
        edge = m.add_edge(frm, to, dist, dur, prof)
    scaled = any(issubclass(w.category, ScalingWarning) for w in log)
    ctx.eq("scaling warning", scaled, max(dist, dur) > MAX_VALUE)
    ctx.eq("edge", (edge.distance, edge.duration), (dist, dur))
    ctx.ok(edge.frm is frm and edge.to is to, "edge ends")
    if prof:
        ctx.ok(prof.edges[-1] is edge, "edge is not in its profile")


def solving(d, ctx):
    """Solving a model is solving its instance with the same arguments."""
    fill = d.choice([3, 50, MAX_VALUE])
    scratch = d.bool(0.4)  # described from scratch, with few edges
    if scratch:
        spec = gen_model_spec(d)
        no_late_release(spec)
        b = Builder(d, spec)
        for kind in ("loc", "depot", "group", "client", "ship", "prof", "veh"):
            if kind == "prof":
                for idx in range(0 if spec.implicit else len(spec.dist)):
                    b.add_prof(idx)
                continue
            for idx in range(len(getattr(spec, KINDS[kind][0]))):
                KINDS[kind][2](b, idx)
        for _ in range(d.int(0, 20)):
            b.add_edge()
        model = b.m
        fill = min(fill, 10**6)  # sums of costs fit in 64 bits
        ctx.label("scratch", "implicit" if spec.implicit else "profiles")
    else:
        spec = gen_spec(d, max_clients=5, max_ships=2, min_acts=2)
        no_late_release(spec)
        data = build(spec)
        model = Model.from_data(data)
    extra = not scratch and d.bool()
    if extra:  # an unconnected location that matters only via the fill value
        loc = model.add_location(1, 1)
        model.add_client(loc, delivery=[0] * spec.dims, prize=1)
    data = model.data(fill)
    seed = d.int(0, 100) * d.bool(0.8)
    iters = d.int(0, 4)
    params = SolveParams(display_interval=d.choice([5.0, 1.0]))
    init = None
    if not extra and d.bool():
        init = build_solution(data, gen_routes(d, spec, complete=True))
    stats = d.bool()
    ctx.note(spec=spec, seed=seed, iters=iters)
    args = dict(
        seed=seed,
        collect_stats=stats,
        display=d.bool(),
        params=params,
        initial_solution=init,
    )
    # Arguments at their documented default may be left out.
    usual = dict(
        seed=0,
        collect_stats=True,
        display=True,
        missing_value=MAX_VALUE,
        initial_solution=None,
    )
    given = dict(args, missing_value=fill)
    short = {
        k: v
        for k, v in given.items()
        if k not in usual or v != usual[k] or d.bool()
    }
    with Capture() as log:
        one = model.solve(MaxIterations(iters), **short)
    shown = bool(log.take())
    with Capture() as log:
        two = solve(data, MaxIterations(iters), **args)
    ctx.eq("display", shown, bool(log.take()))
    ctx.ok(one.best == two.best, "another solution")
    ctx.eq("cost", one.cost(), two.cost())
    ctx.eq("iterations", one.num_iterations, two.num_iterations)
    ctx.eq("statistics", len(one.stats.data), len(two.stats.data))
    ctx.nontrivial = iters > 0


SUBS = [
    Sub("history", history, 3000),
    Sub("rebuild", rebuild, 2000),
    Sub("edges", edges, 400, 4000),
    Sub("solving", solving, 500),
    Sub("large_rebuild", large(rebuild), 100),
    Sub("giant_rebuild", giant(rebuild, 5000), 30, 300),
]
