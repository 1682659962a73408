"""C09: search routes under edit histories."""

import numpy as np
from engine import Sub
from gen import (
    build,
    from_act,
    gen_acts,
    gen_spec,
    giant,
    large,
    tile_acts,
    to_act,
)
from pyvrp import Client, Depot, Location, ProblemData, VehicleType
from pyvrp.search._search import Node, Route
from ref import INT_MAX, RouteRef, Timeline, max_trips, split_trips, stop_of

RULE = (
    "A case is a random instance with one to three search routes and a random "
    "history of insertions, removals, swaps, appends and clears (including "
    "rejected ones), compared after every update with a model list and with "
    "recomputation from scratch. Non-trivial: at least one activity was "
    "inserted."
)


class World:
    """Real routes and their model."""

    def __init__(self, d, spec):
        self.spec = spec
        self.data = build(spec)
        self.routes = []
        self.types = []
        self.model = []
        for _ in range(d.int(1, 3)):
            vt = d.int(0, len(spec.vtypes) - 1)
            self.types.append(vt)
            self.routes.append(Route(self.data, vt))
            self.model.append([])
        keys = [("C", i) for i in range(len(spec.clients))]
        for i in range(len(spec.shipments)):
            keys += [("P", i), ("X", i)]
        self.nodes = {k: Node(to_act(k)) for k in keys}
        self.log = []

    def where(self, key):
        for r, acts in enumerate(self.model):
            if key in acts:
                return r, acts.index(key)
        return None

    def free(self):
        return [k for k in self.nodes if self.where(k) is None]

    def fill(self, d):
        """Appends a whole route's activities at once."""
        spec = self.spec
        n_cl, n_sh = len(spec.clients), len(spec.shipments)
        if spec.tiled:
            n_cl, n_sh, _ = spec.tiled
        r = d.int(0, len(self.routes) - 1)
        acts = tile_acts(
            spec,
            gen_acts(d, spec, self.types[r], range(n_cl), range(n_sh)),
        )
        self.log.append(("fill", r, acts))
        for key in acts:
            node = self.nodes[key] if key in self.nodes else Node(to_act(key))
            self.routes[r].append(node)
        self.model[r] = list(acts)

    def num_trips(self, r):
        return 1 + sum(k == "D" for k, _ in self.model[r])

    def step(self, d, ctx):
        op = d.weighted(
            [
                (6, "insert"),
                (3, "append"),
                (3, "remove"),
                (3, "swap"),
                (2, "depot"),
                (0.3, "clear"),
            ]
        )
        r = d.int(0, len(self.routes) - 1)
        route, acts = self.routes[r], self.model[r]
        if op in ("insert", "append"):
            free = self.free()
            if not free:
                return
            key = d.choice(free)
            pos = d.int(0, len(acts)) if op == "insert" else len(acts)
            self.log.append((op, r, pos, key))
            if op == "insert":
                route.insert(pos + 1, self.nodes[key])
            else:
                route.append(self.nodes[key])
            acts.insert(pos, key)
            ctx.nontrivial = True
        elif op == "depot":
            key = ("D", d.int(0, len(self.spec.depots) - 1))
            pos = d.int(0, len(acts))
            self.log.append((op, r, pos, key))
            node = Node(to_act(key))
            vt = self.spec.vtypes[self.types[r]]
            if self.num_trips(r) >= max_trips(vt):
                ctx.label("rejected")
                if d.bool():
                    ctx.raises("too many trips", route.insert, pos + 1, node)
                else:
                    ctx.raises("too many trips", route.append, node)
                # The rejected edit must not have changed anything, so the
                # statistics are still as they were.
                return
            route.insert(pos + 1, node)
            acts.insert(pos, key)
            ctx.label("reload")
        elif op == "remove":
            if acts:
                pos = d.int(0, len(acts) - 1)
                self.log.append((op, r, pos))
                del route[pos + 1]
                del acts[pos]
        elif op == "swap":
            keys = list(self.nodes)
            if not keys:
                return
            a, b = d.choice(keys), d.choice(keys)
            self.log.append((op, a, b))
            wa, wb = self.where(a), self.where(b)
            Route.swap(self.nodes[a], self.nodes[b])
            if wa:
                self.model[wa[0]][wa[1]] = b
            if wb:
                self.model[wb[0]][wb[1]] = a
        elif op == "clear":
            self.log.append((op, r))
            route.update()
            route.clear()
            acts.clear()

    def check_shape(self, ctx):
        """Order, positions, trips and membership; needs no update."""
        for r, (route, acts) in enumerate(zip(self.routes, self.model)):
            vt = self.spec.vtypes[self.types[r]]
            full = [("D", vt.start), *acts, ("D", vt.end)]
            ctx.eq("activities", [from_act(n.activity) for n in route], full)
            ctx.eq("len", len(route), len(full))
            trip = 0
            for pos, key in enumerate(full):
                node = route[pos]
                if pos and key[0] == "D":
                    trip += 1
                ctx.eq("pos", node.pos, pos)
                ctx.eq("trip", node.trip, trip)
                ctx.ok(node.route is route, "node's route")
                ctx.eq("from the end", route[pos - len(full)].pos, pos)
                flags = (
                    node.is_client(),
                    node.is_pickup(),
                    node.is_delivery(),
                    node.is_shipment(),
                    node.is_depot(),
                    node.is_start_depot(),
                    node.is_end_depot(),
                    node.is_reload_depot(),
                )
                start, end = pos == 0, pos == len(full) - 1
                want = (
                    key[0] == "C",
                    key[0] == "P",
                    key[0] == "X",
                    key[0] in "PX",
                    key[0] == "D",
                    start,
                    end,
                    key[0] == "D" and not start and not end,
                )
                ctx.eq(f"kind of node {pos}", flags, want)
            ctx.eq("num_trips", route.num_trips(), self.num_trips(r))
            ctx.eq("num_depots", route.num_depots(), self.num_trips(r) + 1)
            ctx.eq("max_trips", route.max_trips(), _max_trips(vt))
            for bad in (len(full), -len(full) - 1):
                ctx.raises(f"index {bad}", route.__getitem__, bad)
        for key in self.free():
            node = self.nodes[key]
            ctx.ok(node.route is None, f"unassigned {key} has a route")
            ctx.eq("pos of unassigned", node.pos, 0)
            ctx.eq("trip of unassigned", node.trip, 0)

    def check_stats(self, d, ctx):
        for r, (route, acts) in enumerate(zip(self.routes, self.model)):
            want = RouteRef(self.spec, self.types[r], acts)
            vt = self.spec.vtypes[self.types[r]]
            ctx.eq("distance", route.distance(), want.distance)
            ctx.eq("distance_cost", route.distance_cost(), want.distance_cost)
            ctx.eq(
                "excess_distance",
                route.excess_distance(),
                want.excess_distance,
            )
            ctx.eq("duration", route.duration(), want.duration)
            ctx.eq("duration_cost", route.duration_cost(), want.duration_cost)
            ctx.eq("overtime", route.overtime(), want.overtime)
            ctx.eq("time_warp", route.time_warp(), want.time_warp)
            ctx.eq(
                "excess_load", list(route.excess_load()), want.excess_load
            )
            ctx.eq("load", list(route.load()), [sum(x) for x in want.loads])
            ctx.eq("fixed cost", route.fixed_vehicle_cost(), want.fixed_cost)
            ctx.eq("num_clients", route.num_clients(), want.num_clients)
            ctx.eq("num_shipments", route.num_shipments(), want.num_shipments)
            ctx.eq("num_pickups", route.num_pickups(), want.num_shipments)
            ctx.eq("has_excess_load", route.has_excess_load(), any(want.excess_load))
            ctx.eq(
                "has_excess_distance",
                route.has_excess_distance(),
                want.excess_distance > 0,
            )
            ctx.eq("has_time_warp", route.has_time_warp(), want.time_warp > 0)
            ctx.eq("is_feasible", route.is_feasible(), want.feasible)
            ctx.eq("vehicle_type", route.vehicle_type, self.types[r])
            ctx.eq("profile", route.profile(), vt.profile)
            ctx.eq("capacity", list(route.capacity()), vt.capacity)
            ctx.eq("start_depot", route.start_depot(), vt.start)
            ctx.eq("end_depot", route.end_depot(), vt.end)
            ctx.eq("max_duration", route.max_duration(), want.max_duration)
            ctx.eq("shift_duration", route.shift_duration(), vt.shift)
            ctx.eq("max_overtime", route.max_overtime(), vt.max_overtime)
            ctx.eq("max_distance", route.max_distance(), vt.max_dist)
            ctx.eq("unit_dist", route.unit_distance_cost(), vt.unit_dist)
            ctx.eq("unit_dur", route.unit_duration_cost(), vt.unit_dur)
            ctx.eq("unit_ot", route.unit_overtime_cost(), vt.unit_ot)
            ctx.ok(route == route, "a route does not equal itself")
            for s, (other, theirs) in enumerate(zip(self.routes, self.model)):
                if (self.types[r], acts) != (self.types[s], theirs):
                    ctx.ok(
                        not (route == other),
                        lambda: f"{acts} equals {theirs}",
                    )
            text = " ".join(
                "|" if k == "D" else str(to_act((k, i))) for k, i in acts
            )
            ctx.eq("printed", str(route), text)
            if want.num_trips > 1:
                ctx.label("multi_trip")
            if want.time_warp:
                ctx.label("time_warp")
            self.check_segments(d, ctx, route, r)

    def check_segments(self, d, ctx, route, r):
        spec, acts = self.spec, self.model[r]
        vt = spec.vtypes[self.types[r]]
        last = len(acts) + 1
        for _ in range(2):
            a = d.int(0, last)
            self._segment(ctx, route, r, 0, a, "before", vt.profile)
            self._segment(ctx, route, r, a, last, "after", vt.profile)
            # Between is limited to one trip.
            ends = [a]
            for b in range(a + 1, last + 1):
                ends.append(b)
                if b == last or acts[b - 1][0] == "D":
                    break
            prof = d.int(0, len(spec.dist) - 1)
            self._segment(
                ctx, route, r, a, d.choice(ends), "between", prof
            )
            self._segment(ctx, route, r, a, a, "at", prof)

    def _segment(self, ctx, route, r, a, b, kind, prof):
        spec, acts = self.spec, self.model[r]
        vt = spec.vtypes[self.types[r]]
        last = len(acts) + 1
        if kind == "before":
            args, tail = (b,), ()
        elif kind == "after":
            args, tail = (a,), ()
        elif kind == "at":
            args, tail = (a,), (prof,)
        else:
            args, tail = (a, b), (prof,)
        what = f"{kind}{(*args, *tail)}"
        dist, dur, locs, release = simulate(spec, vt, acts, a, b, prof)
        got = getattr(route, f"dist_{kind}")(*args, *tail)
        ctx.eq(f"dist_{what}", got, dist)
        seg = getattr(route, f"duration_{kind}")(*args, *tail)
        warp, total, first, latest = dur.optimum()
        if kind == "before" and late_release(spec, acts[: max(b - 1, 0)], acts[:b]):
            ctx.label("known finding skipped")
        else:
            ctx.eq(f"duration_{what} duration", seg.duration(), total)
            ctx.eq(f"duration_{what} time_warp", seg.time_warp(), warp)
        trips = [k for k, _ in acts[max(a, 1) - 1 : max(b - 1, 0)]].count("D")
        if kind != "before" or trips == 0:
            ctx.eq(f"duration_{what} start_early", seg.start_early(), first)
            ctx.eq(f"duration_{what} start_late", seg.start_late(), latest)
            ctx.eq(f"duration_{what} release", seg.release_time(), release)
        for dim in range(spec.dims):
            seg = getattr(route, f"load_{kind}")(*args, dim)
            cap = vt.capacity[dim]
            want = loads(spec, vt, acts, a, b, dim, cap, kind)
            got = (seg.load(), seg.excess_load(cap), seg.delta(), seg.initial())
            ctx.eq(f"load_{what} dim {dim}", got, want)
        del last, locs


def late_release(spec, *prefixes):
    """
    Whether a trip's release time lies after its reload depot has closed; see
    KNOWN_FINDINGS.txt.
    """
    for acts in prefixes:
        trips = split_trips(acts)
        depots = [i for k, i in acts if k == "D"]
        for depot, trip in zip(depots, trips[1:]):
            rel = [spec.clients[i].release for k, i in trip if k == "C"]
            if rel and max(rel) > spec.depots[depot].late:
                return True
    return False


def known(d, ctx):
    """The recorded defect: a release time after the reload depot closed."""
    ctx.nontrivial = True
    mat = np.zeros((2, 2), dtype=int)
    data = ProblemData(
        [Location(0, 0), Location(0, 1)],
        [Client(1), Client(1, release_time=1)],
        [Depot(0), Depot(0, tw_late=0)],
        [VehicleType(reload_depots=[1])],
        [mat],
        [mat],
    )
    route = Route(data, 0)
    nodes = [Node(x) for x in ("C0", "D1", "C1")]
    for node in nodes:
        route.append(node)
    route.update()
    ctx.eq("time warp of the route", route.time_warp(), 1)
    got = route.duration_before(len(route) - 1).time_warp()
    if got == 0:
        ctx.finding("release-after-depot-closes")
    else:
        ctx.eq("time warp of the prefix", got, 1)


def _max_trips(vt):
    return min(max_trips(vt), 2**64 - 1)


def simulate(spec, vt, acts, a, b, prof):
    """Distance and timeline of positions a to b, as a stand-alone drive."""
    last = len(acts) + 1
    dist, dur = spec.dist[prof], spec.dur[prof]
    steps, locs = [], []
    pending = 0  # depot service, counted only when something follows
    total = 0
    release_first = None
    rel = 0
    waits = []
    for pos in range(a, b + 1):
        if pos == 0:
            act = ("D", vt.start)
        elif pos == last:
            act = ("D", vt.end)
        else:
            act = acts[pos - 1]
        stop = stop_of(spec, act)
        if locs:
            steps.append(("delay", pending))
            total += dist[locs[-1]][stop.loc]
            steps.append(("delay", dur[locs[-1]][stop.loc]))
        pending = 0
        locs.append(stop.loc)
        reload = stop.kind == "D" and 0 < pos < last
        if reload and pos != a:
            # New trip: fill in its release time once known.
            if release_first is None:
                release_first = rel
            else:
                steps[waits[-1]] = ("wait", rel)
            rel = 0
            waits.append(len(steps))
            steps.append(("wait", 0))
        if pos == 0:
            steps.append(("window", vt.early, vt.start_late))
            steps.append(("window", stop.early, stop.late))
            steps.append(("delay", stop.service))
        elif pos == last:
            steps.append(("window", stop.early, stop.late))
            steps.append(("window", vt.early, vt.late))
        elif reload:
            steps.append(("window", stop.early, stop.late))
            pending = stop.service
        else:
            steps.append(("window", stop.early, stop.late))
            steps.append(("delay", stop.service))
            if stop.kind == "C":
                rel = max(rel, spec.clients[stop.idx].release)
    if release_first is None:
        release_first = rel
    else:
        steps[waits[-1]] = ("wait", rel)
    tl = Timeline.__new__(Timeline)
    tl.steps, tl.release = steps, release_first
    return total, tl, locs, release_first


def loads(spec, vt, acts, a, b, dim, cap, kind):
    """(load, excess, delta, initial) of positions a to b."""
    last = len(acts) + 1
    part = acts[max(a, 1) - 1 : min(b, last - 1)]
    if part and part[0][0] == "D" and a > 0:
        part = part[1:]
    tail = bool(part) and part[-1][0] == "D" and b < last
    if tail:
        part = part[:-1]
    trips = split_trips(part)
    excess, vals = 0, []
    for num, trip in enumerate(trips):
        init = vt.initial[dim] if a == 0 and num == 0 else 0
        init += sum(spec.clients[i].delivery[dim] for k, i in trip if k == "C")
        load = peak = init
        for k, i in trip:
            if k == "C":
                load += spec.clients[i].pickup[dim]
                load -= spec.clients[i].delivery[dim]
            elif k == "P":
                load += spec.shipments[i].amount[dim]
            else:
                load -= spec.shipments[i].amount[dim]
            peak = max(peak, load)
        excess += max(peak - cap, 0)
        vals.append((peak, load - init, init))
    pick = vals[0] if kind == "after" else vals[-1]
    return pick[0], excess, pick[1], pick[2]


def edits(d, ctx):
    spec = gen_spec(
        d,
        max_clients=6,
        max_ships=3,
        force=("reload",) if d.bool(0.5) else (),
    )
    if d.bool(0.1):  # makes different routes look alike
        for mats in (spec.dist, spec.dur):
            mats[:] = [[[0] * len(row) for row in mat] for mat in mats]
    world = World(d, spec)
    ctx.note(spec=spec, types=world.types, log=world.log)
    if d.bool(0.9 if spec.tiled else 0.2):
        world.fill(d)
        ctx.nontrivial = True
    for _ in range(d.int(1, 6)):
        for _ in range(d.int(1, 6)):
            world.step(d, ctx)
        if d.bool(0.5):
            world.check_shape(ctx)
        for route in world.routes:
            route.update()
        world.check_shape(ctx)
        world.check_stats(d, ctx)


def rejected(d, ctx):
    """Rejected depot insertions, then more edits without and with update."""
    spec = gen_spec(d, max_clients=4, max_ships=1, min_acts=2)
    for vt in spec.vtypes:
        vt.max_reloads = d.choice([1, 0, 2])
    world = World(d, spec)
    ctx.note(spec=spec, types=world.types, log=world.log)
    for _ in range(d.int(1, 4)):
        for _ in range(d.int(0, 3)):
            world.step(d, ctx)
        for r in range(len(world.routes)):
            vt = spec.vtypes[world.types[r]]
            while world.num_trips(r) < max_trips(vt):
                key = ("D", d.int(0, len(spec.depots) - 1))
                pos = d.int(0, len(world.model[r]))
                world.log.append(("depot", r, pos, key))
                world.routes[r].insert(pos + 1, Node(to_act(key)))
                world.model[r].insert(pos, key)
            world.routes[r].update()
            for _ in range(d.int(1, 3)):
                key = ("D", d.int(0, len(spec.depots) - 1))
                pos = d.int(0, len(world.model[r]))
                world.log.append(("rejected", r, pos, key))
                ctx.raises(
                    "too many trips",
                    world.routes[r].insert,
                    pos + 1,
                    Node(to_act(key)),
                )
                ctx.nontrivial = True
        world.check_shape(ctx)
        world.check_stats(d, ctx)
        for route in world.routes:
            route.update()
        world.check_shape(ctx)
        world.check_stats(d, ctx)


SUBS = [
    Sub("edits", edits, 15000),
    Sub("rejected", rejected, 4000),
    Sub("known", known, 1, 1),
    Sub("large_edits", large(edits), 500),
    Sub("giant_edits", giant(edits, 1500), 30, 300),
]
