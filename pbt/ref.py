"""
Reference model: everything is computed from the plain specification of an
instance (see gen.py), by direct simulation with Python's unbounded integers.
Nothing in here uses pyvrp.

Activities are tuples (kind, idx), with kind "C" (client), "D" (reload depot),
"P" (shipment pickup) or "X" (shipment delivery).
"""

INT_MAX = 2**63 - 1


class Stop:
    __slots__ = ("kind", "idx", "loc", "early", "late", "service")

    def __init__(self, kind, idx, loc, early, late, service):
        self.kind = kind
        self.idx = idx
        self.loc = loc
        self.early = early
        self.late = late
        self.service = service


def stop_of(spec, act) -> Stop:
    kind, idx = act
    if kind == "C":
        c = spec.clients[idx]
        return Stop(kind, idx, c.loc, c.early, c.late, c.service)
    if kind == "D":
        d = spec.depots[idx]
        return Stop(kind, idx, d.loc, d.early, d.late, d.service)
    s = spec.shipments[idx]
    if kind == "P":
        return Stop(kind, idx, s.p_loc, s.p_early, s.p_late, s.p_service)
    return Stop(kind, idx, s.d_loc, s.d_early, s.d_late, s.d_service)


def split_trips(acts):
    trips = [[]]
    for act in acts:
        if act[0] == "D":
            trips.append([])
        else:
            trips[-1].append(act)
    return trips


def trip_releases(spec, acts):
    return [
        max((spec.clients[i].release for k, i in trip if k == "C"), default=0)
        for trip in split_trips(acts)
    ]


class Timeline:
    """
    The time windows and fixed delays of a route, in driving order, as a list
    of ("wait", t), ("window", early, late) and ("delay", t) steps.
    """

    def __init__(self, spec, vt_idx, acts):
        vt = spec.vtypes[vt_idx]
        dur = spec.dur[vt.profile]
        releases = trip_releases(spec, acts)
        self.release = releases[0]
        steps = []
        steps.append(("window", vt.early, vt.start_late))
        start = spec.depots[vt.start]
        steps.append(("window", start.early, start.late))
        steps.append(("delay", start.service))
        prev = start.loc
        self.travel = 0
        self.service = start.service
        trip = 0
        for act in acts:
            stop = stop_of(spec, act)
            edge = dur[prev][stop.loc]
            steps.append(("delay", edge))
            self.travel += edge
            if stop.kind == "D":
                trip += 1
                steps.append(("wait", releases[trip]))
            steps.append(("window", stop.early, stop.late))
            steps.append(("delay", stop.service))
            self.service += stop.service
            prev = stop.loc
        end = spec.depots[vt.end]
        edge = dur[prev][end.loc]
        steps.append(("delay", edge))
        self.travel += edge
        steps.append(("window", end.early, end.late))
        steps.append(("window", vt.early, vt.late))
        self.steps = steps

    def run(self, t0):
        """Returns (time warp, duration) when leaving at t0."""
        now = t0
        warp = 0
        total = 0
        for step in self.steps:
            if step[0] == "delay":
                now += step[1]
                total += step[1]
            elif step[0] == "wait":
                if now < step[1]:
                    total += step[1] - now
                    now = step[1]
            else:
                _, early, late = step
                if now < early:
                    total += early - now
                    now = early
                elif now > late:
                    warp += now - late
                    now = late
        return warp, total

    def optimum(self):
        """
        Returns (time warp, duration, earliest start, latest start), where the
        starts are those that minimise time warp, then duration.
        """
        cands = {self.release}
        acc = 0
        for step in self.steps:
            if step[0] == "delay":
                acc += step[1]
            else:
                for val in step[1:]:
                    cands.add(val - acc)
        cands = sorted(c for c in cands if c >= self.release)
        if len(cands) > 200:
            return self.bisected(cands)
        vals = [(self.run(c), c) for c in cands]
        best = min(v for v, _ in vals)
        starts = [c for v, c in vals if v == best]
        return best[0], best[1], starts[0], starts[-1]


    def bisected(self, cands):
        """
        The same as trying all these starts, but faster. Every step passes on
        a later time for a later start, so the time warp never decreases, and
        the waiting time never increases, with the start.
        """

        def first(pred, lo, hi):
            while lo < hi:
                mid = (lo + hi) // 2
                lo, hi = (lo, mid) if pred(self.run(cands[mid])) else (mid + 1, hi)
            return lo

        warp, _ = self.run(cands[0])
        last = first(lambda val: val[0] > warp, 0, len(cands)) - 1
        _, dur = self.run(cands[last])
        start = first(lambda val: val[1] <= dur, 0, last)
        return warp, dur, cands[start], cands[last]


class RouteRef:
    """All fields a route should have."""

    def __init__(self, spec, vt_idx, acts):
        self.spec = spec
        self.vt_idx = vt_idx
        self.acts = list(acts)
        vt = spec.vtypes[vt_idx]

        # Time.
        tl = Timeline(spec, vt_idx, acts)
        warp, dur, start, latest = tl.optimum()
        self.duration = dur
        self.start_time = start
        self.latest_start = latest
        self.slack = latest - start
        self.travel = tl.travel
        self.service = tl.service
        self.wait = dur - tl.travel - tl.service
        self.release = tl.release
        self.base_warp = warp

        max_dur = min(vt.shift + vt.max_overtime, INT_MAX)
        self.max_duration = max_dur
        self.time_warp = warp + max(dur - warp - max_dur, 0)
        self.overtime = max(dur - vt.shift, 0)
        self.duration_cost = (
            vt.unit_dur * self.duration + vt.unit_ot * self.overtime
        )

        # Distance.
        dist = spec.dist[vt.profile]
        locs = [spec.depots[vt.start].loc]
        locs += [stop_of(spec, a).loc for a in acts]
        locs += [spec.depots[vt.end].loc]
        self.locs = locs
        self.distance = sum(dist[a][b] for a, b in zip(locs, locs[1:]))
        self.distance_cost = vt.unit_dist * self.distance
        self.excess_distance = max(self.distance - vt.max_dist, 0)

        # Load.
        trips = split_trips(acts)
        self.excess_load = []
        self.delivery = []
        self.pickup = []
        self.loads = []
        for dim in range(spec.dims):
            excess = 0
            peaks = []
            for num, trip in enumerate(trips):
                load = vt.initial[dim] if num == 0 else 0
                load += sum(
                    spec.clients[i].delivery[dim] for k, i in trip if k == "C"
                )
                peak = load
                for k, i in trip:
                    if k == "C":
                        load -= spec.clients[i].delivery[dim]
                        load += spec.clients[i].pickup[dim]
                    elif k == "P":
                        load += spec.shipments[i].amount[dim]
                    else:
                        load -= spec.shipments[i].amount[dim]
                    peak = max(peak, load)
                excess += max(peak - vt.capacity[dim], 0)
                peaks.append(peak)
            self.loads.append(peaks)
            self.excess_load.append(excess)
            clients = [i for k, i in acts if k == "C"]
            self.delivery.append(
                sum(spec.clients[i].delivery[dim] for i in clients)
            )
            self.pickup.append(
                sum(spec.clients[i].pickup[dim] for i in clients)
                + vt.initial[dim]
            )

        self.num_clients = sum(k == "C" for k, _ in acts)
        self.num_shipments = sum(k == "P" for k, _ in acts)
        self.num_trips = len(trips)
        self.num_depots = self.num_trips + 1
        self.prizes = sum(spec.clients[i].prize for k, i in acts if k == "C")
        self.prizes += sum(
            spec.shipments[i].prize for k, i in acts if k == "P"
        )
        self.fixed_cost = vt.fixed
        self.empty = self.num_clients == 0 and self.num_shipments == 0

    @property
    def feasible(self):
        return (
            self.time_warp == 0
            and self.excess_distance == 0
            and not any(self.excess_load)
        )

    def schedule(self):
        """
        List of (kind, idx, trip, start, end, wait, warp, exact) for all stops
        including depots, where not exact means that only start and end, and
        the difference of wait and warp, are determined.
        """
        spec, acts = self.spec, self.acts
        vt = spec.vtypes[self.vt_idx]
        dur = spec.dur[vt.profile]
        releases = trip_releases(spec, acts)
        out = []
        now = self.start_time

        def handle(kind, idx, trip, windows, service):
            nonlocal now
            wait = warp = 0
            begin = now
            for early, late in windows:
                wait += max(early - begin, 0)
                warp += max(begin - late, 0)
                begin = min(max(begin, early), late)
            exact = wait == 0 or warp == 0
            out.append(
                (kind, idx, trip, begin, begin + service, wait, warp, exact)
            )
            now = begin + service

        start = spec.depots[vt.start]
        handle(
            "D",
            vt.start,
            0,
            [(vt.early, vt.start_late), (start.early, start.late)],
            start.service,
        )
        prev = start.loc
        trip = 0
        for act in acts:
            stop = stop_of(spec, act)
            now += dur[prev][stop.loc]
            windows = [(stop.early, stop.late)]
            if stop.kind == "D":
                trip += 1
                windows.insert(0, (releases[trip], 10**30))
            handle(stop.kind, stop.idx, trip, windows, stop.service)
            prev = stop.loc
        end = spec.depots[vt.end]
        now += dur[prev][end.loc]
        handle("D", vt.end, self.num_trips, [(end.early, end.late)], 0)
        return out

    def penalised(self, pen):
        """pen: (load penalties, tw penalty, dist penalty)."""
        if self.empty:
            return 0
        loads, tw, dist = pen
        cost = self.distance_cost + self.duration_cost + self.fixed_cost
        for excess, p in zip(self.excess_load, loads):
            cost += int(float(p) * excess)
        cost += int(float(tw) * self.time_warp)
        cost += int(float(dist) * self.excess_distance)
        return cost


def route_errors(spec, vt_idx, acts):
    """Reasons why these activities do not form a valid route."""
    errs = []
    vt = spec.vtypes[vt_idx]
    picked, dropped = {}, {}
    sizes = {
        "C": len(spec.clients),
        "D": len(spec.depots),
        "P": len(spec.shipments),
        "X": len(spec.shipments),
    }
    trips = 1
    for k, i in acts:
        if i >= sizes[k]:
            errs.append(f"unknown {k}{i}")
            continue
        if k == "D":
            trips += 1
        elif k == "P":
            if i in picked:
                errs.append(f"double pickup {i}")
            picked.setdefault(i, trips)
        elif k == "X":
            if i not in picked:
                errs.append(f"delivery before pickup {i}")
            elif picked[i] != trips:
                errs.append(f"shipment {i} crosses trips")
            if i in dropped:
                errs.append(f"double delivery {i}")
            dropped.setdefault(i, trips)
    for i in picked:
        if i not in dropped:
            errs.append(f"shipment {i} not delivered")
    if trips > max_trips(vt):
        errs.append("too many trips")
    return errs


def max_trips(vt):
    return 1 if not vt.reloads else vt.max_reloads + 1


def solution_errors(spec, routes):
    """routes: list of (vt_idx, acts), each a valid route."""
    errs = []
    seen_c, seen_s = set(), set()
    used = [0] * len(spec.vtypes)
    for vt_idx, acts in routes:
        used[vt_idx] += 1
        if not any(k != "D" for k, _ in acts):
            errs.append("empty route")
        for k, i in acts:
            if k == "C":
                if i in seen_c:
                    errs.append(f"client {i} twice")
                seen_c.add(i)
            if k == "P":
                if i in seen_s:
                    errs.append(f"shipment {i} twice")
                seen_s.add(i)
    for g_idx, group in enumerate(spec.groups):
        if sum(c in seen_c for c in group.clients) > 1:
            errs.append(f"group {g_idx} twice")
    for vt_idx, vt in enumerate(spec.vtypes):
        if used[vt_idx] > vt.num:
            errs.append(f"too many vehicles of type {vt_idx}")
    return errs


class SolutionRef:
    def __init__(self, spec, routes):
        self.spec = spec
        self.routes = [RouteRef(spec, vt, acts) for vt, acts in routes]
        clients = {i for _, acts in routes for k, i in acts if k == "C"}
        ships = {i for _, acts in routes for k, i in acts if k == "P"}
        self.clients, self.ships = clients, ships
        self.missing_clients = sum(
            c.required and i not in clients for i, c in enumerate(spec.clients)
        )
        self.missing_ships = sum(
            s.required and i not in ships for i, s in enumerate(spec.shipments)
        )
        self.missing_groups = sum(
            g.required and not any(c in clients for c in g.clients)
            for g in spec.groups
        )
        self.complete = (
            self.missing_clients + self.missing_ships + self.missing_groups
            == 0
        )
        rs = self.routes
        self.feasible = self.complete and all(r.feasible for r in rs)
        self.total_prizes = sum(c.prize for c in spec.clients)
        self.total_prizes += sum(s.prize for s in spec.shipments)
        self.prizes = sum(r.prizes for r in rs)
        self.uncollected = self.total_prizes - self.prizes
        self.unplanned = [
            ("C", i) for i in range(len(spec.clients)) if i not in clients
        ]
        for i in range(len(spec.shipments)):
            if i not in ships:
                self.unplanned += [("P", i), ("X", i)]

    def sum(self, name):
        return sum(getattr(r, name) for r in self.routes)

    def excess_load(self):
        return [
            sum(r.excess_load[d] for r in self.routes)
            for d in range(self.spec.dims)
        ]

    def penalised(self, pen):
        return self.uncollected + sum(r.penalised(pen) for r in self.routes)

    def cost(self, pen=None):
        if not self.feasible:
            return INT_MAX
        zero = ([0] * self.spec.dims, 0, 0)
        return self.penalised(zero)
