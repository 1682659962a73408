"""Helpers for checks of the search package."""

from gen import build, from_act, to_act
from pyvrp.search import _search as S
from ref import RouteRef, route_errors, split_trips


def late_release(spec, acts):
    """
    Whether a trip's release time lies after its reload depot has closed; see
    KNOWN_FINDINGS.txt.
    """
    trips = split_trips(acts)
    depots = [i for k, i in acts if k == "D"]
    for depot, trip in zip(depots, trips[1:]):
        rel = [spec.clients[i].release for k, i in trip if k == "C"]
        if rel and max(rel) > spec.depots[depot].late:
            return True
    return False


def pattern(ss):
    """[(vehicle type, activities)] of all routes of a search solution."""
    return [
        (r.vehicle_type, [from_act(n.activity) for n in r][1:-1])
        for r in ss.routes
    ]


def nonempty(pat):
    return [(v, a) for v, a in pat if any(k != "D" for k, _ in a)]


def all_keys(spec):
    keys = [("C", i) for i in range(len(spec.clients))]
    return keys + [("P", i) for i in range(len(spec.shipments))]


def all_visits(spec):
    keys = all_keys(spec)
    return keys + [("X", i) for i in range(len(spec.shipments))]


def gen_neighbours(d, spec, p=None):
    """A random neighbourhood structure."""
    p = d.choice([0.6, 1.0, 0.2, 0.0]) if p is None else p
    out = {}
    visits = all_visits(spec)
    for key in all_keys(spec):
        cand = [v for v in visits if v != key and v != ("X", key[1])]
        if key[0] == "C":
            cand = [v for v in visits if v != key]
        cand = d.subset(cand, p) if p < 1.0 else cand
        if d.bool(0.4):
            cand = d.shuffle(cand)
        out[key] = cand
    return out


def real_neighbours(neigh):
    return {to_act(k): [to_act(v) for v in vs] for k, vs in neigh.items()}


class Costs:
    """Memoised reference route costs."""

    def __init__(self, spec, pen):
        self.spec = spec
        self.pen = pen
        self.memo = {}
        self.vague = set()

    def route(self, vt, acts):
        key = (vt, tuple(acts))
        if key not in self.memo:
            ref = RouteRef(self.spec, vt, acts)
            self.memo[key] = ref.penalised(self.pen)
            if late_release(self.spec, acts):
                self.vague.add(key)
        return self.memo[key]

    def is_vague(self, vt, acts):
        self.route(vt, acts)
        return (vt, tuple(acts)) in self.vague

    def uncollected(self, pat):
        have = {x for _, acts in pat for x in acts}
        total = 0
        for i, c in enumerate(self.spec.clients):
            if ("C", i) not in have:
                total += c.prize
        for i, s in enumerate(self.spec.shipments):
            if ("P", i) not in have:
                total += s.prize
        return total

    def total(self, pat):
        return self.uncollected(pat) + sum(self.route(v, a) for v, a in pat)

    def any_vague(self, pat):
        return any(self.is_vague(v, a) for v, a in pat)

    def delta(self, before, after):
        out = self.uncollected(after) - self.uncollected(before)
        for (v, a), (_, b) in zip(before, after):
            if a != b:
                out += self.route(v, b) - self.route(v, a)
        return out


def valid_pattern(spec, pat):
    """Problems with the structure of a search solution."""
    errs = []
    for v, a in pat:
        errs += route_errors(spec, v, a)
    seen = [x for _, acts in pat for x in acts if x[0] != "D"]
    if len(seen) != len(set(seen)):
        errs.append("an activity is planned twice")
    return errs


def no_late_release(spec):
    """
    Keeps depots open until the last release time, so that the defect recorded
    in KNOWN_FINDINGS.txt cannot show.
    """
    last = max((c.release for c in spec.clients), default=0)
    for depot in spec.depots:
        depot.late = max(depot.late, last)
