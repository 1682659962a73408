"""
Generates instance files in VRPLIB format together with a plain description of
what they say.
"""

import math
from types import SimpleNamespace as NS

import numpy as np

from ref import INT_MAX

SIZE_MAX = 2**64 - 1
MAX_VALUE = 1 << 44


LARGE = False


def large(fn):
    """A check like the given one, on large files."""

    def wrapped(d, ctx):
        global LARGE
        LARGE = True
        try:
            fn(d, ctx)
        finally:
            LARGE = False

    return wrapped


def double(vals):
    return (2 * vals).astype(np.int64)


ROUND = {
    "round": lambda v: round(v),
    "trunc": lambda v: int(v),
    "dimacs": lambda v: int(10 * v),
    "exact": lambda v: round(1000 * v),
    "none": lambda v: int(v),
    "double": lambda v: int(2 * v),
}


def round_arg(name):
    """What to pass to read() for a rounding name."""
    return double if name == "double" else name


class File:
    """Specifications and sections, with values as written."""

    def __init__(self):
        self.specs = {}
        self.sections = {}
        self.rounding = "none"

    def to_json(self):
        return {"rounding": self.rounding, "text": self.text()}

    def text(self, d=None):
        names = list(self.sections)
        specs = list(self.specs)
        if d is not None:
            names = d.shuffle(names)
            specs = d.shuffle(specs)
        lines = []
        for key in specs:
            sep = d.choice([" : ", ": ", ":", " :"]) if d else " : "
            lines.append(f"{key}{sep}{self.specs[key]}")
        for name in names:
            lines.append(f"{name}_SECTION")
            rows = self.sections[name]
            if name == "EDGE_WEIGHT":
                lines += [" ".join(map(str, row)) for row in rows]
            elif name == "DEPOT":
                lines += [str(row) for row in rows] + ["-1"]
            else:
                for idx, row in enumerate(rows):
                    lines.append(" ".join(map(str, [idx + 1, *row])))
            if d is not None and d.bool(0.15):
                lines.append(d.choice(["# a comment", ""]))
        if d is None or d.bool(0.8):
            lines.append("EOF")
        return "\n".join(lines) + "\n"


def gen_file(d, pd=None, vrpb=None, max_clients=6):
    """
    A random well-formed file: (File, what it says before rounding).
    """
    f = File()
    f.rounding = d.choice(["none", "round", "exact", "dimacs", "trunc", "double"])
    frac = f.rounding != "none" and d.bool(0.5)
    if pd is None:
        pd = d.bool(0.2)
    if vrpb is None:
        vrpb = not pd and d.bool(0.15)
    m = NS()
    m.pd, m.vrpb = pd, vrpb
    m.n_dep = d.small(1, 3)
    m.n_cl = d.int(1, max_clients)
    if pd:
        m.n_cl = 2 * d.int(1, 3)
    mul = 1
    if LARGE:
        m.n_dep = d.small(1, 12)
        m.n_cl = 2 * d.int(3, 15) if pd else d.int(7, 40)
        if d.bool(0.1):
            m.n_cl = 2 * d.int(125, 140)
        mul = d.choice([1, 1, 100, 10**6])
    m.n = n = m.n_dep + m.n_cl

    def num(lo, hi):
        val, hi = mul * d.int(lo, hi), mul * hi
        if frac and val < hi and d.bool(0.4):
            return d.choice([val + 0.5, val + 0.25, val + 0.7, val + 0.123])
        return val

    f.specs["NAME"] = "test"
    f.specs["DIMENSION"] = n
    f.specs["TYPE"] = "VRPB" if vrpb else d.choice(["CVRP", "VRPTW", "PDPTW"])
    if m.n_dep > 1 or d.bool(0.8):
        f.sections["DEPOT"] = list(range(1, m.n_dep + 1))

    # Coordinates and distances.
    m.coords = [(0, 0)] * n
    kinds = ["FULL_MATRIX", "LOWER_ROW", "FLOOR_2D", "CEIL_2D", "EUC_2D"]
    kinds.append("EXACT_2D")
    if f.rounding == "none":
        kinds = kinds[:4]
    kind = d.choice(kinds)
    if "2D" in kind or d.bool(0.7):
        half = frac and d.bool()
        m.coords = [
            tuple(
                d.int(0, 40) + (0.5 if half and d.bool() else 0)
                for _ in range(2)
            )
            for _ in range(n)
        ]
        f.sections["NODE_COORD"] = m.coords
    if "2D" in kind:
        f.specs["EDGE_WEIGHT_TYPE"] = kind

        def dist(a, b):
            val = math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2)
            if kind == "FLOOR_2D":
                return float(math.floor(val))
            if kind == "CEIL_2D":
                return float(math.ceil(val))
            if kind == "EXACT_2D":
                return float(round(val * 1000))
            return val

        m.dist = [[dist(a, b) for b in m.coords] for a in m.coords]
    else:
        f.specs["EDGE_WEIGHT_TYPE"] = "EXPLICIT"
        f.specs["EDGE_WEIGHT_FORMAT"] = kind
        m.dist = [
            [0 if i == j else num(0, 60) for j in range(n)] for i in range(n)
        ]
        if d.bool(0.05) and kind == "FULL_MATRIX" and n > 1:
            m.dist[0][1] = MAX_VALUE + d.int(0, 1)
        if kind == "LOWER_ROW":
            for i in range(n):
                for j in range(i):
                    m.dist[j][i] = m.dist[i][j]
            f.sections["EDGE_WEIGHT"] = [m.dist[i][:i] for i in range(1, n)]
        else:
            f.sections["EDGE_WEIGHT"] = m.dist

    # Vehicles.
    if pd or d.bool(0.75):
        m.n_veh = d.int(6, 40) if LARGE else d.int(1, 5)
        f.specs["VEHICLES"] = m.n_veh
    else:
        m.n_veh = m.n_cl

    # Client data.
    m.demand = m.backhaul = None
    m.dims = 1
    m.service = [0] * n
    m.windows = [(0, INT_MAX)] * n
    m.raw_windows = False
    m.release = [0] * n
    m.prize = [0] * n
    m.groups = []
    m.ships = []
    if pd:
        gen_pd(d, f, m, num)
    else:
        gen_clients(d, f, m, num, vrpb)
    gen_vehicles(d, f, m, num)
    return f, m


def window(d, num):
    early = num(0, 50)
    return early, math.ceil(early) + d.int(0, 50)


def gen_pd(d, f, m, num):
    order = d.shuffle(range(m.n_dep, m.n))
    rows = [[0, *window(d, num), 0, 0, 0] for _ in range(m.n_dep)]
    rows += [None] * m.n_cl
    pairs = [(order[i], order[i + 1]) for i in range(0, len(order), 2)]
    for p, q in pairs:
        amount = num(0, 9)
        e1, l1 = window(d, num)
        e2, l2 = window(d, num)
        rows[p] = [amount, e1, l1, num(0, 5), 0, q + 1]
        rows[q] = [-amount, e2, l2 + l1, num(0, 5), p + 1, 0]
        m.ships.append((p, q))
    m.ships.sort()
    m.rows = rows
    m.windows = [tuple(r[1:3]) for r in rows]
    m.raw_windows = True
    f.sections["PICKUP_AND_DELIVERY"] = rows


def gen_clients(d, f, m, num, vrpb):
    n, nd = m.n, m.n_dep
    if vrpb:
        line = [0] * nd
        back = [0] * nd
        for _ in range(m.n_cl):
            val = d.int(1, 9)
            is_back = d.bool(0.5)
            line.append(0 if is_back else val)
            back.append(val if is_back else 0)
        m.demand = [(v,) for v in line]
        m.backhaul = [(v,) for v in back]
        f.sections[d.choice(["DEMAND", "LINEHAUL"])] = m.demand
        f.sections["BACKHAUL"] = m.backhaul
    else:
        m.dims = d.weighted([(8, 1), (2, 2), (1, 3)])
        deliv, pick = m.dims, m.dims
        if m.dims > 1 and d.bool(0.3):
            pick = d.int(1, m.dims - 1)  # padded
        if d.bool(0.8):
            m.demand = [
                tuple(0 if i < nd else num(0, 9) for _ in range(deliv))
                for i in range(n)
            ]
            f.sections[d.choice(["DEMAND", "LINEHAUL"])] = m.demand
        if d.bool(0.35):
            m.backhaul = [
                tuple(0 if i < nd else num(0, 9) for _ in range(pick))
                for i in range(n)
            ]
            f.sections["BACKHAUL"] = m.backhaul
        m.dims = max(
            len(m.demand[0]) if m.demand else 1,
            len(m.backhaul[0]) if m.backhaul else 1,
        )
    kind = d.choice(["none", "spec", "section"])
    if kind == "spec":
        val = num(0, 9)
        f.specs["SERVICE_TIME"] = val
        m.service = [0] * nd + [val] * m.n_cl
    elif kind == "section":
        m.service = [num(0, 9) for _ in range(n)]
        f.sections["SERVICE_TIME"] = [(v,) for v in m.service]
    if d.bool():
        m.windows = [window(d, num) for _ in range(n)]
        m.raw_windows = True
        f.sections["TIME_WINDOW"] = m.windows
    if d.bool(0.35):
        m.release = [
            min(num(0, 40), late) if d.bool() else 0 for _, late in m.windows
        ]
        f.sections["RELEASE_TIME"] = [(v,) for v in m.release]
    elif d.bool(0.1):
        val = min(num(0, 40), *(late for _, late in m.windows))
        m.release = [val] * n
        f.specs["RELEASE_TIME"] = val
    if d.bool(0.35):
        m.prize = [0] * nd + [
            num(1, 30) if d.bool(0.6) else 0 for _ in range(m.n_cl)
        ]
        f.sections["PRIZE"] = [(v,) for v in m.prize]
    if d.bool(0.35):
        pool = d.shuffle(range(nd, n))
        rows = []
        while pool and (not rows or d.bool(0.6)):
            size = d.int(1, min(12 if LARGE else 3, len(pool)))
            rows.append([i + 1 for i in pool[:size]])
            pool = pool[size:]
        m.groups = [[i - 1 for i in row] for row in rows if len(row) > 1]
        f.sections["MUTUALLY_EXCLUSIVE_GROUP"] = rows


def gen_vehicles(d, f, m, num):
    nv, n, nd = m.n_veh, m.n, m.n_dep
    pool = 3 if LARGE else 2  # distinct values; vehicles share types

    def per_vehicle(make, prob=0.35):
        if prob < 1 and not d.bool(prob):
            return None
        vals = [make() for _ in range(pool)]
        return [d.choice(vals) for _ in range(nv)]

    def field(name, make, default):
        kind = d.choice(["none", "section", "spec"])
        if kind == "spec":
            val = make()
            f.specs[name] = val
            return [val] * nv, True
        if kind == "section":
            vals = per_vehicle(make, 1)
            f.sections[name] = [(v,) for v in vals]
            return vals, True
        return [default] * nv, False

    m.capacity = None
    if m.dims > 1:
        m.capacity = per_vehicle(
            lambda: tuple(num(0, 30) for _ in range(m.dims)), 1
        )
        f.sections["CAPACITY"] = m.capacity
    else:
        vals, given = field("CAPACITY", lambda: num(0, 30), INT_MAX)
        if given:
            m.capacity = [(v,) for v in vals]
    m.max_dist, m.given_dist = field(
        "VEHICLES_MAX_DISTANCE", lambda: num(0, 300), INT_MAX
    )
    m.max_dur, m.given_dur = field(
        "VEHICLES_MAX_DURATION", lambda: num(0, 300), INT_MAX
    )
    m.max_reloads, _ = field(
        "VEHICLES_MAX_RELOADS", lambda: d.int(0, 3), SIZE_MAX
    )
    m.fixed, _ = field("VEHICLES_FIXED_COST", lambda: num(0, 40), 0)
    m.unit, _ = field(
        "VEHICLES_UNIT_DISTANCE_COST", lambda: d.int(0, 5), 1
    )
    m.depot = per_vehicle(lambda: d.int(0, nd - 1)) or [0] * nv
    if any(m.depot) or d.bool(0.2):
        f.sections["VEHICLES_DEPOT"] = [(v + 1,) for v in m.depot]
    m.reloads = per_vehicle(
        lambda: tuple(d.int(0, nd - 1) for _ in range(d.small(0, 5 if LARGE else 2)))
    ) or [()] * nv
    if any(m.reloads):
        f.sections["VEHICLES_RELOAD_DEPOT"] = [
            tuple(i + 1 for i in row) for row in m.reloads
        ]
    everything = tuple(range(nd, n))
    m.allowed = [everything] * nv
    if not m.pd and d.bool(0.3):
        m.allowed = per_vehicle(
            lambda: tuple(d.subset(everything, 0.7)), 1
        )
        f.sections["VEHICLES_ALLOWED_CLIENTS"] = [
            tuple(i + 1 for i in row) for row in m.allowed
        ]


def expect(f, m):
    """What read() should give: plain description with rounded values."""
    r = ROUND[f.rounding]
    out = NS()
    out.locs = [(r(x), r(y)) for x, y in m.coords]
    dist = [[r(v) for v in row] for row in m.dist]
    if m.vrpb:
        back = [i for i in range(m.n) if m.backhaul[i][0] > 0]
        line = [i for i in range(m.n) if m.demand[i][0] > 0]
        for j in back:
            for i in list(range(m.n_dep)):
                dist[i][j] = MAX_VALUE
            for i in line:
                dist[j][i] = MAX_VALUE

    def matrix(allowed):
        ok = set(range(m.n_dep)) | set(allowed)
        return [
            [
                0
                if i == j
                else (dist[i][j] if i in ok and j in ok else MAX_VALUE)
                for j in range(m.n)
            ]
            for i in range(m.n)
        ]

    out.windows = [
        (r(a), r(b)) if m.raw_windows else (a, b) for a, b in m.windows
    ]
    group_of = {c: g for g, row in enumerate(m.groups) for c in row}
    zero = (0,) * m.dims

    def padded(vals):
        return list(vals) + [0] * (m.dims - len(vals))

    out.clients = []
    if not m.pd:
        for i in range(m.n_dep, m.n):
            grp = group_of.get(i)
            out.clients.append(
                {
                    "location": i,
                    "delivery": padded(
                        [r(v) for v in m.demand[i]] if m.demand else zero
                    ),
                    "pickup": padded(
                        [r(v) for v in m.backhaul[i]] if m.backhaul else zero
                    ),
                    "service_duration": r(m.service[i]),
                    "tw_early": out.windows[i][0],
                    "tw_late": out.windows[i][1],
                    "release_time": r(m.release[i]),
                    "prize": r(m.prize[i]),
                    "required": m.prize[i] == 0 and grp is None,
                    "group": grp,
                }
            )
    out.groups = [sorted(i - m.n_dep for i in row) for row in m.groups]
    out.shipments = []
    for p, q in m.ships:
        a, b = m.rows[p], m.rows[q]
        out.shipments.append(
            {
                "pickup": (p, r(a[1]), r(a[2]), r(a[3])),
                "delivery": (q, r(b[1]), r(b[2]), r(b[3])),
                "amount": [r(a[0])],
                "prize": 0,
                "required": True,
            }
        )
    out.vehicles = []
    for v in range(m.n_veh):
        cap = [r(x) for x in m.capacity[v]] if m.capacity else [INT_MAX]
        out.vehicles.append(
            {
                "capacity": cap,
                "start_depot": m.depot[v],
                "end_depot": m.depot[v],
                "fixed_cost": r(m.fixed[v]),
                "tw_early": out.windows[m.depot[v]][0],
                "tw_late": out.windows[m.depot[v]][1],
                "shift_duration": r(m.max_dur[v]) if m.given_dur else INT_MAX,
                "max_distance": r(m.max_dist[v]) if m.given_dist else INT_MAX,
                "unit_distance_cost": m.unit[v],
                "unit_duration_cost": 0,
                "max_overtime": 0,
                "unit_overtime_cost": 0,
                "start_late": out.windows[m.depot[v]][1],
                "initial_load": [0] * len(cap),
                "reload_depots": list(m.reloads[v]),
                "max_reloads": m.max_reloads[v],
            }
        )
    out.matrices = [matrix(a) for a in m.allowed]
    return out
