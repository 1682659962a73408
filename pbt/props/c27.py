"""C27: objects stay valid after the objects they were obtained from."""

import gc
import pickle

import numpy as np
import pyvrp
from engine import Discard, Sub
from gen import (
    build,
    build_ce,
    build_client,
    build_solution,
    canon,
    from_act,
    gen_penalties,
    gen_routes,
    gen_spec,
    routes_of,
    to_act,
)
from pyvrp import RandomNumberGenerator
from pyvrp.search import (
    NeighbourhoodParams,
    PerturbationManager,
    PerturbationParams,
    compute_neighbours,
)
from pyvrp.search import LocalSearch as PyLocalSearch
from pyvrp.search import _search as S
from props.c10 import BINARY, UNARY
from snap import diff, snap
from sutil import no_late_release, pattern

RULE = (
    "A case is a random chain of accessor calls, iterators, search structures "
    "or search objects whose parents are dropped, after which unrelated "
    "objects are created and the survivors are read again. Non-trivial: at "
    "least one object that is not a plain number or text outlived the object "
    "it was obtained from. Freed memory is overwritten by the allocator."
)

PLAIN = (int, float, bool, str, bytes, type(None))
NAMES = sorted(UNARY) + sorted(BINARY)


def churn(d, seed=0):
    """Drops garbage and reuses freed memory for something else."""
    gc.collect()
    junk = []
    for idx in range(6):
        junk.append(np.full((3 + idx, 3 + idx), 77 + seed, dtype=np.int64))
        junk.append(bytearray(b"\x5a" * (24 * (idx + 1))))
    other = JUNK[seed % len(JUNK)]
    data = pickle.loads(other[0])
    sol = pickle.loads(other[1])
    junk += [data.clients(), data.vehicle_types(), sol.routes()]
    ss = S.Solution(data)
    ss.load(sol)
    return [junk, data, sol, ss]


def _junk():
    out = []
    for num in (1, 3, 6):
        mat = np.full((num + 1, num + 1), 9, dtype=np.int64)
        np.fill_diagonal(mat, 0)
        data = pyvrp.ProblemData(
            locations=[pyvrp.Location(7, 7, name="other")] * (num + 1),
            clients=[
                pyvrp.Client(i + 1, [9], [9], 9, 9, 99, 9, 9, name="junk")
                for i in range(num)
            ],
            depots=[pyvrp.Depot(0, name="junk")],
            vehicle_types=[pyvrp.VehicleType(num, [9], name="junk")],
            distance_matrices=[mat],
            duration_matrices=[mat],
        )
        sol = pyvrp.Solution(data, [list(range(num))])
        out.append((pickle.dumps(data), pickle.dumps(sol)))
    return out


JUNK = _junk()


# --- plain objects ----------------------------------------------------------


def children(obj):
    """Thunks of all objects that can be obtained from the given object."""
    out = []
    if isinstance(obj, np.ndarray):
        if obj.ndim == 2 and len(obj):
            out.append(("[0]", lambda: obj[len(obj) - 1]))
            out.append((".T", lambda: obj.T))
        return out
    if isinstance(obj, (list, tuple)):
        for idx in range(len(obj)):
            out.append((f"[{idx}]", lambda idx=idx: obj[idx]))
        return out
    if not type(obj).__module__.startswith("pyvrp"):
        return out
    cls = type(obj)
    skip = {"replace", "make_random", "reset", "set", "state"}
    for name in dir(cls):
        if name.startswith("_") or name in skip:
            continue
        attr = getattr(cls, name)
        if isinstance(attr, property):
            out.append((f".{name}", lambda name=name: getattr(obj, name)))
            continue
        if not callable(attr) or isinstance(attr, type):
            continue
        out.append((f".{name}()", lambda name=name: getattr(obj, name)()))
    if isinstance(obj, pyvrp.ProblemData):
        for name, num in (
            ("location", obj.num_locations),
            ("client", obj.num_clients),
            ("depot", obj.num_depots),
            ("group", obj.num_groups),
            ("shipment", obj.num_shipments),
            ("vehicle_type", obj.num_vehicle_types),
            ("distance_matrix", obj.num_profiles),
            ("duration_matrix", obj.num_profiles),
        ):
            for i in range(num):
                out.append(
                    (
                        f".{name}({i})",
                        lambda name=name, i=i: getattr(obj, name)(i),
                    )
                )
    if isinstance(obj, pyvrp.Route):
        for i in range(-1, len(obj)):
            out.append((f"[{i}]", lambda i=i: obj[i]))
        out.append((".iter", lambda: list(obj)))
    if isinstance(obj, pyvrp.ClientGroup):
        out.append((".iter", lambda: list(obj)))
    return out


def chain(d, obj, path):
    """Follows random accessors from obj as long as objects come out."""
    last = None
    for _ in range(d.int(1, 5)):
        kids = children(obj)
        if not kids:
            break
        good = []
        for name, thunk in kids:
            try:
                val = thunk()
            except TypeError:
                continue
            if not isinstance(val, PLAIN):
                # Not kept, since objects that exist already are not created
                # again by another accessor.
                good.append((name, thunk))
            elif isinstance(val, str):
                last = (path + name, val)
        kids = val = None
        if not good:
            break
        name, thunk = d.choice(good)
        obj = thunk()
        good = thunk = None
        path += name
    if last is not None and d.bool(0.2):
        return last
    return path, obj


ROOTS = ["data", "solution", "route", "client", "vehicle", "pickled", "copy"]


def make_root(d, kind):
    spec = gen_spec(d, max_clients=4, max_ships=2, force=("names",))
    data = build(spec)
    if kind == "data":
        return data
    if kind == "client" and spec.clients:
        return build_client(d.choice(spec.clients))
    if kind == "vehicle":
        return d.choice(data.vehicle_types()).replace(name="new name" * 4)
    routes = gen_routes(d, spec, any_depot=True)
    sol = build_solution(data, routes)
    if kind == "route" and routes:
        return pyvrp.Route(
            data, [to_act(a) for a in routes[0][1]], routes[0][0]
        )
    if kind == "pickled":
        return pickle.loads(pickle.dumps(d.choice([data, sol])))
    if kind == "copy":
        return sol.__deepcopy__({})
    return sol


def accessors(d, ctx):
    kept = []
    for _ in range(d.int(1, 3)):
        kind = d.choice(ROOTS)
        root = make_root(d, kind)
        for _ in range(d.int(1, 3)):
            path, obj = chain(d, root, kind)
            kept.append((path, obj, snap(obj)))
            obj = None
        root = None
    if all(isinstance(obj, PLAIN) for _, obj, _ in kept):
        raise Discard
    ctx.label(*(type(obj).__name__ for _, obj, _ in kept))
    ctx.note(chains=[path for path, _, _ in kept])
    ctx.nontrivial = True
    ballast = churn(d, d.int(0, 2))
    order = d.shuffle(range(len(kept)))
    while order:
        path, obj, want = kept[order.pop()]
        got = snap(obj)
        ctx.eq(f"{path} after dropping its parents", diff(want, got), None)
        if d.bool(0.5):
            # What can be obtained now must stay valid as well.
            path2, kid = chain(d, obj, path)
            want = snap(kid)
            obj = None
            ballast = churn(d, d.int(0, 2))
            ctx.eq(f"{path2} later", diff(want, snap(kid)), None)
    del ballast


# --- iterators --------------------------------------------------------------


def iterators(d, ctx):
    spec = gen_spec(d, max_clients=5, max_ships=2, min_acts=1)
    if not spec.clients and not spec.shipments:
        raise Discard
    data = build(spec)
    routes = gen_routes(d, spec, p_visit=0.95)
    kind = d.choice(["route", "search", "group"])
    if kind == "group":
        members = [
            d.int(0, 10**6) for _ in range(d.int(1, 12))
        ]
        members = list(dict.fromkeys(members))
        want = list(members)
        it = iter(pyvrp.ClientGroup(members))
    elif not routes:
        raise Discard
    elif kind == "route":
        idx = d.int(0, len(routes) - 1)
        where = d.choice(["own", "solution"])
        if where == "own":
            rt = pyvrp.Route(
                data, [to_act(a) for a in routes[idx][1]], routes[idx][0]
            )
        else:
            rt = build_solution(data, routes).routes()[idx]
        want = [from_act(a) for a in rt]
        it = iter(rt)
        rt = None
    else:
        ss = S.Solution(data)
        ss.load(build_solution(data, routes))
        rt = d.choice([r for r in ss.routes if len(r) > 2] or ss.routes)
        want = [from_act(n.activity) for n in rt]
        it = iter(rt)
        rt = ss = None
    data = None
    got = []
    skip = d.int(0, len(want))
    for _ in range(skip):
        got.append(next(it))
    ballast = churn(d, d.int(0, 2))
    got += list(it)
    it = None
    more = churn(d, d.int(0, 2))
    if kind == "route":
        got = [from_act(a) for a in got]
    elif kind == "search":
        got = [from_act(n.activity) for n in got]
    ctx.label(kind)
    ctx.note(kind=kind, want=want, consumed_before=skip)
    ctx.eq(f"items of a {kind} iterator", got, want)
    del ballast, more
    ctx.nontrivial = True


# --- search structures ------------------------------------------------------


def read_node(node):
    out = [
        str(node),
        from_act(node.activity),
        node.pos,
        node.trip,
        node.is_depot(),
    ]
    rt = node.route
    out.append(None if rt is None else read_route(rt))
    return out


def read_route(rt):
    out = [str(rt), [from_act(n.activity) for n in rt]]
    out += [list(rt.capacity()), list(rt.load()), list(rt.excess_load())]
    out += [rt.distance(), rt.duration(), rt.time_warp(), rt.vehicle_type]
    out += [rt.distance_cost(), rt.duration_cost(), rt.excess_distance()]
    out += [rt.num_clients(), rt.num_trips(), rt.fixed_vehicle_cost()]
    for i in range(len(rt)):
        out.append(
            (rt.dist_at(i), rt.duration_at(i).duration(), rt[i].pos)
        )
    out.append(rt.dist_before(len(rt) - 1))
    out.append(rt.duration_after(0).duration())
    return out


def read_any(obj):
    if isinstance(obj, S.Node):
        return read_node(obj)
    if isinstance(obj, S.Route):
        return read_route(obj)
    if isinstance(obj, S.Solution):
        return [read_route(r) for r in obj.routes]
    if isinstance(obj, list):
        return [read_any(x) for x in obj]
    return snap(obj)


def structures(d, ctx):
    spec = gen_spec(d, max_clients=5, max_ships=2, min_acts=1)
    no_late_release(spec)
    data = build(spec)
    kept = []
    for _ in range(d.int(1, 3)):
        routes = gen_routes(d, spec, p_visit=0.95)
        plain = build_solution(data, routes)
        ss = S.Solution(data)
        ss.load(plain)
        plain = None
        for _ in range(d.int(1, 3)):
            kind = d.choice(
                ["ss", "routes", "route", "node", "client", "item", "via",
                 "lists"]
            )
            rt = d.choice(ss.routes)
            if kind == "ss":
                obj = ss
            elif kind == "routes":
                obj = ss.routes
            elif kind == "route":
                obj = rt
            elif kind == "node":
                obj = rt[d.int(0, len(rt) - 1)]
            elif kind == "client":
                nodes = list(ss.clients) + [n for p in ss.shipments for n in p]
                if not nodes:
                    continue
                obj = d.choice(nodes)
            elif kind == "item":
                acts = [to_act(a) for _, r in routes for a in r if a[0] != "D"]
                if not acts:
                    continue
                obj = ss[d.choice(acts)]
            elif kind == "via":
                obj = rt[d.int(0, len(rt) - 1)].route
            else:
                obj = [rt.capacity(), rt.load(), rt.excess_load()]
            kept.append((kind, obj, read_any(obj)))
            ctx.label(kind)
            obj = None
        rt = ss = None
    if not kept:
        raise Discard
    data = None
    ctx.nontrivial = True
    ctx.note(kinds=[k for k, _, _ in kept])
    ballast = churn(d, d.int(0, 2))
    order = d.shuffle(range(len(kept)))
    for n, i in enumerate(order):
        kind, obj, want = kept[i]
        got = read_any(obj)
        ctx.eq(f"{kind} of a dropped search solution", got, want)
        kept[i] = obj = None
        if n == 0:
            ballast = churn(d, d.int(0, 2))
    del ballast


def loose(d, ctx):
    """Routes and nodes put together by hand, references dropped at random."""
    spec = gen_spec(d, max_clients=5, max_ships=2, min_acts=1)
    no_late_release(spec)
    data = build(spec)
    vt, acts = None, []
    for vt, acts in gen_routes(d, spec, p_visit=0.95):
        break
    if not acts:
        raise Discard
    rt = S.Route(data, vt)
    data = None
    nodes = []
    keep_nodes = d.bool(0.5)
    order = []
    ballast = []
    for act in acts:
        node = S.Node(to_act(act))
        if d.bool(0.5):
            rt.append(node)
            order.append(act)
        else:
            pos = d.int(0, len(order))
            rt.insert(pos + 1, node)
            order.insert(pos, act)
        if keep_nodes and act[0] != "D":  # routes copy reload depots
            nodes.append((act, node))
        node = None
        if d.bool(0.2):
            ballast.append(churn(d, d.int(0, 2)))
    rt.update()
    drop = None
    if d.bool(0.3):
        # Removed nodes do not belong to the route any more.
        pos = d.int(0, len(order) - 1)
        drop = order.pop(pos)
        del rt[pos + 1]
        rt.update()
    want = read_route(rt)
    ctx.note(acts=acts, order=order, keep_nodes=keep_nodes, dropped=drop)
    ctx.eq("activities", [from_act(n.activity) for n in rt][1:-1], order)
    if keep_nodes and d.bool(0.7):
        rt = None
    ballast.append(churn(d, d.int(0, 2)))
    if rt is not None:
        ctx.eq("route without other references", read_route(rt), want)
        if d.bool(0.3):
            rt.clear()
            order = []
            rt.update()
            want = read_route(rt)
            ctx.eq("cleared length", len(rt), 2)
            rt = None
    for act, node in nodes:
        ctx.eq("node's activity", from_act(node.activity), act)
        if act in order:
            ctx.eq("node's position", node.pos, order.index(act) + 1)
            ctx.eq("node's route", read_route(node.route), want)
        else:
            ctx.eq("removed node's route", node.route, None)
        ballast.append(churn(d, d.int(0, 2)))
    ctx.label("nodes" if keep_nodes else "route")
    ctx.nontrivial = True


# --- search objects ---------------------------------------------------------


def search(d, ctx):
    """A local search whose ingredients are all dropped behaves the same."""
    spec = gen_spec(d, max_clients=5, max_ships=2, min_acts=1)
    no_late_release(spec)
    pen = gen_penalties(d, spec)
    routes = gen_routes(d, spec, p_visit=0.9)
    names = [n for n in NAMES if d.bool(0.4)]
    seed = d.int(1, 1000)
    lo = d.int(1, 3)
    hi = lo + d.int(0, 3)
    wrap = d.bool(0.5)
    plan = [d.bool(0.3) for _ in range(d.int(1, 3))]
    when = d.choice(["all", "some"])
    keep_op = d.bool(0.3)

    def assemble(hold):
        data = build(spec)
        pm = PerturbationManager(PerturbationParams(lo, hi))
        neigh = compute_neighbours(data, NeighbourhoodParams())
        rng = RandomNumberGenerator(seed)
        if wrap:
            ls = PyLocalSearch(data, rng, neigh, pm)
        else:
            ls = S.LocalSearch(data, neigh, pm)
            ls.shuffle(rng)
        ops = []
        for name in names:
            cls = getattr(S, name)
            if cls.supports(data):
                op = cls(data)
                ls.add_operator(op)
                ops.append(op)
                op = None
        sol = build_solution(data, routes)
        ce = build_ce(pen)
        if hold:
            return ls, sol, ce, [data, pm, neigh, rng, ops]
        return ls, sol, ce, None

    def run(ls, sol, ce, messy):
        out = []
        ballast = []
        for idx, flag in enumerate(plan):
            if messy and (when == "all" or idx == 0):
                ballast.append(churn(d, idx))
            sol = ls(sol, ce, flag)
            out.append((routes_of(sol), snap(sol)))
            native = ls._ls if hasattr(ls, "_ls") else ls
            if messy:
                ballast.append(churn(d, idx + 1))
            stats = ls.statistics
            out.append((stats.num_moves, stats.num_improving))
            out.append(
                {
                    str(k): [str(v) for v in vs]
                    for k, vs in native.neighbours.items()
                }
            )
        out += ops_of(ls)
        return out

    def ops_of(ls):
        return [
            (
                type(op).__name__,
                op.statistics.num_evaluations,
                op.statistics.num_applications,
            )
            for op in list(ls.unary_operators) + list(ls.binary_operators)
        ]

    ls, sol, ce, held = assemble(True)
    want = run(ls, sol, ce, False)
    del held
    ls, sol, ce, _ = assemble(False)
    got = run(ls, sol, ce, True)
    ctx.note(spec=spec.to_json(), routes=routes, names=names, plan=plan)
    for idx, (a, b) in enumerate(zip(want, got)):
        ctx.eq(f"result {idx} of a search without other references", b, a)
    ctx.eq("number of results", len(got), len(want))
    # Operators and statistics taken from the search outlive it.
    ops = list(ls.unary_operators) + list(ls.binary_operators)
    if ops:
        before = ops_of(ls)
        op = d.choice(ops)
        idx = ops.index(op)
        stats = op.statistics
        ls = ops = None
        if not keep_op:
            op = None
        ballast = churn(d, 1)
        ctx.eq("evaluations", stats.num_evaluations, before[idx][1])
        ctx.eq("applications", stats.num_applications, before[idx][2])
        del ballast
    ctx.label("wrapped" if wrap else "native", f"{len(names) > 0}")
    ctx.nontrivial = True


def operators(d, ctx):
    """Single operators and search spaces whose instance is dropped."""
    spec = gen_spec(d, max_clients=5, max_ships=2, min_acts=1)
    no_late_release(spec)
    pen = gen_penalties(d, spec)
    routes = gen_routes(d, spec, p_visit=0.9)
    name = d.choice(NAMES)

    def run(hold):
        data = build(spec)
        if not getattr(S, name).supports(data):
            raise Discard
        op = getattr(S, name)(data)
        # A second, equal instance, so that nothing but the operator could
        # keep the first one alive.
        other = build(spec)
        neigh = compute_neighbours(data, NeighbourhoodParams())
        space = S.SearchSpace(data, neigh)
        ss = S.Solution(other)
        ss.load(build_solution(other, routes))
        ce = build_ce(pen)
        held = [data, other] if hold else []
        data = other = None
        ballast = [] if hold else churn(None, 1)
        if hasattr(op, "init"):
            op.init(ss)
        out = []
        nodes = list(ss.clients) + [pair[0] for pair in ss.shipments]
        for U in nodes:
            if name in UNARY:
                out.append(op.evaluate(U, ce))
                continue
            cand = [ss[v] for v in space.neighbours_of(U.activity)]
            for V in cand + [r[0] for r in ss.routes]:
                if V.route is not None:
                    out.append(op.evaluate(U, V, ce))
        out.append([str(a) for a in space.activity_order()])
        out.append(pattern(ss))
        del held, ballast
        return out, op

    (want, _), (got, op) = run(True), run(False)
    ctx.note(spec=spec.to_json(), routes=routes, op=name)
    ctx.eq(f"evaluations by {name} without its instance", got, want)
    stats = op.statistics
    num = stats.num_evaluations
    op = None
    ballast = churn(d, 2)
    ctx.eq("statistics of a dropped operator", stats.num_evaluations, num)
    del ballast
    ctx.label(name)
    ctx.nontrivial = bool(want)


def results(d, ctx):
    """Solutions and results of a search outlive everything else."""
    spec = gen_spec(d, max_clients=4, max_ships=2, min_acts=1)
    no_late_release(spec)
    routes = gen_routes(d, spec)

    def run(data):
        res = pyvrp.solve(
            data,
            stop=pyvrp.stop.MaxIterations(d.int(1, 8)),
            seed=d.int(1, 100),
            collect_stats=True,
            display=False,
        )
        return res.best, res.stats, res

    data = build(spec)
    best, stats, res = run(data)
    want = [snap(best), canon(routes_of(best)), list(stats)]
    if d.bool(0.5):
        res = None
    data = None
    ballast = churn(d, d.int(0, 2))
    got = [snap(best), canon(routes_of(best)), list(stats)]
    ctx.eq("best solution", diff(want[0], got[0]), None)
    ctx.eq("routes", got[1], want[1])
    ctx.ok(got[2] == want[2], "statistics changed")
    if res is not None:
        ctx.ok(res.best == best, "result with another solution")
    del ballast, routes
    ctx.note(spec=spec.to_json())
    ctx.nontrivial = True


SUBS = [
    Sub("accessors", accessors, 12000, 100000),
    Sub("iterators", iterators, 6000, 50000),
    Sub("structures", structures, 6000, 50000),
    Sub("loose", loose, 6000, 50000),
    Sub("search", search, 1500, 15000),
    Sub("operators", operators, 5000, 40000),
    Sub("results", results, 500, 5000),
]

# Keeps the collector from scanning what was there from the start.
gc.collect()
gc.freeze()
