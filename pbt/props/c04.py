"""C04: exactly the structurally valid routes and solutions are accepted."""

import re

import ref
from engine import Sub
from gen import (
    acts_of,
    build,
    build_route,
    gen_route,
    gen_routes,
    gen_spec,
    giant,
    large,
    routes_of,
    to_act,
)
from pyvrp import Route, Solution

RULE = (
    "A case is a random instance and an activity sequence (or list of routes) "
    "that is either generated valid and then mutated zero or more times, or "
    "generated freely. Non-trivial: the sequence is non-empty; both accepted "
    "and rejected cases count and are reported separately."
)


def mutate_acts(d, acts, spec, other_idx=0.05):
    acts = list(acts)
    kind = d.weighted(
        [
            (2, "swap"),
            (2, "drop"),
            (2, "dup"),
            (2, "depot"),
            (1, "bad"),
            (2, "move"),
        ]
    )
    if kind == "swap" and len(acts) > 1:
        i, j = d.int(0, len(acts) - 1), d.int(0, len(acts) - 1)
        acts[i], acts[j] = acts[j], acts[i]
    elif kind == "drop" and acts:
        del acts[d.int(0, len(acts) - 1)]
    elif kind == "dup" and acts:
        act = acts[d.int(0, len(acts) - 1)]
        acts.insert(d.int(0, len(acts)), act)
    elif kind == "depot":
        dep = ("D", d.int(0, len(spec.depots) - 1))
        acts.insert(d.int(0, len(acts)), dep)
    elif kind == "bad":
        k = d.choice("CDPX")
        size = {
            "C": len(spec.clients),
            "D": len(spec.depots),
            "P": len(spec.shipments),
            "X": len(spec.shipments),
        }[k]
        acts.insert(d.int(0, len(acts)), (k, size + d.small(0, 70)))
    elif kind == "move" and acts:
        act = acts.pop(d.int(0, len(acts) - 1))
        acts.insert(d.int(0, len(acts)), act)
    return acts


def free_acts(d, spec):
    pool = [("C", i) for i in range(len(spec.clients))]
    pool += [("D", i) for i in range(len(spec.depots))]
    pool += [("P", i) for i in range(len(spec.shipments))]
    pool += [("X", i) for i in range(len(spec.shipments))]
    return [d.choice(pool) for _ in range(d.int(0, 6))]


def routes_iff(d, ctx):
    spec = gen_spec(d, max_clients=4, max_ships=3, forbid=("huge",))
    if d.bool(0.25):
        vt_idx, acts = d.int(0, len(spec.vtypes) - 1), free_acts(d, spec)
    else:
        vt_idx, acts = gen_route(d, spec)
        for _ in range(d.int(0, 2)):
            acts = mutate_acts(d, acts, spec)
    errs = ref.route_errors(spec, vt_idx, acts)
    ctx.note(spec=spec, vehicle_type=vt_idx, acts=acts, errors=errs)
    data = build(spec)
    if errs:
        ctx.raises(f"route with {errs}", build_route, data, vt_idx, acts)
        ctx.label("rejected", *{re.sub("[0-9]+", "#", e) for e in errs})
    else:
        route = build_route(data, vt_idx, acts)
        ctx.eq("activities", acts_of(route), acts)
        ctx.label("accepted")
    if all(k == "C" for k, _ in acts):
        idcs = [i for _, i in acts]
        if errs:
            ctx.raises("route from indices", Route, data, idcs, vt_idx)
        else:
            ctx.eq(
                "activities from indices",
                acts_of(Route(data, idcs, vt_idx)),
                acts,
            )
    ctx.nontrivial = len(acts) > 0


def solutions_iff(d, ctx):
    spec = gen_spec(d, max_clients=5, max_ships=2, forbid=("huge",), max_num=2)
    routes = gen_routes(d, spec, p_visit=0.8)
    for _ in range(d.int(0, 2)):
        kind = d.weighted(
            [
                (2, "dup"),
                (2, "add"),
                (1, "copy"),
                (1, "empty"),
                (2, "vehicle"),
                (2, "drop"),
                (1, "reload"),
            ]
        )
        idx = d.int(0, max(len(routes) - 1, 0))
        if kind == "dup" and routes:
            src = d.int(0, len(routes) - 1)
            cl = [a for a in routes[src][1] if a[0] == "C"]
            if cl:
                vt, acts = routes[idx]
                pos = d.int(0, len(acts))
                routes[idx] = (vt, acts[:pos] + [d.choice(cl)] + acts[pos:])
        elif kind == "add" and routes and spec.clients:
            vt, acts = routes[idx]
            act = ("C", d.int(0, len(spec.clients) - 1))
            pos = d.int(0, len(acts))
            routes[idx] = (vt, acts[:pos] + [act] + acts[pos:])
        elif kind == "copy" and routes:
            routes.append(routes[idx])
        elif kind == "empty":
            routes.append((d.int(0, len(spec.vtypes) - 1), []))
        elif kind == "reload":
            vt = d.int(0, len(spec.vtypes) - 1)
            if ref.max_trips(spec.vtypes[vt]) > 1:
                routes.append((vt, [("D", spec.vtypes[vt].reloads[0])]))
        elif kind == "vehicle" and routes:
            acts = routes[idx][1]
            routes[idx] = (d.int(0, len(spec.vtypes) - 1), acts)
        elif kind == "drop" and routes:
            del routes[idx]
    routes = [r for r in routes if not ref.route_errors(spec, *r)]
    errs = ref.solution_errors(spec, routes)
    ctx.note(spec=spec, routes=routes, errors=errs)
    data = build(spec)
    objs = [build_route(data, v, a) for v, a in routes]
    if errs:
        ctx.raises(f"solution with {errs}", Solution, data, objs)
        ctx.label("rejected", *{re.sub("[0-9]+", "#", e) for e in errs})
    else:
        sol = Solution(data, objs)
        ctx.eq("routes", routes_of(sol), routes)
        ctx.label("accepted")
    if all(v == 0 and all(k == "C" for k, _ in a) for v, a in routes):
        visits = [[i for _, i in a] for _, a in routes]
        if errs:
            ctx.raises("solution from indices", Solution, data, visits)
        else:
            ctx.eq(
                "routes from indices",
                routes_of(Solution(data, visits)),
                routes,
            )
    ctx.nontrivial = len(routes) > 0


SUBS = [
    Sub("routes_iff", routes_iff, 90000),
    Sub("solutions_iff", solutions_iff, 80000),
    Sub("large_routes_iff", large(routes_iff), 2000),
    Sub("giant_routes_iff", giant(routes_iff), 30, 300),
    Sub("large_solutions_iff", large(solutions_iff), 2000),
    Sub("giant_solutions_iff", giant(solutions_iff), 30, 300),
]
assert to_act
