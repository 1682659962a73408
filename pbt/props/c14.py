"""C14: granular neighbourhoods."""

from engine import Sub
from gen import build, from_act, gen_spec, giant, large, to_act
from pyvrp.search import NeighbourhoodParams, compute_neighbours
from sutil import all_keys, all_visits

RULE = (
    "A case is a random instance with clients, groups and shipments and "
    "random neighbourhood parameters. Non-trivial: some activity has more "
    "candidates than neighbours, or a group or shipment exists."
)

LAST = 1.7976931348623157e308


def stop_of(spec, act):
    """(location, early, late, service)"""
    kind, idx = act
    if kind == "C":
        c = spec.clients[idx]
        return c.loc, c.early, c.late, c.service
    s = spec.shipments[idx]
    if kind == "P":
        return s.p_loc, s.p_early, s.p_late, s.p_service
    return s.d_loc, s.d_early, s.d_late, s.d_service


def arc(spec, vt, frm, to, weight):
    loc, early, late, service = stop_of(spec, frm)
    to_loc, to_early, to_late, _ = stop_of(spec, to)
    dist = spec.dist[vt.profile][loc][to_loc]
    dur = spec.dur[vt.profile][loc][to_loc]
    if early + service + dur > to_late:
        return LAST  # cannot be in time
    wait = max(to_early - dur - service - late, 0)
    cost = vt.unit_dist * dist + vt.unit_dur * (dur + wait)
    return cost + weight * wait


def proximity(spec, frm, to, weight, symmetric):
    if frm[0] == to[0] == "C":
        group = spec.clients[frm[1]].group
        if group is not None and group == spec.clients[to[1]].group:
            return LAST
    sources = [frm] if frm[0] == "C" else [frm, ("X", frm[1])]
    out = LAST
    for vt in spec.vtypes:
        for src in sources:
            out = min(out, arc(spec, vt, src, to, weight))
            if symmetric:
                out = min(out, arc(spec, vt, to, src, weight))
    return out


def check(d, ctx):
    spec = gen_spec(d, max_clients=8, min_acts=d.weighted([(8, 2), (1, 0)]))
    data = build(spec)
    num = d.weighted([(4, d.int(1, 4)), (2, d.int(1, 12)), (1, 50)])
    weight = d.weighted([(2, 0.2), (1, 0), (1, 1), (1, 12.5), (1, 0.03125)])
    symmetric = d.bool()
    params = NeighbourhoodParams(weight, num, symmetric)
    ctx.eq("weight", params.weight_wait_time, weight)
    ctx.eq("number", params.num_neighbours, num)
    ctx.eq("symmetric", params.symmetric_proximity, symmetric)
    ctx.note(spec=spec, params=[weight, num, symmetric])

    got = compute_neighbours(data, params)
    got = {from_act(k): [from_act(v) for v in vs] for k, vs in got.items()}
    keys = all_keys(spec)
    ctx.eq("keys", sorted(got), sorted(keys))
    most = max(len(spec.clients) - 1, 0) + max(2 * len(spec.shipments) - 2, 0)
    size = min(num, most)
    for key in keys:
        mine = got[key]
        cand = [v for v in all_visits(spec) if v not in (key,)]
        if key[0] == "P":
            cand.remove(("X", key[1]))
        ctx.eq(f"{key}: number of neighbours", len(mine), size)
        ctx.eq(f"{key}: duplicates", len(set(mine)), size)
        ctx.ok(
            set(mine) <= set(cand), lambda: f"{key}: {mine} are not candidates"
        )
        prox = {
            v: proximity(spec, key, v, weight, symmetric) for v in cand
        }
        if size < len(cand) or spec.groups or spec.shipments:
            ctx.nontrivial = True
        vals = [prox[v] for v in mine]
        for a, b in zip(vals, vals[1:]):
            ctx.ok(
                a <= b + 1e-9 * abs(b),
                lambda: f"{key}: {mine} with {vals} not nearest first",
            )
        rest = [prox[v] for v in cand if v not in set(mine)]
        if rest and vals:
            ctx.ok(
                max(vals) <= min(rest) + 1e-9 * abs(min(rest)),
                lambda: f"{key}: {mine} with {vals}, but there is {min(rest)}",
            )
        if any(v == LAST for v in prox.values()):
            ctx.label("out of reach")
        if any(
            v[0] == "C" and key[0] == "C" and prox[v] == LAST for v in mine
        ):
            ctx.label("last resort")

    again = compute_neighbours(build(spec), params)
    again = {from_act(k): [from_act(v) for v in vs] for k, vs in again.items()}
    ctx.eq("the same again", again, got)
    if d.bool(0.2):
        plain = NeighbourhoodParams()
        ctx.ok(
            compute_neighbours(data) == compute_neighbours(data, plain),
            "default parameters",
        )


def params(d, ctx):
    def one():
        return (
            d.choice([0.2, 0.0, 1.0, 3.5]),
            d.choice([50, 1, 2, 100]),
            d.bool(),
        )

    a, b = one(), one()
    if d.bool(0.7):
        b = list(a)
        i = d.int(0, 2)
        b[i] = one()[i]
        b = tuple(b)
    pa, pb = NeighbourhoodParams(*a), NeighbourhoodParams(*b)
    ctx.eq("equal", pa == pb, a == b)
    ctx.eq("differ", pa != pb, a != b)
    ctx.eq(
        "defaults",
        (
            NeighbourhoodParams().weight_wait_time,
            NeighbourhoodParams().num_neighbours,
            NeighbourhoodParams().symmetric_proximity,
        ),
        (0.2, 50, True),
    )
    ctx.raises("no neighbours", NeighbourhoodParams, a[0], 0, a[2])
    ctx.nontrivial = True
    ctx.note(a=a, b=b)


SUBS = [
    Sub("neighbours", check, 12000),
    Sub("params", params, 300),
    Sub("large_neighbours", large(check), 150),
    Sub("giant_neighbours", giant(check, 300), 10, 100),
]
