"""C08: duration and load segments."""

from engine import Sub
from pyvrp._pyvrp import DurationSegment, LoadSegment
from ref import INT_MAX, Timeline

RULE = (
    "A case is a random sequence of activities (windows, service, release "
    "times, loads), optionally split into trips, concatenated in a random "
    "bracketing and compared with a direct simulation of the sequence. "
    "Non-trivial: the sequence has at least two activities."
)


def gen_leaves(d, num, release=True):
    scale = d.choice([10, 100, 10**6, 4])
    p_open = d.choice([0.2, 0.5, 0.9, 0.0])
    leaves, edges = [], []
    for _ in range(num):
        early, late = 0, INT_MAX
        if not d.bool(p_open):
            early = d.int(0, 4 * scale)
            if d.bool(0.85):
                late = early + d.int(0, 2 * scale)
            if d.bool(0.2):
                early = 0
        rel = d.int(0, 5 * scale) if release and d.bool(0.4) else 0
        leaves.append((early, late, d.int(0, scale), min(rel, late)))
        edges.append(d.int(0, scale) if d.bool(0.85) else 0)
    return leaves, edges


def bracket(d, segs, edges, merge):
    """Merges in random order; edges[i] lies before segs[i]."""
    segs, edges = list(segs), list(edges)
    style = d.choice(["left", "right", "random"])
    while len(segs) > 1:
        if style == "left":
            i = 0
        elif style == "right":
            i = len(segs) - 2
        else:
            i = d.int(0, len(segs) - 2)
        segs[i] = merge(edges[i + 1], segs[i], segs[i + 1])
        del segs[i + 1], edges[i + 1]
    return segs[0]


def steps_of(leaves, edges, skip_first=True):
    steps = []
    for i, ((early, late, service, _), edge) in enumerate(zip(leaves, edges)):
        if i or not skip_first:
            steps.append(("delay", edge))
        steps.append(("window", early, late))
        steps.append(("delay", service))
    return steps


def timeline(steps, release):
    tl = Timeline.__new__(Timeline)
    tl.steps, tl.release = steps, release
    return tl


def leaf(x):
    return DurationSegment(
        duration=x[2], start_early=x[0], start_late=x[1], release_time=x[3]
    )


def warp_options(tl, warp, dur, max_dur):
    """Accepted values of time_warp(max_duration); see DESIGN.md."""
    opts = {warp + max(dur - warp - max_dur, 0)}
    free = timeline(tl.steps, -(10**30)).optimum()[0]
    if free < warp:
        opts.add(warp + max(dur - free - max_dur, 0))
    return opts


def durations(d, ctx):
    leaves, edges = gen_leaves(d, d.int(1, 7))
    ctx.note(leaves=leaves, edges=edges)
    ctx.nontrivial = len(leaves) > 1
    seg = bracket(
        d,
        [leaf(x) for x in leaves],
        edges,
        lambda e, a, b: DurationSegment.merge(e, a, b),
    )
    release = max(x[3] for x in leaves)
    tl = timeline(steps_of(leaves, edges), release)
    warp, dur, first, last = tl.optimum()
    ctx.eq("duration", seg.duration(), dur)
    ctx.eq("time_warp", seg.time_warp(), warp)
    ctx.eq("start_early", seg.start_early(), first)
    ctx.eq("start_late", seg.start_late(), last)
    ctx.eq("release_time", seg.release_time(), release)
    ctx.eq("slack", seg.slack(), last - first)
    ctx.eq("end_early", seg.end_early(), first + dur - warp)
    ctx.eq("end_late", seg.end_late(), min(last + dur - warp, INT_MAX))
    ctx.eq("prev_end_late", seg.prev_end_late(), INT_MAX)
    max_dur = d.choice([dur - warp, max(dur - 3, 0), d.int(0, 2 * dur + 1), 0])
    got = seg.time_warp(max_dur)
    opts = warp_options(tl, warp, dur, max_dur)
    ctx.ok(got in opts, lambda: f"time_warp({max_dur}): {got} not in {opts}")
    ctx.ok(got >= seg.time_warp(), "max duration lowers time warp")
    ctx.label("warp" if warp else "no warp")
    if first == release and release > 0:
        ctx.label("release binds")
    waits = dur - sum(x[2] for x in leaves) - sum(edges[1:])
    ctx.label("waits" if waits else "no wait")
    # Any actual start gives at least as much time warp, and at the reported
    # starts precisely the reported values.
    for t0 in {first, last, (first + last) // 2}:
        ctx.eq(f"start at {t0}", tl.run(t0), (warp, dur))


def trips(d, ctx):
    """Several trips, finalised towards the back or the front."""
    parts = []
    for _ in range(d.int(2, 4)):
        parts.append(gen_leaves(d, d.int(1, 4)))
    ctx.note(parts=parts)
    ctx.nontrivial = True
    # Trips are contiguous: no edge between the end of one and the next.
    steps = []
    for i, (leaves, edges) in enumerate(parts):
        if i:
            steps.append(("wait", max(x[3] for x in leaves)))
        steps += steps_of(leaves, edges)
    release = max(x[3] for x in parts[0][0])
    tl = timeline(steps, release)
    warp, dur, first, last = tl.optimum()

    def merge(e, a, b):
        return DurationSegment.merge(e, a, b)

    segs = [
        bracket(d, [leaf(x) for x in leaves], edges, merge)
        for leaves, edges in parts
    ]
    # Forwards.
    seg = segs[0]
    for nxt in segs[1:]:
        seg = merge(0, seg.finalise_back(), nxt)
    ctx.eq("back: duration", seg.duration(), dur)
    ctx.eq("back: time_warp", seg.time_warp(), warp)
    # Slack of the last trip: how much its start can be delayed without time
    # warp, or waiting after the latest return of the trips before it.
    before = []
    for i, (leaves, edges) in enumerate(parts[:-1]):
        if i:
            before.append(("wait", max(x[3] for x in leaves)))
        before += steps_of(leaves, edges)
    w0, d0, f0, l0 = timeline(before, release).optimum()
    leaves, edges = parts[-1]
    own = max(max(x[3] for x in leaves), f0 + d0 - w0)
    _, _, f1, l1 = timeline(steps_of(leaves, edges), own).optimum()
    slack = min(l1 - f1, max(l0 + d0 - w0 - f1, 0))
    ctx.eq("back: slack", seg.slack(), slack)
    ctx.label("slack" if slack else "no slack")
    done = seg.finalise_back()
    ctx.eq("back: final duration", done.duration(), dur)
    ctx.eq("back: final time_warp", done.time_warp(), warp)
    end_early, end_late = first + dur - warp, last + dur - warp
    ctx.eq("back: end_early", seg.end_early(), end_early)
    ctx.eq("back: final start_early", done.start_early(), end_early)
    ctx.eq("back: final release", done.release_time(), end_early)
    ctx.eq("back: end_late", done.prev_end_late(), min(end_late, INT_MAX))
    # Backwards.
    seg = segs[-1].finalise_front()
    for prev in reversed(segs[1:-1]):
        seg = merge(0, prev, seg).finalise_front()
    seg = merge(0, segs[0], seg)
    ctx.eq("front: duration", seg.duration(), dur)
    ctx.eq("front: time_warp", seg.time_warp(), warp)
    ctx.eq("front: start_early", seg.start_early(), first)
    ctx.eq("front: start_late", seg.start_late(), last)
    ctx.eq("front: slack", seg.slack(), last - first)
    # Both at once, meeting in the middle.
    cut = d.int(1, len(segs) - 1)
    left = segs[0]
    for nxt in segs[1:cut]:
        left = merge(0, left.finalise_back(), nxt)
    right = segs[-1].finalise_front()
    for prev in reversed(segs[cut:-1]):
        right = merge(0, prev, right).finalise_front()
    seg = merge(0, left, right)
    ctx.eq("middle: duration", seg.duration(), dur)
    ctx.eq("middle: time_warp", seg.time_warp(), warp)
    ctx.label("warp" if warp else "no warp")


def loads(d, ctx):
    """Loads on one or several trips."""
    cap = d.choice([10, 5, 0, 100])
    total_excess = 0
    acc = None
    plan = []
    for _ in range(d.int(1, 3)):
        segs = []
        start = d.int(0, 8) if d.bool(0.3) else 0
        items = []
        for _ in range(d.int(0, 6)):
            kind = d.choice(["client", "pickup", "delivery"])
            items.append((kind, d.int(0, 9), d.int(0, 9)))
        plan.append((start, items))
        segs.append(LoadSegment(start, 0, 0))
        load = start
        deltas = []
        for kind, a, b in items:
            if kind == "client":
                load += a
                deltas.append(b - a)
                segs.append(LoadSegment(a, b - a, max(b - a, 0)))
            else:
                delta = a if kind == "pickup" else -a
                deltas.append(delta)
                segs.append(LoadSegment(0, delta, max(delta, 0)))
        initial = load
        peak = load
        for delta in deltas:
            load += delta
            peak = max(peak, load)
        seg = bracket(
            d, segs, [0] * len(segs), lambda _, x, y: LoadSegment.merge(x, y)
        )
        ctx.eq("initial", seg.initial(), initial)
        ctx.eq("delta", seg.delta(), sum(deltas))
        ctx.eq("increase", seg.increase(), peak - initial)
        ctx.eq("load", seg.load(), peak)
        ctx.eq("excess_load", seg.excess_load(cap), max(peak - cap, 0))
        if acc is not None:
            seg = LoadSegment.merge(acc, seg)
        total_excess += max(peak - cap, 0)
        ctx.eq("load of current trip", seg.load(), peak)
        ctx.eq("total excess", seg.excess_load(cap), total_excess)
        acc = seg.finalise(cap)
        ctx.eq("finalised excess", acc.excess_load(cap), total_excess)
        ctx.eq("finalised load", acc.load(), 0)
        ctx.eq("finalised initial", acc.initial(), 0)
        ctx.eq("finalised delta", acc.delta(), 0)
    ctx.note(cap=cap, plan=plan)
    ctx.nontrivial = sum(len(x) for _, x in plan) > 1
    ctx.label(f"trips_{len(plan)}", "excess" if total_excess else "fits")


def carry(d, ctx):
    """
    What earlier or later trips accumulated is added on top, whichever of the
    merged segments carries it, and changes nothing else.
    """
    scale = d.choice([10, 100, 10**6])

    def raw():
        early = d.int(0, 4 * scale)
        late = early + d.int(0, 2 * scale) if d.bool(0.8) else INT_MAX
        prev = d.choice([INT_MAX, early + d.int(-scale, 2 * scale)])
        own = [d.int(0, scale), 0, early, late, 0]
        own[1] = d.int(0, own[0])
        own[4] = min(d.int(0, 5 * scale), late) if d.bool(0.3) else 0
        cum_dur = d.int(0, 3 * scale) if d.bool(0.7) else 0
        cum_warp = d.int(0, cum_dur)
        return own, [cum_dur, cum_warp], max(prev, 0)

    (x, x_cum, x_prev), (y, y_cum, y_prev) = raw(), raw()
    edge = d.int(0, scale)
    ctx.note(x=(x, x_cum, x_prev), y=(y, y_cum, y_prev), edge=edge)
    ctx.nontrivial = any(x_cum) or any(y_cum)
    with_cum = DurationSegment.merge(
        edge,
        DurationSegment(*x, *x_cum, x_prev),
        DurationSegment(*y, *y_cum, y_prev),
    )
    without = DurationSegment.merge(
        edge,
        DurationSegment(*x, 0, 0, x_prev),
        DurationSegment(*y, 0, 0, y_prev),
    )
    dur, warp = x_cum[0] + y_cum[0], x_cum[1] + y_cum[1]
    ctx.eq("duration", with_cum.duration(), without.duration() + dur)
    ctx.eq("time_warp", with_cum.time_warp(), without.time_warp() + warp)
    net = with_cum.duration() - with_cum.time_warp()
    limit = d.choice([net, max(net - 1, 0), d.int(0, 2 * abs(net) + 1)])
    want = with_cum.time_warp() + max(net - limit, 0)
    ctx.eq(f"time_warp({limit})", with_cum.time_warp(limit), want)
    for name in (
        "start_early",
        "start_late",
        "end_early",
        "end_late",
        "release_time",
        "prev_end_late",
        "slack",
    ):
        a, b = getattr(with_cum, name)(), getattr(without, name)()
        ctx.eq(name, a, b)
    ctx.eq("prev_end_late kept", with_cum.prev_end_late(), x_prev)
    done, plain = with_cum.finalise_back(), without.finalise_back()
    ctx.eq("done: duration", done.duration(), plain.duration() + dur)
    ctx.eq("done: time_warp", done.time_warp(), plain.time_warp() + warp)
    ctx.eq("done: start", done.start_early(), plain.start_early())
    ctx.eq("done: prev_end_late", done.prev_end_late(), plain.prev_end_late())
    # Excess load likewise.
    cap = d.int(0, 20)
    a = [d.int(0, 9), d.int(-9, 9), d.int(0, 9)]
    b = [d.int(0, 9), d.int(-9, 9), d.int(0, 9)]
    a[2], b[2] = max(a[1:]), max(b[1:])
    ea, eb = d.int(0, 9), d.int(0, 9)
    ctx.note(loads=(cap, a, ea, b, eb))
    load = LoadSegment.merge(LoadSegment(*a, ea), LoadSegment(*b, eb))
    bare = LoadSegment.merge(LoadSegment(*a), LoadSegment(*b))
    ctx.eq("load", load.load(), bare.load())
    excess = max(bare.load() - cap, 0) + ea + eb
    ctx.eq("excess_load", load.excess_load(cap), excess)
    ctx.eq("bare excess_load", bare.excess_load(cap), excess - ea - eb)
    ctx.eq("finalised", load.finalise(cap).excess_load(cap), excess)


SUBS = [
    Sub("durations", durations, 60000),
    Sub("trips", trips, 60000),
    Sub("carry", carry, 30000),
    Sub("loads", loads, 60000),
]
