"""C23: utility types against their mathematical models."""

import itertools

from engine import Sub
from gen import KINDS, TYPES
from pyvrp import (
    Activity,
    DynamicBitset,
    PiecewiseLinearFunction,
    RandomNumberGenerator,
)

RULE = (
    "A case is a random operation history on bit sets, a random piecewise "
    "linear function with arguments around its breakpoints, a random generator "
    "history, or a random activity. Non-trivial: the history has at least one "
    "operation, or the function at least one breakpoint."
)

BLOCK = 64


def bitset(d, ctx):
    num = d.weighted(
        [(5, d.int(1, 130)), (1, 64), (1, 128), (1, 0), (1, d.int(130, 400))]
    )
    sets = [DynamicBitset(num) for _ in range(2)]
    size = -(-num // BLOCK) * BLOCK
    models = [[False] * size for _ in range(2)]
    ops = []
    for _ in range(d.int(0, 25)):
        which = d.int(0, 1)
        op = d.weighted(
            [
                (8, "put"),
                (1, "set"),
                (1, "reset"),
                (2, "or"),
                (2, "and"),
                (2, "xor"),
                (2, "invert"),
                (1, "invalid"),
                (1, "iterate"),
            ]
        )
        a, b = models
        if op == "put" and size:
            pos = d.choice([d.int(0, size - 1), size - 1, 63, 0])
            val = d.bool(0.7)
            ops.append((op, which, pos, val))
            sets[which][pos] = val
            models[which][pos] = val
        elif op == "set":
            ops.append((op, which))
            ret = sets[which].set()
            models[which] = [True] * size
            ctx.eq("set returns the set", ret == sets[which], True)
        elif op == "reset":
            ops.append((op, which))
            ret = sets[which].reset()
            models[which] = [False] * size
            ctx.eq("reset returns the set", ret == sets[which], True)
        elif op in ("or", "and", "xor"):
            ops.append((op, which))
            s, t = sets
            res = {"or": lambda: s | t, "and": lambda: s & t}.get(
                op, lambda: s ^ t
            )()
            fn = {
                "or": lambda x, y: x or y,
                "and": lambda x, y: x and y,
                "xor": lambda x, y: x != y,
            }[op]
            sets[which] = res
            models[which] = [fn(x, y) for x, y in zip(a, b)]
        elif op == "invert":
            ops.append((op, which))
            sets[which] = ~sets[which]
            models[which] = [not x for x in models[which]]
        elif op == "invalid":
            bad = size + d.int(0, 3)
            ctx.raises("read past the end", sets[which].__getitem__, bad)
            ctx.raises(
                "write past the end", sets[which].__setitem__, bad, True
            )
        elif op == "iterate":
            ctx.eq("iteration", list(sets[which]), models[which])
        for s, m in zip(sets, models):
            ctx.eq("count", s.count(), sum(m))
            ctx.eq("any", s.any(), any(m))
            ctx.eq("none", s.none(), not any(m))
            ctx.eq("all", s.all(), all(m))
            ctx.eq("len", len(s), size)
        ctx.eq("equal", sets[0] == sets[1], models[0] == models[1])
        ctx.nontrivial = True
    for s, m in zip(sets, models):
        ctx.eq("bits", [s[i] for i in range(size)], m)
    other = DynamicBitset(size + 1)
    ctx.eq("different sizes", sets[0] == other, False)
    ctx.note(num=num, ops=ops)


def pieces(d, ctx):
    """Functions given by points: interpolation, jumps, extrapolation."""
    num = d.int(2, 6)
    xs = [d.int(-20, 20)]
    jumpy = d.bool(0.5)
    for i in range(1, num):
        gap = d.int(1, 6)
        if jumpy and i not in (1, num - 1) and d.bool(0.4):
            gap = 0
        xs.append(xs[-1] + gap)
    ys = [d.int(-20, 20)]
    ok = True
    rising = d.bool(0.4)
    for i in range(1, num):
        dx = xs[i] - xs[i - 1]
        lo = 0 if rising else -4
        if dx == 0:
            ys.append(ys[-1] + d.int(lo, 8))
        elif d.bool(0.96):
            ys.append(ys[-1] + dx * d.int(lo, 4))
        else:
            ys.append(ys[-1] + d.int(lo, 6))
            ok = ok and (ys[-1] - ys[-2]) % dx == 0
    points = list(zip(xs, ys))
    mut = d.weighted([(8, None), (1, "swap"), (1, "few"), (1, "ends")])
    if mut == "swap":
        i = d.int(0, num - 2)
        points[i], points[i + 1] = points[i + 1], points[i]
    elif mut == "few":
        points = points[: d.int(0, 1)]
    elif mut == "ends":
        if d.bool():
            points[1] = (points[0][0], points[1][1])
        else:
            points[-1] = (points[-2][0], points[-1][1])
    ctx.note(points=points)

    def valid():
        if len(points) < 2:
            return False
        if points[0][0] == points[1][0] or points[-1][0] == points[-2][0]:
            return False
        for (x1, y1), (x2, y2) in zip(points, points[1:]):
            if x2 < x1 or (x2 > x1 and (y2 - y1) % (x2 - x1)):
                return False
        return True

    if not valid():
        ctx.label("invalid")
        ctx.raises(f"points {points}", PiecewiseLinearFunction, points)
        return
    fn = PiecewiseLinearFunction(points)
    ctx.nontrivial = len(points) > 2
    ctx.label("valid")
    segs = []
    for (x1, y1), (x2, y2) in zip(points, points[1:]):
        if x1 != x2:
            segs.append((x1, y1, x2, y2, (y2 - y1) // (x2 - x1)))
    breaks = [s[0] for s in segs[1:]]

    def model(x):
        seg = segs[0]
        for s in segs[1:]:
            if x >= s[0]:
                seg = s
        return seg[1] + seg[4] * (x - seg[0])

    for x in range(points[0][0] - 4, points[-1][0] + 5):
        ctx.eq(f"f({x})", fn(x), model(x))
    ctx.eq("breakpoints", list(fn.breakpoints), breaks)
    ctx.eq(
        "segments",
        [tuple(s) for s in fn.segments],
        [(y1 - sl * x1, sl) for x1, y1, _, _, sl in segs],
    )
    # Between breakpoints the slope decides, at breakpoints the jump.
    mono = all(s[4] >= 0 for s in segs)
    for a, b in zip(segs, segs[1:]):
        left = a[1] + a[4] * (b[0] - a[0])
        mono = mono and b[1] >= left
    ctx.eq("monotone", fn.is_monotonically_increasing(), mono)
    ctx.label("monotone" if mono else "not monotone")
    # The explicit form gives the same function.
    same = PiecewiseLinearFunction(
        breaks, [(y1 - sl * x1, sl) for x1, y1, _, _, sl in segs]
    )
    ctx.eq("same function", same == fn, True)


def explicit(d, ctx):
    """Functions given by breakpoints and segments."""
    breaks = [d.int(-9, 9) for _ in range(d.int(0, 4))]
    if d.bool(0.85):
        breaks = sorted(set(breaks))
    extra = d.weighted([(10, 1), (1, 0), (1, 2)])
    segs = [(d.int(-9, 9), d.int(-4, 4)) for _ in range(len(breaks) + extra)]
    ctx.note(breaks=breaks, segs=segs)
    valid = extra == 1 and all(a < b for a, b in zip(breaks, breaks[1:]))
    if not valid:
        ctx.label("invalid")
        ctx.raises(
            f"{breaks} {segs}", PiecewiseLinearFunction, breaks, segs
        )
        return
    ctx.nontrivial = len(breaks) > 0
    fn = PiecewiseLinearFunction(breaks, segs)
    ctx.eq("breakpoints", list(fn.breakpoints), breaks)
    ctx.eq("segments", [tuple(s) for s in fn.segments], segs)
    for x in range(-12, 13):
        idx = sum(b <= x for b in breaks)
        a, b = segs[idx]
        ctx.eq(f"f({x})", fn(x), a + b * x)
    mono = all(s >= 0 for _, s in segs)
    for i, b in enumerate(breaks):
        left = segs[i][0] + segs[i][1] * b
        right = segs[i + 1][0] + segs[i + 1][1] * b
        mono = mono and right >= left
    ctx.eq("monotone", fn.is_monotonically_increasing(), mono)


def rng(d, ctx):
    seed = d.choice([d.int(0, 1000), 0, 2**32 - 1, d.int(0, 2**32 - 1)])
    one = RandomNumberGenerator(seed=seed)
    two = RandomNumberGenerator(seed=seed)
    saved = []
    ops = []
    outs = []

    def draw(gen, op):
        if op[0] == "raw":
            return gen()
        if op[0] == "rand":
            return gen.rand()
        return gen.randint(op[1])

    ctx.note(seed=seed, ops=ops)
    for _ in range(d.int(1, 20)):
        kind = d.choice(["raw", "rand", "randint"])
        high = d.choice([1, 2, d.int(1, 100), 2**31 - 1])
        op = (kind, high)
        saved.append(list(one.state()))
        ops.append(op)
        val = draw(one, op)
        outs.append(val)
        ctx.eq("same seed, same draw", draw(two, op), val)
        if kind == "raw":
            ctx.ok(0 <= val < 2**32, f"raw draw {val} out of range")
        elif kind == "rand":
            ctx.ok(0 <= val <= 1, f"rand draw {val} out of range")
        else:
            ctx.ok(0 <= val < high, f"randint({high}) gave {val}")
    ctx.eq("min", RandomNumberGenerator.min(), 0)
    ctx.eq("max", RandomNumberGenerator.max(), 2**32 - 1)
    ctx.eq("state", list(one.state()), list(two.state()))
    idx = d.int(0, len(ops) - 1)
    again = RandomNumberGenerator(state=saved[idx])
    ctx.eq("state of resumed", list(again.state()), saved[idx])
    ctx.eq("resumed draws", [draw(again, op) for op in ops[idx:]], outs[idx:])
    # The generator's raw, unit and bounded draws are the same stream.
    state = one.state()
    a = RandomNumberGenerator(state=state)()
    b = RandomNumberGenerator(state=state).rand()
    ctx.ok(abs(b - a / (2**32 - 1)) < 1e-9, f"rand {b} of raw {a}")
    ctx.nontrivial = True


def spread(d, ctx):
    """Small ranges are fully covered and seeds give different streams."""
    ctx.nontrivial = True
    seed = d.int(1, 10**6)
    high = d.int(2, 8)
    gen = RandomNumberGenerator(seed)
    seen = {gen.randint(high) for _ in range(1000)}
    ctx.note(seed=seed, high=high)
    ctx.eq("values drawn", seen, set(range(high)))
    top = d.choice([1000, 2**16, 2**17 + 1, 10**6, 2**24 + 3, 2**31 - 1])
    seen = {gen.randint(top) * 8 // top for _ in range(1000)}
    ctx.eq(f"parts of the range {top}", seen, set(range(8)))
    vals = [gen.rand() for _ in range(1000)]
    ctx.ok(min(vals) < 0.1 and max(vals) > 0.9, "rand covers [0, 1]")
    other = RandomNumberGenerator(seed + 1)
    one = RandomNumberGenerator(seed)
    ctx.ok(
        [one() for _ in range(20)] != [other() for _ in range(20)],
        "different seeds give the same stream",
    )


LETTER = {"C": "C", "D": "D", "P": "L", "X": "U"}


def activities(d, ctx):
    kind = d.choice(list(TYPES))
    idx = d.choice([d.int(0, 20), d.int(0, 10**9), 2**63])
    act = Activity(TYPES[kind], idx)
    ctx.note(kind=kind, idx=idx)
    ctx.nontrivial = True
    ctx.eq("type", KINDS[act.type], kind)
    ctx.eq("idx", act.idx, idx)
    ctx.eq("text", str(act), f"{LETTER[kind]}{idx}")
    again = Activity(str(act))
    ctx.eq("from text", (KINDS[again.type], again.idx), (kind, idx))
    ctx.eq("equal", again == act, True)
    ctx.eq("hash", hash(again), hash(act))
    ctx.eq("is_client", act.is_client(), kind == "C")
    ctx.eq("is_depot", act.is_depot(), kind == "D")
    ctx.eq("is_pickup", act.is_pickup(), kind == "P")
    ctx.eq("is_delivery", act.is_delivery(), kind == "X")
    ctx.eq("is_shipment", act.is_shipment(), kind in "PX")
    for other, num in itertools.product(TYPES, [idx, idx + 1]):
        ctx.eq(
            "equal to another",
            act == Activity(TYPES[other], num),
            (other, num) == (kind, idx),
        )
    bad = d.choice(["", "Q3", "3", "c1", "C", "Dx", " C1", "P1", "X0"])
    ctx.raises(f"Activity({bad!r})", Activity, bad)


SUBS = [
    Sub("bitset", bitset, 25000),
    Sub("pieces", pieces, 40000),
    Sub("explicit", explicit, 30000),
    Sub("rng", rng, 15000),
    Sub("spread", spread, 500),
    Sub("activities", activities, 15000),
]
