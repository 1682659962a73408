"""C16: penalty management."""

import warnings
from fractions import Fraction

import numpy as np
from engine import Sub
from gen import build, build_solution, gen_routes, gen_spec
from pyvrp import (
    Client,
    Depot,
    Location,
    PenaltyManager,
    PenaltyParams,
    ProblemData,
    Solution,
    VehicleType,
)
from pyvrp.exceptions import PenaltyBoundWarning
from ref import SolutionRef

RULE = (
    "A case is a history of registered violations under random parameters. "
    "Non-trivial: at least one penalty update took place."
)


def violating(loads, tw, dist):
    """A solution with exactly these violations."""
    mat = np.array([[0, 1], [0, 0]])
    data = ProblemData(
        [Location(0, 0), Location(1, 1)],
        [Client(1, delivery=loads, tw_late=0)],
        [Depot(0)],
        [VehicleType(capacity=[0] * len(loads), max_distance=0)],
        [mat * dist],
        [mat * tw],
    )
    return Solution(data, [[0]])


def gen_params(d):
    lo = d.choice([0.1, 0.0, 1.0, 2.5, 50.0])
    hi = lo + d.choice([100_000.0, 0.0, 0.0, 1.0, 8.0, 20.0])
    return PenaltyParams(
        solutions_between_updates=d.weighted(
            [(3, 2), (2, 1), (2, 3), (3, 4), (1, 10)]
        ),
        penalty_increase=d.choice([1.5, 1.0, 2.0, 1.25]),
        penalty_decrease=d.choice([0.9, 0.5, 1.0, 0.0, 0.75]),
        target_feasible=d.choice([0.65, 0.5, 0.0, 1.0, 0.25, 0.9]),
        feas_tolerance=d.choice([0.05, 0.0, 0.25, 1.0, 0.5]),
        min_penalty=lo,
        max_penalty=hi,
    )


def clip(p, x):
    return min(max(x, p.min_penalty), p.max_penalty)


def updated(p, penalty, seen):
    """
    The possible penalties after seeing these violations. At the very edge of
    the tolerance rounding decides, and both outcomes are accepted.
    """
    feas = Fraction(sum(v == 0 for v in seen), len(seen))
    diff = Fraction(p.target_feasible) - feas
    up = clip(p, p.penalty_increase * penalty)
    down = clip(p, p.penalty_decrease * penalty)
    new = up if diff > 0 else down
    tol = Fraction(p.feas_tolerance)
    if abs(abs(diff) - tol) < Fraction(1, 10**9):
        if abs(diff) == tol and all(
            Fraction(x).denominator <= 64
            for x in (p.target_feasible, p.feas_tolerance, feas)
        ):
            return [new]  # exact in floating point: not below the tolerance
        if abs(diff) < Fraction(1, 10**9):
            return [penalty, up, down]  # either side of the target
        return [penalty, new]
    return [penalty] if abs(diff) < tol else [new]


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12)


def flat(pens):
    return [*pens[0], pens[1], pens[2]]


def check_now(ctx, pm, p, want, num):
    """Compares the current penalties, and resolves edge cases."""
    got = flat(pm.penalties())
    ctx.eq("number of penalties", len(got), num)
    for i in range(num):
        ctx.ok(
            any(close(got[i], w) for w in want[i]),
            lambda: f"penalty {i}: got {got[i]}, expected {want[i]}",
        )
        ctx.ok(
            p.min_penalty <= got[i] <= p.max_penalty,
            lambda: f"penalty {i}: {got[i]} outside bounds",
        )
        want[i] = [got[i]]
    # The evaluators carry these penalties.
    ce, top = pm.cost_evaluator(), pm.max_cost_evaluator()
    amount = 10**6
    dims = num - 2
    for evaluator, vals in (
        (ce, got),
        (top, [p.max_penalty] * num),
    ):
        for i in range(dims):
            ctx.eq(
                f"load penalty {i}",
                evaluator.load_penalty(amount, 0, i),
                int(vals[i] * amount),
            )
        ctx.eq(
            "time warp penalty",
            evaluator.tw_penalty(amount),
            int(vals[-2] * amount),
        )
        ctx.eq(
            "distance penalty",
            evaluator.dist_penalty(amount, 0),
            int(vals[-1] * amount),
        )


def history(d, ctx):
    p = gen_params(d)
    dims = d.weighted([(9, d.int(0, 3)), (1, d.int(4, 9))])
    num = dims + 2

    def value():
        return d.choice([20.0, 0.0, 1.0, 4.0, 1e6, 17.25])

    init = ([value() for _ in range(dims)], value(), value())
    given = [list(init[0]), init[1], init[2]]
    pm = PenaltyManager(init, p)
    want = [[clip(p, x)] for x in flat(init)]
    seen = [[] for _ in range(num)]
    prev = [None] * num
    log = []
    ctx.note(params=vars(p), initial=init, log=log)
    ctx.eq("initial values are left alone", [*init], given)
    check_now(ctx, pm, p, want, num)
    rate = [d.choice([0.5, 0.1, 0.9, 0.0, 1.0]) for _ in range(num)]
    most = d.choice([50, 1, 2, 5000])
    steps = d.int(1, 6 * p.solutions_between_updates)
    for _ in range(min(steps, 40)):
        viol = [d.int(1, most) if d.bool(r) else 0 for r in rate]
        log.append(viol)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            pm.register(violating(viol[:dims], viol[-2], viol[-1]))
        must = may = False
        for i in range(num):
            seen[i].append(viol[i])
            if len(seen[i]) < p.solutions_between_updates:
                continue
            ctx.nontrivial = True
            old = want[i][0]
            want[i] = updated(p, old, seen[i])
            # Warned when at the maximum, with too few feasible solutions and
            # violations that do not get smaller.
            avg = Fraction(sum(seen[i]), len(seen[i]))
            short = p.target_feasible - sum(v == 0 for v in seen[i]) / len(
                seen[i]
            )
            grows = prev[i] is not None and avg >= prev[i]
            if old >= p.max_penalty and grows:
                if short >= p.feas_tolerance + 1e-9:
                    must = True
                elif short >= p.feas_tolerance - 1e-9:
                    may = True
            prev[i] = avg
            seen[i] = []
        warned = any(
            issubclass(w.category, PenaltyBoundWarning) for w in caught
        )
        if not may:
            ctx.eq(f"warned after {len(log)}", warned, must)
        if warned:
            ctx.label("warned")
        check_now(ctx, pm, p, want, num)


def solutions(d, ctx):
    """The violations of real solutions reach the right penalties."""
    spec = gen_spec(d, forbid=("huge",), force=("maxdist", "tw", "load"))
    data = build(spec)
    p = PenaltyParams(
        solutions_between_updates=1,
        penalty_increase=2.0,
        penalty_decrease=0.5,
        target_feasible=0.5,
        feas_tolerance=0.25,
        min_penalty=0.125,
        max_penalty=2.0**20,
    )
    init = p.midpoint_penalties(data)
    mid = 0.125 + (2.0**20 - 0.125) / 2
    ctx.eq("midpoint", init, ([mid] * spec.dims, mid, mid))
    pm = PenaltyManager(([64.0] * spec.dims, 64.0, 64.0), p)
    want = [64.0] * (spec.dims + 2)
    ctx.note(spec=spec)
    for _ in range(d.int(1, 4)):
        routes = gen_routes(d, spec)
        ref = SolutionRef(spec, routes)
        viol = [*ref.excess_load(), ref.sum("time_warp")]
        viol.append(ref.sum("excess_distance"))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pm.register(build_solution(data, routes))
        want = [
            clip(p, w * (2.0 if v else 0.5)) for w, v in zip(want, viol)
        ]
        ctx.eq("penalties", flat(pm.penalties()), want)
        if any(viol) and not all(viol):
            ctx.nontrivial = True


BAD = {
    "solutions_between_updates": [0, -1],
    "penalty_increase": [0.999, 0.0, -1.0],
    "penalty_decrease": [-0.01, 1.01, 2.0],
    "target_feasible": [-0.01, 1.01],
    "feas_tolerance": [-0.01, 1.01],
    "min_penalty": [-0.1, -5.0],
    "max_penalty": [-0.1],
}
DEFAULTS = {
    "solutions_between_updates": 500,
    "penalty_increase": 1.5,
    "penalty_decrease": 0.9,
    "target_feasible": 0.65,
    "feas_tolerance": 0.05,
    "min_penalty": 0.1,
    "max_penalty": 100_000.0,
}


def params(d, ctx):
    p = gen_params(d)
    vals = {k: getattr(p, k) for k in DEFAULTS}
    some = {k: vals[k] for k in DEFAULTS if d.bool(0.6)}
    if "min_penalty" in some and "max_penalty" not in some:
        some["max_penalty"] = vals["max_penalty"]
    if "max_penalty" in some:
        some["max_penalty"] = max(
            some["max_penalty"], some.get("min_penalty", 0.1)
        )
    q = PenaltyParams(**some)
    for k in DEFAULTS:
        ctx.eq(k, getattr(q, k), some.get(k, DEFAULTS[k]))
    full = {**DEFAULTS, **some}
    ctx.eq("equality", p == q, vals == full)
    ctx.note(given=some)
    key = d.choice(sorted(BAD))
    bad = {**full, key: d.choice(BAD[key])}
    ctx.raises(f"bad {key}={bad[key]}", lambda: PenaltyParams(**bad))
    lo = full["max_penalty"] + d.choice([0.5, 10.0])
    ctx.raises(
        "max < min", lambda: PenaltyParams(**{**full, "min_penalty": lo})
    )
    ctx.nontrivial = True


SUBS = [
    Sub("history", history, 6000),
    Sub("solutions", solutions, 2500),
    Sub("params", params, 1000),
]
