"""C26: solver parameters and configuration files."""

import os
import tempfile

from clock import FakeClock
from engine import Sub, Violation
from gen import build, build_solution, canon, gen_routes, gen_spec, routes_of
from props.c11 import NAMES
from props.c24 import gen_params, rows
from props.c28 import Capture, Watch
from pyvrp import (
    IteratedLocalSearch,
    IteratedLocalSearchCallbacks,
    IteratedLocalSearchParams,
    PenaltyManager,
    PenaltyParams,
    RandomNumberGenerator,
    Solution,
    SolveParams,
    solve,
)
from pyvrp.search import (
    OPERATORS,
    LocalSearch,
    NeighbourhoodParams,
    PerturbationManager,
    PerturbationParams,
    compute_neighbours,
)
from pyvrp.search import _search as S
from pyvrp.stop import MaxIterations
from sutil import no_late_release

RULE = (
    "A case is a random configuration file (any subset of sections and "
    "values, possibly with one fault), a pair of parameter objects, or a "
    "solve whose parameters are compared with assembling the solver by hand. "
    "Non-trivial: at least one value differs from its default."
)

DEFAULT_OPS = [
    "Relocate1",
    "Relocate2",
    "Swap11",
    "Swap21",
    "Swap22",
    "SwapTails",
    "RelocateAlternative",
    "RelocatePickup",
    "RelocateDelivery",
    "RelocateWithDepot",
    "RemoveAdjacentDepot",
    "RemoveOptionalClient",
    "InsertOptionalClient",
    "ReplaceOptionalClient",
    "RemoveOptionalShipment",
    "InsertOptionalShipment",
    "ReplaceOptionalShipment",
    "ReplaceGroup",
    "RelocateShipment",
]

# Per section: class, and per field: default, good values, bad values.
FIELDS = {
    "ils": (
        IteratedLocalSearchParams,
        {
            "num_iters_no_improvement": (150_000, [0, 1, 77, 10**9], [-1]),
            "history_length": (300, [1, 2, 5000], [0, -1]),
            "exhaustive_on_best": (True, [False, True], []),
        },
    ),
    "penalty": (
        PenaltyParams,
        {
            "solutions_between_updates": (500, [1, 2, 10**6], [0, -3]),
            "penalty_increase": (1.5, [1.0, 1.01, 20.0], [0.99, 0.0, -1.5]),
            "penalty_decrease": (0.9, [0.0, 1.0, 0.5], [-0.01, 1.01]),
            "target_feasible": (0.65, [0.0, 1.0, 0.3], [-0.1, 1.1, 43.0]),
            "feas_tolerance": (0.05, [0.0, 1.0, 0.2], [-0.1, 1.001]),
            "min_penalty": (0.1, [0.0, 3.0, 12.5], [-0.1]),
            "max_penalty": (100_000.0, [12.5, 20.0, 1e9], [-1.0, 0.01]),
        },
    ),
    "neighbourhood": (
        NeighbourhoodParams,
        {
            "weight_wait_time": (0.2, [0.0, 1.0, 7.25], []),
            "num_neighbours": (50, [1, 2, 1000], [0, -1]),
            "symmetric_proximity": (True, [False, True], []),
        },
    ),
    "perturbation": (
        PerturbationParams,
        {
            "min_perturbations": (1, [0, 1, 10, 25], [26, -1]),
            "max_perturbations": (25, [25, 26, 100], [0, -1]),
        },
    ),
}


def toml(val):
    if isinstance(val, bool):
        return "true" if val else "false"
    if isinstance(val, str):
        return f'"{val}"'
    return repr(val)


def draw_section(d, name):
    _, fields = FIELDS[name]
    return {
        key: d.choice(good)
        for key, (_, good, _) in fields.items()
        if d.bool(0.5)
    }


def check_section(ctx, name, obj, given):
    for key, (default, _, _) in FIELDS[name][1].items():
        want = given.get(key, default)
        got = getattr(obj, key)
        ctx.eq(f"{name}.{key}", got, want)
        if isinstance(default, bool):
            ctx.ok(got is want, f"{name}.{key} is not a truth value")


def check_callbacks(ctx, ils):
    ctx.ok(
        isinstance(ils.callbacks, IteratedLocalSearchCallbacks),
        "no callbacks object",
    )


class Toml:
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        fd, self.path = tempfile.mkstemp(suffix=".toml")
        with os.fdopen(fd, "w") as out:
            out.write(self.text)
        return self.path

    def __exit__(self, *exc):
        os.unlink(self.path)


def render(d, top, sections):
    lines = [f"{k} = {v}" for k, v in top]
    for name, vals in sections:
        lines += ["", f"[{name}]"]
        for k in d.shuffle(list(vals)):
            lines.append(f"{k} = {toml(vals[k])}")
    return "\n".join(lines) + "\n"


def config(d, ctx):
    sections = {n: draw_section(d, n) for n in FIELDS if d.bool(0.65)}
    top, ops, interval = [], None, None
    if d.bool():
        ops = d.shuffle([n for n in NAMES if d.bool(0.3)])
        if d.bool(0.1):
            ops = ops + ops[:1]
        if d.bool(0.1):
            ops = []
        top.append(("operators", "[" + ", ".join(map(toml, ops)) + "]"))
    if d.bool():
        interval = d.choice([0.5, 10.0, 3, 0.0])
        top.append(("display_interval", toml(interval)))
    fault = None
    if d.bool(0.25):
        fault = d.choice(["value", "key", "operator"])
        if fault == "value":
            name = d.choice(list(FIELDS))
            keys = [k for k, v in FIELDS[name][1].items() if v[2]]
            key = d.choice(keys)
            old = sections.get(name, {})
            if (name, key) == ("perturbation", "max_perturbations"):
                old["min_perturbations"] = 1
            elif (name, key) == ("perturbation", "min_perturbations"):
                old.pop("max_perturbations", None)
            elif (name, key) == ("penalty", "max_penalty"):
                old.pop("min_penalty", None)
            old[key] = d.choice(FIELDS[name][1][key][2])
            sections[name] = old
        elif fault == "key":
            name = d.choice(list(FIELDS))
            sections.setdefault(name, {})[d.choice(["foo", "num"])] = 1
        else:
            bad = d.choice(["Relocate9", "swap11", "", "NoSuchOperator"])
            names = [*(ops or []), bad]
            top = [t for t in top if t[0] != "operators"]
            top.append(
                ("operators", "[" + ", ".join(map(toml, names)) + "]")
            )
    text = render(d, d.shuffle(top), d.shuffle(list(sections.items())))
    ctx.note(text=text, fault=fault)
    with Toml(text) as path:
        if fault:
            ctx.label("fault: " + fault)
            ctx.nontrivial = True
            ctx.checks += 1
            try:
                SolveParams.from_file(path)
            except (ValueError, TypeError, AttributeError, KeyError):
                return
            raise Violation(f"a configuration with a bad {fault} was accepted")
        params = SolveParams.from_file(path)
        again = SolveParams.from_file(path)
    check_all(ctx, params, sections, ops, interval)
    ctx.ok(params == again, "reading twice gives different parameters")
    direct = SolveParams(
        IteratedLocalSearchParams(**sections.get("ils", {})),
        PenaltyParams(**sections.get("penalty", {})),
        NeighbourhoodParams(**sections.get("neighbourhood", {})),
        OPERATORS if ops is None else [getattr(S, x) for x in ops],
        5.0 if interval is None else interval,
        PerturbationParams(**sections.get("perturbation", {})),
    )
    ctx.ok(params == direct, "the file and direct parameters differ")
    plain = is_default(sections, ops, interval)
    ctx.eq("equal to the defaults", params == SolveParams(), plain)
    ctx.nontrivial = not plain


def is_default(sections, ops, interval):
    return (
        all(
            FIELDS[n][1][k][0] == v
            for n, vals in sections.items()
            for k, v in vals.items()
        )
        and (ops is None or ops == DEFAULT_OPS)
        and (interval is None or interval == 5.0)
    )


def check_all(ctx, params, sections, ops, interval):
    check_section(ctx, "ils", params.ils, sections.get("ils", {}))
    check_callbacks(ctx, params.ils)
    check_section(ctx, "penalty", params.penalty, sections.get("penalty", {}))
    check_section(
        ctx,
        "neighbourhood",
        params.neighbourhood,
        sections.get("neighbourhood", {}),
    )
    check_section(
        ctx,
        "perturbation",
        params.perturbation,
        sections.get("perturbation", {}),
    )
    ctx.eq(
        "operators",
        [x.__name__ for x in params.operators],
        DEFAULT_OPS if ops is None else ops,
    )
    ctx.eq(
        "display_interval",
        params.display_interval,
        5.0 if interval is None else interval,
    )


def objects(d, ctx):
    """Parameter objects: what they keep, equality and validation."""
    name = d.choice(list(FIELDS))
    cls, fields = FIELDS[name]
    one, two = draw_section(d, name), draw_section(d, name)
    if d.bool(0.4):
        two = dict(one)
        if d.bool():
            key = d.choice(list(fields))
            two[key] = d.choice(fields[key][1])
    ctx.note(section=name, one=one, two=two)
    a, b = cls(**one), cls(**two)
    check_section(ctx, name, a, one)
    check_section(ctx, name, b, two)
    same = all(
        one.get(k, v[0]) == two.get(k, v[0]) for k, v in fields.items()
    )
    ctx.eq("equality", a == b, same)
    ctx.eq("inequality", a != b, not same)
    ctx.ok(a == cls(**one), "equal parameters do not compare equal")
    if same:
        ctx.label("equal")
    sa, sb = SolveParams(**{name: a}), SolveParams(**{name: b})
    ctx.eq("equality of all parameters", sa == sb, same)
    ctx.ok(getattr(sa, name) is a, "the given parameters are not kept")
    ints = d.choice([1.0, 2.0])
    ctx.ok(
        SolveParams(display_interval=ints) != SolveParams(),
        "display interval is ignored in comparisons",
    )
    ops = [getattr(S, n) for n in NAMES if d.bool(0.3)]
    so = SolveParams(operators=ops)
    ctx.eq("operators kept", so.operators, ops)
    ctx.eq("operators equality", so == SolveParams(), ops == OPERATORS)
    if name == "ils":
        cb = IteratedLocalSearchCallbacks()
        with_cb = IteratedLocalSearchParams(**one, callbacks=cb)
        ctx.ok(with_cb.callbacks is cb, "callbacks are not kept")
        ctx.ok(with_cb == a, "callbacks influence equality")
    bad = [k for k, v in fields.items() if v[2]]
    key = d.choice(bad)
    args = {k: v for k, v in one.items() if k != key}
    if name == "perturbation":
        args = {"min_perturbations": 1} if key != "min_perturbations" else {}
    if key == "max_penalty":
        args.pop("min_penalty", None)
    val = d.choice(fields[key][2])
    ctx.raises(f"{name}.{key} = {val}", lambda: cls(**args, **{key: val}))
    ctx.nontrivial = True


def pipeline(d, ctx):
    """Solving uses exactly the given parameters."""
    spec = gen_spec(
        d, max_clients=6, max_ships=2, min_acts=2, forbid=("huge",)
    )
    no_late_release(spec)
    data = build(spec)
    make, note = gen_params(d)
    display, steps = d.bool(0.4), [d.choice([0.5, 0.0, 2.0, 7.0])]
    interval = d.choice([5.0, 0.0, 1.5, 1000.0])
    seed, iters = d.int(0, 1000) * d.bool(0.8), d.int(0, 12)
    stats = d.bool(0.85)
    init = None
    if d.bool(0.3):
        init = build_solution(data, gen_routes(d, spec, complete=True))
    given = dict(
        seed=seed,
        collect_stats=stats,
        display=display,
        initial_solution=init,
    )
    usual = dict(
        seed=0, collect_stats=True, display=False, initial_solution=None
    )
    args = {k: v for k, v in given.items() if v != usual[k] or d.bool()}
    ctx.note(spec=spec, params=note, iters=iters, args=args)
    with FakeClock() as clock, Capture() as log:
        got = solve(
            data,
            MaxIterations(iters),
            params=make(Watch(clock, steps), interval),
            **args,
        )
    shown = log.take()
    ctx.ok(display or not shown, "output without display")

    clock = FakeClock()
    params = make(Watch(clock, steps), interval)
    rng = RandomNumberGenerator(seed=seed)
    ls = LocalSearch(
        data,
        rng,
        compute_neighbours(data, params.neighbourhood),
        PerturbationManager(params.perturbation),
    )
    for op in params.operators:
        if op.supports(data):
            ls.add_operator(op(data))
    mid = params.penalty.min_penalty
    mid += (params.penalty.max_penalty - params.penalty.min_penalty) / 2
    pens = ([mid] * data.num_load_dimensions, mid, mid)
    ctx.eq("initial penalties", params.penalty.midpoint_penalties(data), pens)
    pm = PenaltyManager(pens, params.penalty)
    if init is None:
        random = Solution.make_random(data, rng)
        init = ls(random, pm.max_cost_evaluator(), exhaustive=True)
    algo = IteratedLocalSearch(data, pm, ls, init, params.ils)
    with clock, Capture() as log:
        want = algo.run(MaxIterations(iters), stats, display, interval)
    ctx.eq("output", shown, log.take())
    ctx.eq(
        "solution", canon(routes_of(got.best)), canon(routes_of(want.best))
    )
    ctx.eq("statistics", rows(got), rows(want))
    ctx.eq("iterations", got.num_iterations, want.num_iterations)
    ctx.nontrivial = iters > 0


SUBS = [
    Sub("config", config, 3000, 60_000),
    Sub("objects", objects, 2000, 40_000),
    Sub("pipeline", pipeline, 2000),
]
