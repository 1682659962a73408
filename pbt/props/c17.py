"""C17: stopping criteria."""

from clock import FakeClock
from engine import Sub
from pyvrp.stop import (
    FirstFeasible,
    MaxIterations,
    MaxRuntime,
    MultipleCriteria,
    NoImprovement,
)

INT_MAX = 2**63 - 1

RULE = (
    "A case is a random history of best costs (and clock readings) fed to one "
    "or more random criteria, compared after every call with a reference "
    "model of the documented condition. Non-trivial: the criterion was called "
    "at least twice."
)


class Model:
    """Documented behaviour: whether to stop after a history of costs."""

    def __init__(self, kind, arg):
        self.kind, self.arg = kind, arg
        self.costs = []
        self.first = None
        self.best, self.last = None, 0

    def __call__(self, cost, now):
        """True, False, or None when either is fine."""
        self.costs.append(cost)
        if self.first is None:
            self.first = now
        if self.kind == "iters":
            return len(self.costs) > self.arg
        if self.kind == "feasible":
            return cost < INT_MAX
        if self.kind == "runtime":
            if abs(now - self.first - self.arg) < 1e-9:
                return None  # exactly at the limit
            return now - self.first > self.arg
        # No improvement: the calls since the last strict improvement.
        if self.best is None or cost < self.best:
            self.best, self.last = cost, len(self.costs) - 1
        return len(self.costs) - 1 - self.last >= self.arg


def gen_criterion(d, kinds=("iters", "noimpr", "feasible", "runtime")):
    kind = d.choice(kinds)
    arg = d.weighted([(6, d.int(0, 8)), (1, d.int(9, 60))])
    if kind == "runtime":
        arg = d.choice([arg, arg / 4, arg + d.int(0, 999) / 1024, 0.1 * arg])
    return kind, arg


def make(kind, arg):
    if kind == "iters":
        return MaxIterations(arg)
    if kind == "noimpr":
        return NoImprovement(arg)
    if kind == "feasible":
        return FirstFeasible()
    return MaxRuntime(arg)


def gen_costs(d, monotone, num=None):
    if num is None:
        num = d.weighted([(4, d.int(1, 25)), (1, d.int(20, 90))])
    cost = d.choice([INT_MAX, INT_MAX, 100, 3, 0])
    costs = []
    for _ in range(num):
        costs.append(cost)
        if d.bool(0.3):
            if cost == INT_MAX:
                cost = d.choice([100, 2**40, INT_MAX - 1, 7])
            elif d.bool(0.8) or monotone:
                cost -= d.choice([1, 1, 5])
            else:
                cost += d.choice([1, 5])
        elif not monotone and d.bool(0.2):
            cost = d.choice([INT_MAX, 50, 100, 0])
    return costs


def gen_steps(d, num):
    return [
        d.weighted([(3, 0.25), (2, 0), (2, 1.0), (2, 2**-10), (1, 0.1)])
        for _ in range(num)
    ]


def single(d, ctx):
    kind, arg = gen_criterion(d)
    costs = gen_costs(d, d.bool(0.7))
    steps = gen_steps(d, len(costs))
    ctx.note(kind=kind, arg=arg, costs=costs, steps=steps)
    ctx.label(kind)
    ctx.nontrivial = len(costs) > 1
    model = Model(kind, arg)
    with FakeClock() as clock:
        clock.now += d.int(0, 3)
        crit = make(kind, arg)
        clock.now += d.choice([0, 5.0])  # time before the first call is free
        for idx, (cost, step) in enumerate(zip(costs, steps)):
            want = model(cost, clock.now)
            got = crit(cost)
            if want is not None:
                ctx.eq(f"{kind}({arg}) call {idx}", bool(got), want)
                ctx.label("stop" if want else "go")
            clock.now += step
        # Once stopped, stays stopped on constant input.
        if got:
            for _ in range(3):
                ctx.eq(f"{kind}({arg}) stays stopped", bool(crit(cost)), True)


def long_run(d, ctx):
    """Long histories: the limits are not multiples of anything small."""
    kind = d.choice(["iters", "noimpr", "runtime"])
    arg = d.choice([100, 128, 256, 300, 999, 1000, d.int(60, 1500)])
    num = arg + d.int(-3, 60)
    model = Model(kind, arg)
    gap = d.choice([arg, arg - 1, max(arg // 2, 1), d.int(1, 20)])
    cost, until = 10**6, d.int(0, num)
    ctx.note(kind=kind, arg=arg, num=num, gap=gap, until=until)
    ctx.label(kind)
    ctx.nontrivial = True
    with FakeClock() as clock:
        crit = make(kind, arg)
        for idx in range(num):
            want = model(cost, clock.now)
            got = crit(cost)
            if want is not None:
                ctx.eq(f"{kind}({arg}) call {idx}", bool(got), want)
                ctx.label("stop" if want else "go")
            clock.now += 1.0 + 1 / 64
            if idx % gap == gap - 1 and idx < until:
                cost -= 1


def build(tree):
    if isinstance(tree, list):
        return MultipleCriteria([build(t) for t in tree])
    return make(*tree)


def leaves(tree):
    if isinstance(tree, list):
        return [x for t in tree for x in leaves(t)]
    return [tree]


def combined(d, ctx):
    """Any member stopping stops the combination, until it first stops."""
    tree = []
    for _ in range(d.int(1, 4)):
        if d.bool(0.2):
            tree.append([gen_criterion(d) for _ in range(d.int(1, 3))])
        else:
            tree.append(gen_criterion(d))
    costs = gen_costs(d, d.bool(0.8))
    steps = gen_steps(d, len(costs))
    ctx.note(tree=tree, costs=costs, steps=steps)
    ctx.nontrivial = len(leaves(tree)) > 1
    models = [Model(*x) for x in leaves(tree)]
    with FakeClock() as clock:
        crit = build(tree)
        for idx, (cost, step) in enumerate(zip(costs, steps)):
            wants = [m(cost, clock.now) for m in models]
            got = crit(cost)
            if True in wants:
                ctx.eq(f"combination, call {idx}", bool(got), True)
            elif None not in wants:
                ctx.eq(f"combination, call {idx}", bool(got), False)
            ctx.label("stop" if got else "go")
            if got:
                break
            clock.now += step
        if got:
            for _ in range(3):
                ctx.eq("combination stays stopped", bool(crit(cost)), True)
        ctx.label(f"stopped_by_{sum(w is True for w in wants)}")


def invalid(d, ctx):
    ctx.nontrivial = True
    bad = -d.choice([1, 2, 100, 10**12])
    with_frac = bad / d.choice([1, 3, 1000])
    ctx.raises(f"MaxIterations({bad})", MaxIterations, bad)
    ctx.raises(f"NoImprovement({bad})", NoImprovement, bad)
    ctx.raises(f"MaxRuntime({with_frac})", MaxRuntime, with_frac)
    ctx.raises("MultipleCriteria([])", MultipleCriteria, [])
    # Zero is the boundary and is fine.
    ctx.eq("MaxIterations(0)", MaxIterations(0)(d.int(0, 5)), True)
    ctx.eq("NoImprovement(0)", NoImprovement(0)(d.int(0, 5)), True)
    MaxRuntime(0)


SUBS = [
    Sub("single", single, 60000),
    Sub("long_run", long_run, 2000),
    Sub("combined", combined, 40000),
    Sub("invalid", invalid, 200),
]
