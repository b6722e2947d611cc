"""C03: channels are emitted exactly when their rate says so."""

import random
from fractions import Fraction

from vmon import gen, sched, wire
from vmon.checks.c01 import drain, prim

RULE = (
    "a case is an environment and a history of registrations, sets, rate "
    "changes and dispatches at dyadic times (so that due-ness is exact); "
    "distinct = (number due, number of channels, which boundary was met)"
)
ASSUME = ["dispatch times never decrease", "values are within their types"]
REQUIRE = {
    "dispatches": 500,
    "emitted": 1000,
    "withheld": 1000,
    "exactly_due": 100,
    "backward": 300,
    "rate_changes": 50,
    "interleavings": 20,
}
NAMES = list(wire.TYPES)
GRID = 1024.0


def rate_of(rng):
    return rng.choice(
        [0.0, 1 / GRID, 0.25, 0.5, 1.0, 2.0, 10.0, rng.randrange(3000) / GRID]
    )


class Model:
    """When each channel is due."""

    def __init__(self):
        self.rate, self.last, self.types, self.order = {}, {}, {}, []

    def add(self, ident, kind, rate):
        self.rate[ident], self.last[ident] = rate, 0.0
        self.types[ident] = kind
        self.order.append(ident)

    def due(self, ident, when):
        return Fraction(when) >= Fraction(self.last[ident]) + Fraction(
            self.rate[ident]
        )

    def dispatch(self, ctx, when):
        out = []
        for ident in self.order:
            if self.due(ident, when):
                if Fraction(when) == Fraction(self.last[ident]) + Fraction(
                    self.rate[ident]
                ):
                    ctx.count("exactly_due")
                self.last[ident] = when
                out.append(ident)
                ctx.count("emitted")
            else:
                ctx.count("withheld")
        return out


def elements(ctx, frames, types, crc, kind=wire.DATA):
    out = []
    for frame in frames:
        raw, size = frame.raw
        try:
            got = wire.parse(raw[:size], types, crc)
        except wire.Bad as exc:
            ctx.fail("a frame isn't in the documented layout", why=str(exc))
        if got["type"] == kind:
            out.extend(got["elems"])
    return out


def sync(env, model, own, metrics_rate):
    """Learn of channels that the environment registered itself."""
    for ident in range(env.channel_registry.count()):
        if ident not in model.types:
            kind = env.channel_registry.get_channel_type(ident)
            model.add(ident, kind.name.lower(), metrics_rate)
            assert ident not in own


def history(ctx, rng, index):
    from vtelem.channel import Channel
    from vtelem.telemetry.environment import TelemetryEnvironment

    crc = rng.random() < 0.5
    metrics = rng.random() < 0.4
    mrate = rng.choice([0.25, 1.0, 0.0625]) if metrics else None
    model, own, values = Model(), [], {}
    chans = []
    for i in range(rng.choice([0, 0, 1, 4])):
        kind, rate = rng.choice(NAMES), rate_of(rng)
        chans.append(Channel(f"init{i}", prim(kind), rate))
        model.add(i, kind, rate)
        own.append(i)
        values[i] = wire.TYPES[kind][2]()
    when = rng.choice([0.0, 0.0, 0.5, 1000.0])
    env = TelemetryEnvironment(
        rng.choice([60, 200, 1428]), when, mrate, chans or None, use_crc=crc
    )
    if metrics:
        sync(env, model, own, mrate)
    number = 0
    names = [c.name for c in chans]
    captured = 0
    for _ in range(rng.choice([5, 15, 30])):
        for _ in range(rng.randrange(6)):
            act = rng.random()
            if act < 0.35 or not own:
                kind, rate = rng.choice(NAMES), rate_of(rng)
                if rng.random() < 0.15 and names:
                    # a refused registration is no channel at all
                    try:
                        env.add_channel(rng.choice(names), prim(kind), rate)
                    except AssertionError:
                        ctx.count("refused_registrations")
                        continue
                    ctx.fail("a duplicate channel was registered")
                number += 1
                names.append(f"chan{number}")
                ident = env.add_channel(
                    f"chan{number}", prim(kind), rate, rng.random() < 0.3
                )
                model.add(ident, kind, rate)
                own.append(ident)
                values[ident] = wire.TYPES[kind][2]()
            elif act < 0.7:
                ident = rng.choice(own)
                val = gen.value(rng, model.types[ident])
                if rng.random() < 0.5:
                    env.set_now(ident, val)
                else:
                    env.command_channel_id(ident, val)
                values[ident] = val
            else:
                ident = rng.choice(own)
                model.rate[ident] = rate_of(rng)
                env.set_channel_rate(ident, model.rate[ident])
                ctx.count("rate_changes")
        step = rng.choice(
            [0.0, 1 / GRID, 0.25, 0.5, 1.0, rng.randrange(3000) / GRID]
        )
        if own and rng.random() < 0.4:
            # meet a boundary, or just miss it
            ident = rng.choice(own)
            gap = model.last[ident] + model.rate[ident] - when
            step = max(0.0, gap - rng.choice([0.0, 1 / GRID]))
        if rng.random() < 0.08:
            # nobody has to dispatch at ascending times
            step = -rng.choice([1 / GRID, 0.25, 1.0, when, when / 2])
            step = max(step, -when)
            ctx.count("backward", step < 0.0)
        when += step
        env.set_time(when)
        how = rng.randrange(3)
        counts = None
        if how == 0:
            total = env.dispatch(when, should_log=False)
        elif how == 1:
            total = env.dispatch_now(should_log=False)
        else:
            counts = env.dispatch_data(when)
            total = counts[0]
        frames = drain(env)
        ctx.equal(total, len(frames), "dispatch misreports its frames")
        got = elements(ctx, frames, model.types, crc)
        want = model.dispatch(ctx, when)
        ctx.equal(
            [g[0] for g in got],
            want,
            "channels emitted aren't the ones due",
            time=when,
            rates=model.rate,
        )
        for ident, val in got:
            if ident in values:
                ctx.check(
                    wire.same(
                        val, wire.on_wire(model.types[ident], values[ident])
                    ),
                    "a channel was emitted with another value",
                    ident=ident, got=val, expected=values[ident],
                )
        if counts is not None:
            ctx.equal(counts[1], len(want), "dispatch misreports its emits")
        captured += len(want)
        if metrics:
            ctx.equal(
                env.get_metric("emits_captured"),
                captured,
                "the emission metric is wrong",
            )
        ctx.count("dispatches")
        ctx.distinct(len(want), len(model.order), step == 0.0, metrics)
    ctx.sample({"rates": model.rate, "final_time": when})


def concurrent(ctx, rng, index):
    """Two dispatches at the same time, or one and a registration."""
    seed = rng.random()
    state = {}
    other = index % 2

    def fresh():
        from vtelem.telemetry.environment import TelemetryEnvironment

        own = random.Random(seed)
        env = TelemetryEnvironment(own.choice([60, 400]), 0.0, use_crc=False)
        model = Model()
        for i in range(own.randint(1, 6)):
            kind, rate = own.choice(NAMES), own.choice([0.5, 1.0, 2.0])
            model.add(env.add_channel(f"c{i}", prim(kind), rate), kind, rate)
        state.update(env=env, model=model)
        ops = [lambda: env.dispatch(1.0, False)]
        if other:
            ops.append(lambda: env.dispatch(1.0, False))
        else:
            ops.append(lambda: env.add_channel("late", prim("uint8"), 0.5))
        return ops

    def verify(outs, _):
        sched.no_errors(outs)
        env, model = state["env"], state["model"]
        types = dict(model.types)
        late = None
        if not other:
            late = outs[1].value
            types[late] = "uint8"
        frames = drain(env)
        got = [e[0] for e in elements(ctx, frames, types, False)]
        total = outs[0].value + (outs[1].value if other else 0)
        ctx.equal(total, len(frames), "dispatches misreport their frames")
        want = model.dispatch(ctx, 1.0)
        ctx.equal(
            [g for g in got if g != late],
            want,
            "concurrent dispatches don't emit due channels exactly once",
        )
        again = elements(
            ctx, drain(env) if env.dispatch(1.0, False) else [], types, False
        )
        ctx.equal(
            [e[0] for e in again],
            [late] if late is not None and late not in got else [],
            "a channel was emitted before it was due, or not at all",
        )

    sched.sweep(ctx, fresh, verify, rng, points=60, extra=5)


UNITS = {"history": (history, 2700, 50000), "concurrent": (concurrent, 30, 300)}
