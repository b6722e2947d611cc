"""C04: each change of a tracked channel becomes exactly one event."""

import random

from vmon import gen, sched, wire
from vmon.checks.c01 import drain, prim

RULE = (
    "a case is a history of sets, commands, increments and registrations "
    "(accepted and refused) and dispatches, single-threaded or with writers "
    "and dispatchers preempted at chosen lines; distinct = (route, outcome, "
    "type) of an operation and (events, frames) of a dispatch"
)
ASSUME = [
    "one writer per channel at a time",
    "values are not NaN (which differs from itself)",
]
REQUIRE = {
    "events": 3000,
    "refused": 300,
    "unchanged": 100,
    "dropped_by_full_queue": 100,
    "event_frames": 300,
    "interleavings": 50,
    "stress_runs": 3,
    "shared_changes": 1000,
}
NAMES = list(wire.TYPES)
ROOM = 256


def millis_event(ctx, got, want, kind):
    """Whether a decoded event is the one recorded."""
    (_, prev, curr), (wprev, wcurr) = got, want
    for part, (val, when) in ((prev, wprev), (curr, wcurr)):
        if not wire.same(part[0], wire.on_wire(kind, val)):
            return False
        if not wire.millis_ok(part[1], when):
            return False
    return True


def decode(ctx, frames, types, crc):
    """All events in frames, in order."""
    out = []
    for frame in frames:
        raw, size = frame.raw
        try:
            got = wire.parse(raw[:size], types, crc)
        except wire.Bad as exc:
            ctx.fail("a frame isn't in the documented layout", why=str(exc))
        if got["type"] == wire.EVENT:
            ctx.count("event_frames")
            out.extend(got["elems"])
    return out


class Book:
    """The values, times and waiting events that should be."""

    def __init__(self):
        self.types, self.value, self.time, self.tracked = {}, {}, {}, {}
        self.commandable, self.names = {}, {}
        self.waiting = []

    def add(self, ident, name, kind, tracked, commandable):
        self.types[ident], self.names[ident] = kind, name
        self.value[ident], self.time[ident] = wire.TYPES[kind][2](), 0.0
        self.tracked[ident], self.commandable[ident] = tracked, commandable

    def legal(self, ident, val):
        kind = self.types[ident]
        return type(val) is wire.TYPES[kind][2] and gen.representable(
            kind, val
        )

    def change(self, ctx, ident, val, when):
        prev = self.value[ident], self.time[ident]
        self.value[ident], self.time[ident] = val, when
        if prev[0] == val:
            ctx.count("unchanged")
            return
        if self.tracked[ident]:
            if len(self.waiting) >= ROOM:
                ctx.count("dropped_by_full_queue")
            else:
                self.waiting.append((ident, prev, (val, when)))


def operate(ctx, rng, env, book, ident, when):
    """One attempt to change one channel."""
    kind = book.types[ident]
    pick = rng.random()
    if pick < 0.15:
        val = book.value[ident]
    elif pick < 0.35:
        val = gen.outside(rng, kind)
        if wire.TYPES[kind][2] is int and isinstance(val, bool):
            val = None
    else:
        val = gen.value(rng, kind)
    chan = env.channel_registry.get_item(ident)
    route = rng.choice(
        ["set_now", "command_id", "command", "set", "add", "command_add", "untimed"]
    )
    allowed = True
    stamp = when
    if route in ("add", "command_add"):
        if wire.TYPES[kind][2] is bool:
            route = "set"
        else:
            val = rng.choice([0, 1, -1, 3, rng.randint(-300, 300), 1 << 40])
            if wire.TYPES[kind][2] is float:
                val = float(val)
    if route == "set_now":
        result = env.set_now(ident, val)
    elif route == "command_id":
        allowed = book.commandable[ident]
        result = env.command_channel_id(ident, val)
    elif route == "command":
        allowed = book.commandable[ident]
        result = env.command_channel(book.names[ident], val)
    elif route == "set":
        stamp = gen.time_value(rng)
        result = chan.set(val, stamp)
    elif route == "untimed":
        stamp = 0.0
        result = chan.set(val)
    else:
        stamp = gen.time_value(rng)
        if route == "add":
            result = chan.add(val, stamp)
        else:
            allowed = book.commandable[ident]
            result = chan.command(val, stamp, add=True)
        val = book.value[ident] + val
    expect = allowed and book.legal(ident, val)
    ctx.equal(
        bool(result), expect, "an operation's result is wrong",
        route=route, kind=kind, value=repr(val),
    )
    ctx.distinct(route, expect, kind)
    if expect:
        book.change(ctx, ident, val, stamp)
    else:
        ctx.count("refused")
    ctx.equal(
        env.get_value(ident), book.value[ident], "a channel's value is wrong"
    )


def history(ctx, rng, index):
    from vtelem.telemetry.environment import TelemetryEnvironment

    crc = rng.random() < 0.5
    when = gen.time_value(rng)
    mtu = rng.choice([100, 300, 1428])
    env = TelemetryEnvironment(mtu, when, use_crc=crc)
    book = Book()
    focus = rng.choice([1, 3, 10])
    often = rng.choice([10, 60, 60, 1200])
    for _ in range(rng.choice([3, 10])):
        for _ in range(rng.randrange(often)):
            if not book.types or rng.random() < 0.03:
                kind = rng.choice(NAMES)
                name = f"chan{len(book.types)}"
                track, cmd = rng.random() < 0.8, rng.random() < 0.8
                init = None
                if rng.random() < 0.5:
                    init = (gen.value(rng, kind), rng.choice([None, when]))
                pick = rng.random()
                if pick < 0.2 and book.types:
                    # duplicates are refused, and leave no event behind
                    name = rng.choice(list(book.names.values()))
                elif pick < 0.3:
                    bad = gen.outside(rng, kind)
                    init = (bad, when)
                try:
                    ident = env.add_channel(
                        name, prim(kind), 1e9, track, init, cmd
                    )
                except AssertionError:
                    ctx.check(
                        pick < 0.3, "a registration was refused", name=name
                    )
                    ctx.count("refused")
                    continue
                ctx.check(
                    name not in book.names.values(),
                    "a duplicate was registered",
                )
                book.add(ident, name, kind, track, cmd)
                if init is not None:
                    book.change(ctx, ident, init[0], init[1] or 0.0)
                continue
            if rng.random() < 0.2:
                when += rng.choice([0.001, rng.random(), 100.0])
                env.set_time(when)
            ident = rng.choice(list(book.types)[:focus])
            operate(ctx, rng, env, book, ident, when)
        if rng.random() < 0.5:
            frames, events = env.dispatch_events(when)
            ctx.equal(
                events, len(book.waiting), "dispatch misreports its events"
            )
        else:
            frames = env.dispatch(when, rng.random() < 0.5)
        queued = drain(env)
        ctx.equal(len(queued), frames, "dispatch misreports its frames")
        compare(ctx, decode(ctx, queued, book.types, crc), book)
        ctx.distinct(len(book.waiting), len(queued))
        book.waiting = []
    ctx.equal(env.dispatch_events(when), (0, 0), "events came from nothing")
    ctx.sample({"channels": len(book.types), "mtu": mtu})


def compare(ctx, got, book):
    ctx.count("events", len(got))
    for num, want in enumerate(book.waiting):
        ctx.check(num < len(got), "an event was lost", expected=want)
        ok = got[num][0] == want[0] and millis_event(
            ctx, got[num], want[1:], book.types[want[0]]
        )
        ctx.check(
            ok, "an event isn't the change made", got=got[num], expected=want
        )
    ctx.check(
        len(got) == len(book.waiting), "an event came from nothing",
        extra=got[len(book.waiting) :],
    )


def plan(rng, env, book, count):
    """A writer's unique changes to one channel."""
    kind = rng.choice(["uint8", "int32", "double", "uint64"])
    ident = env.add_channel(
        f"chan{len(book.types)}", prim(kind), rng.choice([0.0, 1e9]), True
    )
    book.add(ident, f"chan{ident}", kind, True, True)
    changes, prev = [], (wire.TYPES[kind][2](), 0.0)
    for num in range(count):
        val = wire.TYPES[kind][2](num % 250 + 1)
        stamp = float(num + 1)
        changes.append((ident, prev, (val, stamp)))
        prev = (val, stamp)
    chan = env.channel_registry.get_item(ident)

    def write(start=0, end=None):
        for _, _, (val, stamp) in changes[start:end]:
            assert chan.set(val, stamp)

    return ident, changes, write


def verify_concurrent(ctx, env, book, expected, crc):
    env.dispatch(50.0, False)
    got = decode(ctx, drain(env), book.types, crc)
    ctx.count("events", len(got))
    for ident, changes in expected.items():
        mine = [e for e in got if e[0] == ident]
        ctx.equal(
            len(mine), len(changes), "events were lost or repeated",
            channel=ident, events=mine,
        )
        for event, want in zip(mine, changes):
            ctx.check(
                millis_event(ctx, event, want[1:], book.types[ident]),
                "events of a channel are out of order",
                got=mine, expected=changes,
            )
    ctx.equal(
        len(got), sum(len(c) for c in expected.values()), "made-up events"
    )


def preempted(ctx, rng, index):
    seed, state = rng.random(), {}

    def fresh():
        from vtelem.telemetry.environment import TelemetryEnvironment

        own = random.Random(seed)
        crc = own.random() < 0.5
        env, book = TelemetryEnvironment(60, 0.0, use_crc=crc), Book()
        expected, ops = {}, []
        early = own.random() < 0.5
        for _ in range(own.choice([1, 2])):
            ident, changes, write = plan(own, env, book, own.choice([2, 4, 9]))
            expected[ident] = changes
            if early:
                # events wait already
                half = len(changes) // 2 + 1
                write(0, half)
                early = False
                ops.append(lambda: env.dispatch(20.0, False))
                ops.append(lambda w=write, h=half: w(h))
            else:
                ops.append(write)
        for _ in range(own.choice([1, 2])):
            ops.append(lambda: env.dispatch(20.0, False))
        if own.random() < 0.5:
            own.shuffle(ops)
        state.update(env=env, book=book, expected=expected, crc=crc)
        return ops

    def verify(outs, _):
        sched.no_errors(outs)
        verify_concurrent(
            ctx, state["env"], state["book"], state["expected"], state["crc"]
        )

    sched.sweep(ctx, fresh, verify, rng, points=50, extra=15)


def stress(ctx, rng, index):
    from vtelem.telemetry.environment import TelemetryEnvironment

    crc = rng.random() < 0.5
    env, book = TelemetryEnvironment(200, 0.0, use_crc=crc), Book()
    expected, bodies = {}, []
    for _ in range(3):
        ident, changes, write = plan(rng, env, book, 60)
        expected[ident] = changes
        bodies.append(write)
    for _ in range(2):
        bodies.append(lambda: [env.dispatch(20.0, False) for _ in range(20)])
    sched.no_errors(sched.stress(ctx, rng, bodies))
    verify_concurrent(ctx, env, book, expected, crc)

def sharing(rng):
    """Writers that change the same channel: (state, bodies)."""
    from vtelem.telemetry.environment import TelemetryEnvironment

    crc = rng.random() < 0.5
    env, book = TelemetryEnvironment(rng.choice([80, 200]), 0.0, use_crc=crc), Book()
    kind = rng.choice(["int32", "int64", "double", "uint64"])
    make = wire.TYPES[kind][2]
    ident = env.add_channel("shared", prim(kind), rng.choice([0.0, 1e9]), True)
    book.add(ident, "shared", kind, True, True)
    chan = env.channel_registry.get_item(ident)
    return {
        "env": env, "book": book, "kind": kind, "make": make, "chan": chan,
        "crc": crc, "ops": {}, "ident": ident, "plans": [],
    }


def sharer(rng, state, count):
    """One thread's operations, each at a time of its own."""
    env, chan, make = state["env"], state["chan"], state["make"]
    mine = []
    for _ in range(count):
        num = len(state["ops"]) + 1
        how = rng.choice(["set", "add", "command", "increment"])
        value = make(num * 1000 if how in ("set", "command") else 1)
        state["ops"][num] = (how, value)
        mine.append((num, how, value))
    state["plans"].append([num for num, _, _ in mine])

    def run():
        for num, how, value in mine:
            when = float(num)
            if how == "set":
                assert chan.set(value, when)
            elif how == "add":
                assert chan.add(value, when)
            else:
                assert chan.command(value, when, how == "increment")
    return run


def verify_shared(ctx, state):
    """Events of all of the changes, each one following another."""
    env, book, chan = state["env"], state["book"], state["chan"]
    env.dispatch(10.0**6, False)
    got = decode(ctx, drain(env), book.types, state["crc"])
    ctx.count("events", len(got))
    value, when, seen = state["make"](0), 0, []
    for event in got:
        _, prev, curr = event
        ctx.equal(
            prev, (value, when), "an event doesn't follow the one before it",
        )
        value, when = curr
        num = when // 1000
        ctx.check(num in state["ops"], "a made-up event")
        how, given = state["ops"][num]
        if how in ("set", "command"):
            ctx.equal(value, given, "an event isn't the change made")
        else:
            ctx.equal(value, prev[0] + given, "an event isn't the change made")
        seen.append(num)
        ctx.count("shared_changes")
    ctx.equal(
        sorted(seen), sorted(state["ops"]), "events were lost or repeated"
    )
    for mine in state["plans"]:
        ctx.equal(
            [n for n in seen if n in mine], mine,
            "a thread's changes are out of order",
        )
    ctx.equal(chan.get(), value, "the last event isn't the last change")


def shared(ctx, rng, index):
    """Several writers of one channel, preempted."""
    seed, state = rng.random(), {}

    def fresh():
        own = random.Random(seed)
        state.clear()
        state.update(sharing(own))
        ops = [sharer(own, state, own.choice([1, 1, 3])) for _ in range(2)]
        if own.random() < 0.3:
            ops.append(lambda: state["env"].dispatch(20.0, False))
        return ops

    def verify(outs, _):
        sched.no_errors(outs)
        verify_shared(ctx, state)

    sched.sweep(ctx, fresh, verify, rng, points=50, extra=10)


def crowd(ctx, rng, index):
    """Many writers of one channel."""
    state = sharing(rng)
    bodies = [sharer(rng, state, 40) for _ in range(4)]
    bodies.append(lambda: [state["env"].dispatch(20.0, False) for _ in range(20)])
    sched.no_errors(sched.stress(ctx, rng, bodies))
    verify_shared(ctx, state)
    ctx.distinct("crowd", state["kind"], len(state["ops"]))


UNITS = {
    "history": (history, 500, 20000),
    "preempted": (preempted, 24, 400),
    "stress": (stress, 8, 200),
    "shared": (shared, 16, 300),
    "crowd": (crowd, 6, 120),
}
