"""C11: channel commands act on exactly the named channel, within its rules."""

import json
import math
import random

from vmon import gen, sched, wire
from vmon.checks.c01 import prim

RULE = (
    "a case is a history of generated channel commands (through a command "
    "service, or directly to the environment; correct and wrong in each "
    "field) on an environment with channels of all types and enum channels; "
    "after each, all channels are compared with a sequential model; distinct "
    "= (route, operation, type, commandable, how it is named, outcome)"
)
ASSUME = [
    "enum channels are commanded by the enum operations only",
    "booleans are not used as integers, nor NaN values",
]
REQUIRE = {
    "commands": 4000,
    "succeeded": 800,
    "failed": 1500,
    "gets": 200,
    "enum_sets": 80,
    "increments": 150,
    "direct": 500,
}
NAMES = list(wire.TYPES)
MISSING = object()


class World:
    """An environment and what its channels should hold."""

    def __init__(self, ctx, rng):
        from vtelem.classes.user_enum import user_enum
        from vtelem.daemon.command_queue import CommandQueueDaemon
        from vtelem.factories.telemetry_environment import (
            create_channel_commander,
        )
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.ctx = ctx
        self.env = TelemetryEnvironment(
            1000, 0.0, rng.choice([None, 1.0]), use_crc=rng.random() < 0.5
        )
        self.results = []
        self.daemon = CommandQueueDaemon("cmd")
        self.command = rng.choice(["channel", "chan", "a b"])
        kwargs = {}
        if self.command != "channel":
            kwargs["command_name"] = self.command
        self.own_cb = rng.random() < 0.5
        if self.own_cb:
            kwargs["result_cb"] = lambda *a: self.results.append(a)
        create_channel_commander(self.env, self.daemon, **kwargs)
        self.enums = {}
        for num in range(2):
            values = {0: "zero"}
            for _ in range(rng.randint(1, 5)):
                val = rng.choice([1, 2, 3, 7, 200, 255])
                values[val] = rng.choice(["one", "Two", "x_y", "v"]) + str(val)
            self.env.add_enum(user_enum(f"enum{num}", values))
            self.enums[f"enum{num}"] = {k: v.lower() for k, v in values.items()}
        self.chans = {}
        self.order = []
        for num in range(rng.choice([1, 3, 8, 14])):
            name = f"{rng.choice(['a', 'b.c', 'Ü', ''])}{num}"
            commandable = rng.random() < 0.7
            tracked = rng.random() < 0.5
            if rng.random() < 0.25:
                which = rng.choice(list(self.enums))
                members = self.enums[which]
                start = None
                value = 0
                if rng.random() < 0.5:
                    value = rng.choice(list(members))
                    start = (members[value], 0.0)
                ident = self.env.add_enum_channel(
                    name, which, 1.0, tracked, start, commandable
                )
                kind, enum = "uint8", which
            else:
                kind, enum = rng.choice(NAMES), None
                value = wire.TYPES[kind][2]()
                start = None
                if rng.random() < 0.7:
                    value = gen.value(rng, kind)
                    if isinstance(value, float) and not math.isfinite(value):
                        value = 1.5
                    start = (value, 0.0)
                ident = self.env.add_channel(
                    name, prim(kind), 1.0, tracked, start, commandable
                )
            self.chans[ident] = {
                "name": name, "kind": kind, "enum": enum, "value": value,
                "time": 0.0, "commandable": commandable,
            }
            self.order.append(ident)
        self.background = None

    def snapshot(self):
        out = {}
        for ident, name, item in self.registered():
            if ident in self.chans or name is None:
                out[ident] = (item.get(), item.last_set)
        return out

    def registered(self):
        reg = self.env.channel_registry
        for ident in range(reg.count()):
            yield ident, None, reg.get_item(ident)

    def others(self):
        """Channels that commands never touch (metrics)."""
        return {
            k: v for k, v in self.snapshot().items() if k not in self.chans
        }

    def judge(self, what):
        snap = self.snapshot()
        for ident, chan in self.chans.items():
            got = snap.pop(ident)
            self.ctx.check(
                wire.same(got[0], chan["value"])
                and type(got[0]) is type(chan["value"])
                and got[1] == chan["time"],
                "a channel isn't what the commands imply",
                got=got, expected=(chan["value"], chan["time"]),
                channel=chan["name"], after=what,
            )
        self.ctx.equal(snap, self.background, "a metric channel changed")


def legal(kind, val):
    return type(val) is wire.TYPES[kind][2] and gen.representable(kind, val)


def plus(value, amount):
    """What adding gives, or None if it can't be added."""
    try:
        return value + amount
    except TypeError:
        return None


def enum_name(rng, members):
    name = rng.choice(list(members.values()))
    return rng.choice([name, name.upper(), name.title()])


def pick_value(rng, world, chan):
    """A value for a set."""
    if chan["enum"]:
        members = world.enums[chan["enum"]]
        pick = rng.random()
        if pick < 0.6:
            return enum_name(rng, members)
        return rng.choice(
            ["nope", "", 0, 1, None, 255, ["zero"], "zero ", 0.0]
        )
    if rng.random() < 0.6:
        val = gen.value(rng, chan["kind"])
        return 2.5 if isinstance(val, float) and math.isnan(val) else val
    val = gen.outside(rng, chan["kind"])
    if wire.TYPES[chan["kind"]][2] is int and isinstance(val, bool):
        val = "x"
    if isinstance(val, float) and math.isnan(val):
        val = "nan"
    return val


def pick_amount(rng, chan):
    pick = rng.random()
    if pick < 0.5:
        val = rng.choice([0, 1, -1, 2, 100, -100, 1 << 31, -(1 << 63)])
    elif pick < 0.75:
        val = rng.choice([0.5, -1.0, 1e30, 1e39, -0.25])
    else:
        val = rng.choice(["1", None, [1], {}, "", []])
    return val


def apply_set(world, chan, val):
    """Whether a set succeeds; does it in the model."""
    if not chan["commandable"]:
        return False
    if chan["enum"]:
        members = world.enums[chan["enum"]]
        if not isinstance(val, str):
            return False
        found = [k for k, v in members.items() if v == val.lower()]
        if not found:
            return False
        chan["value"] = found[0]
        world.ctx.count("enum_sets")
    else:
        if not legal(chan["kind"], val):
            return False
        chan["value"] = val
    chan["time"] = world.env.get_time()
    return True


def apply_add(world, chan, amount, sign):
    if not chan["commandable"] or chan["enum"]:
        return False
    if not isinstance(amount, (int, float)):
        return False
    total = plus(chan["value"], sign * amount)
    if total is None or not legal(chan["kind"], total):
        return False
    if isinstance(total, float) and math.isnan(total):
        return None
    chan["value"] = total
    chan["time"] = world.env.get_time()
    world.ctx.count("increments")
    return True


def command(ctx, rng, world):
    """One command through the service."""
    ident = rng.choice(world.order)
    chan = world.chans[ident]
    data = {}
    named = rng.choice(["name", "id", "both"])
    aim = chan
    wrong = rng.random()
    if named in ("name", "both"):
        data["channel_name"] = chan["name"]
    if named in ("id", "both"):
        data["channel_id"] = ident
    if wrong < 0.08:
        # not an existing channel
        if "channel_name" in data:
            data["channel_name"] = rng.choice(
                ["nope", chan["name"] + "x", None, 3, ["a"], chan["name"] + " "]
            )
        else:
            data["channel_id"] = rng.choice(
                [-1, 1 << 20, None, "0", "a", [0], -2]
            )
        aim = None
    elif wrong < 0.16 and len(world.order) > 1:
        # a disagreement
        other = rng.choice([i for i in world.order if i != ident])
        data["channel_name"] = chan["name"]
        data["channel_id"] = rng.choice([other, other, None, str(ident), -1])
        aim = None
        named = "disagree"
    elif wrong < 0.2:
        data.pop("channel_name", None)
        data.pop("channel_id", None)
        aim = None
        named = "unnamed"
    oper = rng.choice(
        ["get", "set", "set", "set", "increment", "decrement"]
    )
    shown = oper
    if rng.random() < 0.08:
        shown = rng.choice(["SET", "", "add", None, 1, ["set"], "get ", MISSING])
        aim = None
    if shown is not MISSING:
        data["operation"] = shown
    value = MISSING
    if oper == "set":
        value = pick_value(rng, world, chan)
        if rng.random() < 0.05:
            value = MISSING
    elif oper in ("increment", "decrement"):
        value = pick_amount(rng, chan)
        if rng.random() < 0.4:
            value = MISSING
    elif rng.random() < 0.3:
        value = 5
    if value is not MISSING:
        data["value"] = value
    if rng.random() < 0.1:
        data["more"] = 1
    answer = None
    backup = dict(chan)
    if aim is None:
        expect = False
    elif oper == "get":
        expect = True
        answer = (
            world.enums[chan["enum"]][chan["value"]]
            if chan["enum"]
            else str(chan["value"])
        )
        ctx.count("gets")
    elif oper == "set":
        expect = value is not MISSING and apply_set(world, chan, value)
    else:
        amount = 1 if value is MISSING else value
        sign = 1 if oper == "increment" else -1
        expect = apply_add(world, chan, amount, sign)
        if expect is None:
            chan.update(backup)
            return None
    before = len(world.results)
    cmd = {"command": world.command, "data": data}
    try:
        if rng.random() < 0.5:
            cmd = json.loads(json.dumps(cmd))
    except (TypeError, ValueError):
        pass
    okay, message = world.daemon.execute(cmd)
    ctx.equal(
        bool(okay), expect, "a command's result is wrong", command=cmd,
        answer=message, kind=chan["kind"], channel=dict(backup),
    )
    if answer is not None:
        ctx.equal(message, answer, "a get answers another value")
    if world.own_cb:
        ctx.equal(
            [(bool(r[0]), r[1]) for r in world.results[before:]],
            [(bool(okay), message)],
            "the result callback saw other results",
        )
    ctx.count("succeeded" if expect else "failed")
    ctx.distinct(
        "service", oper, repr(shown) if shown is not oper else "",
        chan["kind"], bool(chan["enum"]), chan["commandable"], named,
        type(value).__name__, expect,
    )
    return cmd


def direct(ctx, rng, world):
    """One command straight to the environment."""
    ident = rng.choice(world.order)
    chan = world.chans[ident]
    env = world.env
    by_name = rng.random() < 0.5
    exists = rng.random() < 0.9
    value = pick_value(rng, world, chan)
    as_enum = chan["enum"] is not None
    if not exists:
        key = "nope" if by_name else rng.choice([-1, 1 << 20])
    else:
        key = chan["name"] if by_name else ident
    crossed = not as_enum and rng.random() < 0.05
    if crossed:
        as_enum, value = True, "zero"
    func = {
        (True, True): env.command_enum_channel,
        (True, False): env.command_enum_channel_id,
        (False, True): env.command_channel,
        (False, False): env.command_channel_id,
    }[as_enum, by_name]
    expect = False
    if exists and not crossed:
        expect = apply_set(world, chan, value)
    try:
        result = bool(func(key, value))
    except (AssertionError, AttributeError, TypeError, KeyError):
        result = False
    ctx.equal(
        result, expect, "a direct command's result is wrong",
        key=key, value=repr(value), channel=dict(chan),
    )
    ctx.count("direct")
    ctx.count("succeeded" if expect else "failed")
    ctx.distinct(
        "direct", by_name, as_enum, exists, chan["kind"],
        chan["commandable"], expect,
    )
    return (key, value)


def history(ctx, rng, index):
    world = World(ctx, rng)
    world.background = world.others()
    with world.daemon.booted():
        for _ in range(rng.choice([20, 60])):
            if rng.random() < 0.5:
                world.env.advance_time(rng.choice([0.25, 1.0, 0.0, 3.5]))
            if rng.random() < 0.75:
                what = command(ctx, rng, world)
            else:
                what = direct(ctx, rng, world)
            if what is None:
                continue
            ctx.count("commands")
            world.judge(what)
    ctx.sample(
        {c["name"]: (c["kind"], c["enum"], c["value"])
         for c in world.chans.values()}
    )


def together(ctx, rng, index):
    """Increments from several services never touch other channels."""
    world = World(ctx, rng)
    world.background = world.others()
    env = world.env
    from vtelem.enums.primitive import Primitive

    mine = [
        env.add_channel(f"own{i}", Primitive.INT32, 1.0, True) for i in range(3)
    ]

    def body(num):
        def run():
            wins = 0
            for step in range(25):
                okay, _ = world.daemon.execute(
                    {
                        "command": world.command,
                        "data": {
                            "operation": "increment" if step % 3 else "decrement",
                            "channel_id" if step % 2 else "channel_name": mine[
                                num
                            ]
                            if step % 2
                            else f"own{num}",
                            "value": step,
                        },
                    }
                )
                wins += okay
            return wins

        return run

    with world.daemon.booted():
        outs = sched.stress(ctx, rng, [body(i) for i in range(3)])
    sched.no_errors(outs)
    want = sum(s if s % 3 else -s for s in range(25))
    for num, out in enumerate(outs):
        ctx.equal(out.value, 25, "a command failed")
        ctx.equal(env.get_value(mine[num]), want, "increments were lost")
    for ident in mine:
        world.background[ident] = world.snapshot()[ident]
    count = world.env.metrics
    if count is not None:
        world.background[count["channel_count"]] = world.snapshot()[
            count["channel_count"]
        ]
    world.judge("stress")
    ctx.count("commands", 75)
    ctx.count("increments", 75)
    ctx.distinct("together", index)

def several(ctx, rng, index):
    """Several services and the application itself, all on one channel."""
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.enums.primitive import Primitive
    from vtelem.factories.telemetry_environment import (
        create_channel_commander,
    )
    from vtelem.telemetry.environment import TelemetryEnvironment

    seed, state = rng.random(), {}

    def fresh():
        own = random.Random(seed)
        env = TelemetryEnvironment(1000, 0.0, own.choice([None, 1.0]))
        ident = env.add_channel(
            "own", own.choice([Primitive.INT32, Primitive.DOUBLE]), 1.0, True
        )
        chan = env.channel_registry.get_item(ident)
        zero = chan.get()
        state.update(env=env, ident=ident, want=zero, answers=[])

        def service(steps):
            daemon = CommandQueueDaemon("cmd")
            create_channel_commander(env, daemon)
            for oper, amount in steps:
                data = {"operation": oper, "channel_name": "own"}
                if amount != 1 or own.random() < 0.5:
                    data["value"] = type(zero)(amount)
                daemon.enqueue(
                    {"command": "channel", "data": data},
                    lambda *a: state["answers"].append(a[0]),
                )
                state["want"] += amount if oper == "increment" else -amount
            daemon.queue.put(None)
            return daemon.run

        def some():
            return [
                (own.choice(["increment", "decrement"]), own.choice([1, 1, 5]))
                for _ in range(own.choice([1, 2]))
            ]

        def direct():
            assert chan.command(type(zero)(7), 0.5, True)

        bodies = [service(some())]
        if own.random() < 0.6:
            bodies.append(service(some()))
        else:
            bodies.append(direct)
            state["want"] += 7
        return bodies

    def verify(outs, _):
        sched.no_errors(outs)
        ctx.check(all(state["answers"]), "a command failed")
        ctx.equal(
            state["env"].get_value(state["ident"]), state["want"],
            "increments were lost",
        )
        ctx.count("increments", len(state["answers"]))
        ctx.count("commands", len(state["answers"]))

    sched.sweep(ctx, fresh, verify, rng, points=50, extra=5)
    ctx.distinct("several", index)


UNITS = {
    "history": (history, 1440, 9000),
    "together": (together, 18, 100),
    "several": (several, 24, 120),
}
