"""C19: channel groups are read and written atomically."""

import threading

from vmon import gen, sched, wire
from vmon.checks.c01 import drain, prim
from vmon.checks.c03 import elements
from vmon.checks.c04 import decode

RULE = (
    "a case drives groups through additions, writes, data contexts and "
    "refusals and compares every group and channel with a model, or preempts "
    "group writes, reads, additions, clock changes and dispatches at every "
    "line, with values that show which write they are from; distinct = "
    "(operation, kind of value, outcome) or preemption point"
)
ASSUME = [
    "channels of a group are written only through it where atomicity is judged",
    "the frame queue has room",
]
REQUIRE = {
    "writes": 1500,
    "reads": 1500,
    "contexts": 600,
    "refused": 500,
    "states_checked": 2500,
    "interleavings": 150,
    "combinations": 800,
    "dispatched": 200,
    "stress_runs": 8,
}
MEMBERS = {n: f"t{n}" for n in range(16)}
ERRORS = (AssertionError, KeyError)


def make_env(rng, metrics=None):
    from vtelem.classes.user_enum import user_enum
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(2**12, 0.0, metrics, app_id_basis=1.0)
    env.add_enum(user_enum("tags", MEMBERS))
    env.add_enum(user_enum("odd", {7: "seven", 200: "Many"}, "many"))
    return env


def types_of(env):
    return {
        n: env.channel_registry.get_channel_type(n).name.lower()
        for n in range(env.channel_registry.count())
    }


class World:
    """Groups and what they should hold."""

    def __init__(self, ctx, rng):
        from vtelem.channel.group_registry import ChannelGroupRegistry

        self.ctx, self.rng = ctx, rng
        self.env = make_env(rng, rng.choice([None, 1.0]))
        self.reg = ChannelGroupRegistry(self.env)
        self.groups, self.held, self.kinds, self.ids = {}, {}, {}, {}
        for num, name in enumerate(["a", "b", "a.b", "x y"][: rng.randint(1, 4)]):
            ident = self.reg.create_group(name)
            ctx.equal(ident, num, "a group got another id")
            self.groups[name] = (ident, self.reg.get_item(ident))
            self.held[name] = {}
        self.alone = self.env.add_channel(
            "alone", prim("int32"), 0.0, False, (42, None)
        )
        self.when = {}

    def judge(self):
        ctx, env = self.ctx, self.env
        for name, (_, group) in self.groups.items():
            ctx.equal(
                group.read(), self.held[name], "a group holds other values",
                group=name,
            )
            ctx.count("reads")
            for chan, value in self.held[name].items():
                full = f"{name}.{chan}"
                ident = env.channel_registry.get_id(full)
                ctx.check(ident is not None, "no channel with its prefix")
                ctx.equal(ident, self.ids[full], "a channel has another id")
                kind = self.kinds[full]
                got = (
                    env.get_enum_value(ident) if kind in ("tags", "odd")
                    else env.get_value(ident)
                )
                ctx.equal(got, value, "a channel holds another value")
                if full in self.when:
                    ctx.equal(
                        env.channel_registry.get_item(ident).last_set,
                        self.when[full], "a channel was set at another time",
                        channel=full,
                    )
        ctx.equal(env.get_value(self.alone), 42, "another channel changed")
        ctx.count("states_checked")

    def unlocked(self):
        """Any other thread can go on."""
        done = []

        def run():
            for _, group in self.groups.values():
                group.read()
            self.env.set_time(self.env.get_time())
            done.append(1)

        thread = threading.Thread(target=run, daemon=True)
        thread.start()
        thread.join(20)
        self.ctx.check(done, "a failed write left the environment locked")

    def good(self, full):
        kind = self.kinds[full]
        if kind == "tags":
            return MEMBERS[self.rng.randrange(16)]
        if kind == "odd":
            return self.rng.choice(["seven", "many"])
        while True:
            val = gen.value(self.rng, kind)
            # the held value is compared as it was given
            if val == val:
                return val

    def note(self, name, values):
        for chan, value in values.items():
            self.held[name][chan] = value
            self.when[f"{name}.{chan}"] = self.env.get_time()


def act_add(world, rng):
    ctx, env = world.ctx, world.env
    name = rng.choice(list(world.groups))
    ident, group = world.groups[name]
    chan = rng.choice(["v", "w", "b.v", "z", "é", f"n{rng.randrange(9)}"])
    full = f"{name}.{chan}"
    known = full in world.ids
    before = env.channel_registry.count()
    pick = rng.randrange(6)
    tracked = rng.random() < 0.4
    if pick == 0:
        result = group.add_enum_channel(chan, "nope", 1.0, tracked)
        ctx.check(not result, "an unknown enum was accepted")
        known = True
        kind = None
    elif pick <= 2:
        kind = rng.choice(["tags", "odd"])
        if rng.random() < 0.5:
            result = group.add_enum_channel(chan, kind, 0.0, tracked)
        else:
            world.reg.add_enum_channel(ident, chan, kind, 0.0, tracked)
            result = not known
        value = "t0" if kind == "tags" else "many"
    else:
        kind = rng.choice(list(wire.TYPES))
        if rng.random() < 0.5:
            result = group.add_channel(chan, prim(kind), 0.0, tracked)
        else:
            world.reg.add_channel(ident, chan, prim(kind), 0.0, tracked)
            result = not known
        value = wire.TYPES[kind][2]()
    ctx.equal(bool(result), not known, "an addition's result is wrong")
    if known:
        ctx.equal(
            env.channel_registry.count(), before, "a refusal added a channel"
        )
        ctx.count("refused")
        return "refused", kind
    ctx.equal(env.channel_registry.count(), before + 1, "not one channel more")
    world.ids[full], world.kinds[full] = before, kind
    world.held[name][chan] = value
    world.when[full] = env.get_time()
    return "added", kind


def values_for(world, rng, name):
    """New values, some of which can't be held; (given, kept)."""
    given, kept = {}, {}
    odd = False
    for chan in world.held[name]:
        if rng.random() < 0.3:
            continue
        full = f"{name}.{chan}"
        if rng.random() < 0.15 and world.kinds[full] in wire.TYPES:
            given[chan] = gen.outside(rng, world.kinds[full])
            odd = True
        else:
            given[chan] = kept[chan] = world.good(full)
    items = list(given.items())
    rng.shuffle(items)
    return dict(items), kept, odd


def spoil(world, rng, name, values):
    """Something that isn't there."""
    enums = [
        c for c in world.held[name]
        if world.kinds[f"{name}.{c}"] in ("tags", "odd")
    ]
    if enums and rng.random() < 0.6:
        bad = rng.choice(enums)
        values[bad] = rng.choice(["nope", "", "t99"])
    else:
        bad = "unheard of"
        items = list(values.items())
        items.insert(rng.randint(0, len(items)), (bad, 1))
        values.clear()
        values.update(items)
    return bad


def act_write(world, rng):
    ctx = world.ctx
    name = rng.choice(list(world.groups))
    _, group = world.groups[name]
    values, kept, odd = values_for(world, rng, name)
    bad = rng.random() < 0.2
    if bad:
        spoil(world, rng, name, values)
    given = dict(values)
    try:
        group.write(values)
        ctx.check(not bad, "an impossible write was accepted", values=given)
        world.note(name, kept)
        ctx.count("writes")
    except ERRORS:
        ctx.check(bad, "a write was refused", values=given)
        ctx.count("refused")
        world.unlocked()
    ctx.equal(values, given, "a write changed what it was given")
    return "bad" if bad else "odd" if odd else "good", len(values)


class Boom(Exception):
    pass


def act_context(world, rng):
    ctx = world.ctx
    name = rng.choice(list(world.groups))
    ident, group = world.groups[name]
    values, kept, odd = values_for(world, rng, name)
    raising = rng.random() < 0.4
    bad = None
    if rng.random() < 0.15:
        bad = spoil(world, rng, name, values)
    route = group.data() if rng.random() < 0.5 else world.reg.group(ident)
    inner = {}
    try:
        with route as data:
            ctx.equal(data, world.held[name], "a context shows other values")
            data.update(values)
            if rng.random() < 0.2 and data:
                # what isn't there isn't written
                gone = rng.choice(list(data))
                bad = None if gone == bad else bad
                del data[gone]
            inner = dict(data)
            ctx.equal(
                group.read(), world.held[name],
                "a context wrote before it was left",
            )
            # others go on
            world.unlocked()
            if raising:
                raise Boom()
        ctx.check(not raising, "an error got lost")
        ctx.check(not bad, "an impossible write was accepted")
    except Boom:
        ctx.check(raising and not bad, "an unexpected error")
    except ERRORS:
        ctx.check(bad, "leaving a context failed", values=values)
        ctx.count("refused")
        world.unlocked()
        return "bad", raising
    world.note(
        name, {c: v for c, v in inner.items() if c not in values or c in kept}
    )
    world.unlocked()
    ctx.count("contexts")
    ctx.count("writes")
    return ("odd" if odd else "good"), raising


def act_other(world, rng):
    env, ctx = world.env, world.ctx
    pick = rng.randrange(3)
    if pick == 0:
        env.advance_time(rng.choice([0.5, 1.0]))
        return "time", 0
    if pick == 1:
        for call in (
            lambda: world.reg.add_channel(99, "x", prim("int8"), 1.0),
            lambda: world.reg.add_enum_channel(-1, "x", "tags", 1.0),
            lambda: world.reg.create_group(rng.choice(list(world.groups))),
            lambda: world.reg.group(99).__enter__(),
        ):
            try:
                call()
                ctx.fail("an unknown or duplicate group was accepted")
            except ERRORS:
                ctx.count("refused")
        return "unknown", 0
    env.dispatch_now(should_log=False)
    got = dict(elements(ctx, drain(env), types_of(env), True))
    for name in world.held:
        for chan, value in world.held[name].items():
            full = f"{name}.{chan}"
            kind = world.kinds[full]
            if kind == "tags":
                kind, value = "uint8", int(value[1:])
            elif kind == "odd":
                kind, value = "uint8", {"seven": 7, "many": 200}[value]
            ctx.check(
                wire.same(got[world.ids[full]], wire.on_wire(kind, value)),
                "a dispatch emitted another value", channel=full,
            )
    ctx.count("dispatched")
    return "dispatch", 0


def scripted(ctx, rng, index):
    world = World(ctx, rng)
    for act in [act_add] * 4:
        act(world, rng)
    world.judge()
    for _ in range(24):
        act = rng.choice(
            [act_add, act_write, act_write, act_context, act_context, act_other]
        )
        what = act(world, rng)
        world.judge()
        ctx.distinct(act.__name__, *what)
    if index < 3:
        ctx.sample({"groups": world.held})


# atomicity -----------------------------------------------------------------
KINDS = ["uint8", "int32", "double", "float", "uint64", "tags"]


class Tagged:
    """A group whose values all show the same number after each write."""

    def __init__(self, rng, size=4):
        from vtelem.channel.group import ChannelGroup

        self.env = make_env(rng)
        self.group = ChannelGroup("g", self.env)
        self.kinds = {}
        self.ids = {}
        kinds = rng.sample(KINDS, 3) + [rng.choice(KINDS)]
        for num, kind in enumerate(kinds[:size]):
            self.add(f"c{num}", kind)

    def add(self, name, kind):
        if kind == "tags":
            assert self.group.add_enum_channel(name, kind, 0.0, True)
        else:
            assert self.group.add_channel(name, prim(kind), 0.0, True)
        self.kinds[name] = kind
        self.ids[name] = self.env.channel_registry.get_id(f"g.{name}")

    def encode(self, name, tag):
        kind = self.kinds[name]
        if kind == "tags":
            return MEMBERS[tag]
        return wire.TYPES[kind][2](tag)

    def values(self, tag):
        return {name: self.encode(name, tag) for name in self.kinds}

    def tags(self, values):
        """Tags seen in what was read."""
        return {
            int(v[1:]) if isinstance(v, str) else int(v)
            for v in values.values()
        }

    def judge_frames(self, ctx, batches, trace=None):
        """Frames, by dispatch."""
        ids = set(self.ids.values())
        types = types_of(self.env)
        for frames in batches:
            emitted = {
                int(v) for i, v in elements(ctx, frames, types, True)
                if i in ids
            }
            ctx.check(
                len(emitted) <= 1, "a dispatch emitted half a write",
                tags=sorted(emitted), trace=trace,
            )
            ctx.count("dispatched")
            ctx.count("combinations")
            chains, times = {}, {}
            for ident, prev, curr in decode(ctx, frames, types, True):
                if ident in ids:
                    chains.setdefault(ident, []).append(
                        (int(prev[0]), int(curr[0]))
                    )
                    times.setdefault(ident, []).append(curr[1])
            for what, seen in (("events", chains), ("times", times)):
                if seen:
                    ctx.check(
                        len(seen) == len(ids)
                        and len({str(v) for v in seen.values()}) == 1,
                        f"a dispatch has {what} of half a write", seen=seen,
                        trace=trace,
                    )


def preempted(ctx, rng, index):
    kind = ["read", "write", "dispatch", "time", "data", "add"][index % 6]
    state = {}

    def make():
        tagged = Tagged(rng)
        env, group = tagged.env, tagged.group
        seen, batches = [], []
        state.update(tagged=tagged, seen=seen, batches=batches)

        def write():
            for tag in (1, 2):
                if kind == "data":
                    with group.data() as data:
                        seen.append(dict(data))
                        data.update(tagged.values(tag))
                else:
                    group.write(tagged.values(tag))

        def read():
            for _ in range(2):
                seen.append(group.read())

        def other():
            group.write(tagged.values(3))
            seen.append(group.read())

        def dispatch():
            for num in range(2):
                env.dispatch(10.0 + num, False)
                batches.append(drain(env))

        def clock():
            env.advance_time(4.0)
            env.set_time(64.0)

        def data():
            with group.data() as values:
                seen.append(dict(values))
                values.update(tagged.values(5))

        def add():
            tagged.group.add_channel("late", prim("int8"), 0.0)
            tagged.group.add_enum_channel("later", "tags", 0.0)

        second = {
            "read": read, "write": other, "dispatch": dispatch,
            "time": clock, "data": data, "add": add,
        }[kind]
        if kind == "add":
            def reads():
                read()
                with group.data() as values:
                    seen.append(dict(values))
                seen.append(group.read())
            return [reads, second]
        return [write, second]

    def verify(outs, runner):
        sched.no_errors(outs)
        tagged, trace = state["tagged"], runner.trace
        env = tagged.env
        state["seen"].append(tagged.group.read())
        for values in state["seen"]:
            tags = tagged.tags(values)
            ctx.check(
                len(tags) == 1, "a read shows half a write", tags=sorted(tags),
                trace=trace,
            )
            ctx.check(
                set(values) >= set(tagged.kinds), "a read lacks channels"
            )
            ctx.count("combinations")
        last = tagged.tags(state["seen"][-1])
        ctx.check(
            last <= {"read": {2}, "dispatch": {2}, "time": {2}, "add": {0},
                     "write": {2, 3}, "data": {2, 5}}[kind],
            "a write got lost", tags=sorted(last), trace=trace,
        )
        env.dispatch(20.0, False)
        tagged.judge_frames(ctx, state["batches"] + [drain(env)], trace)
        times = {
            env.channel_registry.get_item(i).last_set
            for i in tagged.ids.values()
        }
        ctx.check(
            len(times) == 1, "a write happened at several times",
            times=sorted(times), trace=trace,
        )
        if kind == "add":
            ctx.check(
                {"late", "later"} <= set(tagged.group.read()),
                "an addition got lost", trace=trace,
            )
        ctx.count("writes", 2)
        ctx.distinct("preempted", kind, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng, 30 if quick else None, 5 if quick else 30
    )


def stressed(ctx, rng, index):
    tagged = Tagged(rng, 4)
    env, group = tagged.env, tagged.group
    seen, batches = [], []
    stop = threading.Event()

    def writer(base):
        def run():
            for num in range(12):
                tag = 1 + (base + num * 3) % 15
                if num % 3:
                    group.write(tagged.values(tag))
                else:
                    with group.data() as data:
                        seen.append(dict(data))
                        data.update(tagged.values(tag))
        return run

    def reader():
        for _ in range(30):
            seen.append(group.read())

    def dispatcher():
        for num in range(10):
            env.dispatch(10.0 + num, False)
            batches.append(drain(env))

    def clock():
        for num in range(20):
            env.set_time(100.0 + num)

    outs = sched.stress(
        ctx, rng, [writer(0), writer(1), reader, dispatcher, clock], 0.03
    )
    stop.set()
    sched.no_errors(outs)
    for values in seen:
        tags = tagged.tags(values)
        ctx.check(len(tags) == 1, "a read shows half a write", tags=list(tags))
        ctx.count("combinations")
    env.dispatch(500.0, False)
    tagged.judge_frames(ctx, batches + [drain(env)])
    ctx.count("writes", 24)


UNITS = {
    "scripted": (scripted, 420, 4500),
    "preempted": (preempted, 54, 240),
    "stressed": (stressed, 42, 240),
}
