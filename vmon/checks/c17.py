"""C17: enums map one to one, enum channels hold only members."""

import json

from vmon import sched, wire
from vmon.checks.c01 import drain
from vmon.checks.c03 import elements

RULE = (
    "a case defines random enums and compares every lookup with their "
    "definition, or drives an environment through registrations, channel "
    "creations, sets, commands and refusals and compares all its enum "
    "channels, types and counts with a model after each, or preempts such "
    "operations at every line; distinct = (operation, route, size, outcome)"
)
ASSUME = [
    "names of one enum differ by more than case, values are 0 to 255",
    "enum channels are set by member name",
]
REQUIRE = {
    "enums_defined": 250,
    "name_lookups": 5000,
    "value_lookups": 5000,
    "unknown_lookups": 2000,
    "registrations": 800,
    "refused": 800,
    "sets": 600,
    "states_checked": 2000,
    "interleavings": 80,
}
ERRORS = (AssertionError, KeyError)
WORDS = ["Idle", "RUN", "aB", "x_1", "Über", "ÇA", "go now", "a.b", "0", "ẞtop"]


def definition(rng, size=None):
    """Values and names."""
    size = size or rng.choice([1, 1, 2, 3, 5, 20, 256])
    if size == 256:
        values = list(range(256))
    else:
        values = rng.sample(range(256), size)
        if rng.random() < 0.4:
            values[0] = 0
            values = list(dict.fromkeys(values))
        if rng.random() < 0.2 and 255 not in values:
            values[-1] = 255
    names, used = {}, set()
    for val in values:
        name = rng.choice(WORDS)
        if name.lower() in used:
            name = f"{rng.choice(['v', 'V', 'Val'])}{val}"
        used.add(name.lower())
        names[val] = name
    return names


def anycase(rng, name):
    pick = rng.randrange(3)
    if pick == 0:
        return name
    swapped = name.swapcase() if pick == 1 else name.upper()
    return swapped if swapped.lower() == name.lower() else name


def refused(ctx, func, *args, **kwargs):
    try:
        func(*args, **kwargs)
    except ERRORS:
        ctx.count("refused")
        return True
    return False


def check_enum(ctx, rng, enum, names, default=None):
    lower = {val: name.lower() for val, name in names.items()}
    shown = json.loads(enum.json_str())
    for val, name in lower.items():
        ctx.equal(enum.get_str(val), name, "a value has another name")
        ctx.count("value_lookups")
        ctx.equal(
            enum.get_value(anycase(rng, names[val])), val,
            "a name has another value", name=name,
        )
        ctx.count("name_lookups")
        prim = enum.get_primitive(anycase(rng, name))
        ctx.equal((prim.get(), prim.size()), (val, 1), "another primitive")
    ctx.equal(list(enum), list(lower.values()), "an enum lists other names")
    want = list(lower.values())[0] if default is None else default
    ctx.equal(enum.default, want, "another default")
    unknown = [v for v in (-1, 0, 1, 7, 128, 255, 256) if v not in lower]
    for val in unknown:
        ctx.check(
            refused(ctx, enum.get_str, val), "an unknown value has a name",
            value=val,
        )
    for name in ("", "nope", "unknown", "none", lower[list(lower)[0]] + " "):
        if name not in lower.values():
            ctx.check(
                refused(ctx, enum.get_value, name),
                "an unknown name has a value", name=name,
            )
            ctx.check(
                refused(ctx, enum.get_primitive, name),
                "an unknown name has a primitive",
            )
            ctx.count("unknown_lookups")
    ctx.count("unknown_lookups", len(unknown))
    ctx.equal(
        json.loads(enum.json_str()), shown, "a lookup changed an enum"
    )
    ctx.equal(list(enum), list(lower.values()), "a lookup changed an enum")


def definitions(ctx, rng, index):
    from enum import IntEnum

    from vtelem.classes.user_enum import from_enum, user_enum

    names = definition(rng)
    given = dict(names)
    default = None
    if rng.random() < 0.4:
        default = rng.choice(list(names.values())).lower()
    args = () if default is None else (default,)
    label, snake = rng.choice(
        [("plain", "plain"), ("CamelCase", "camel_case"), ("X", "x"),
         ("already_snake", "already_snake"), ("HTTPMode", "http_mode")]
    )
    enum = user_enum(label, names, *args)
    ctx.equal(names, given, "the definition was changed")
    ctx.equal(enum.name, snake, "an enum has another name")
    check_enum(ctx, rng, enum, names, default)
    ctx.count("enums_defined")
    ctx.distinct("define", len(names), default is None, 0 in names)
    # from a class
    plain = {v: f"N{v}_{rng.choice('abC')}" for v in list(names)[:20]}
    made = from_enum(IntEnum(label, {n: v for v, n in plain.items()}))
    ctx.equal(made.name, snake, "an enum class has another name")
    check_enum(ctx, rng, made, plain)
    # what no enum can be
    for bad in ({}, {n: f"v{n}" for n in range(257)}):
        ctx.check(
            refused(ctx, user_enum, "bad", bad),
            "an impossible enum was accepted", size=len(bad),
        )
    if index < 3:
        ctx.sample({"names": names, "default": enum.default})


class World:
    """An environment and what it should hold."""

    def __init__(self, ctx, rng):
        from vtelem.classes.user_enum import user_enum
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.ctx, self.rng = ctx, rng
        initial = {
            f"init{n}": definition(rng, rng.choice([1, 3]))
            for n in range(rng.choice([0, 0, 1, 2]))
        }
        self.metrics = rng.random() < 0.7
        self.env = TelemetryEnvironment(
            2**11, 0.0, 0.5 if self.metrics else None, app_id_basis=1.0,
            initial_enums=[user_enum(n, d) for n, d in initial.items()]
            or None,
        )
        self.enums = {}
        self.ids = {}
        self.defaults = {}
        for num, (name, names) in enumerate(initial.items()):
            self.note(name, names, num)
        # what environments register themselves
        self.own = self.env.enum_registry.count() - len(initial)
        self.own_types = len(wire.TYPES)
        self.chans, self.plain = {}, {}
        self.metric_chans = {}
        self.judge()

    def note(self, name, names, ident, default=None):
        self.enums[name] = {v: n.lower() for v, n in names.items()}
        self.ids[name] = ident
        self.defaults[name] = default or list(self.enums[name].values())[0]

    def judge(self):
        ctx, env = self.ctx, self.env
        count = self.own + len(self.enums)
        ctx.equal(env.enum_registry.count(), count, "another enum count")
        types = self.own_types + count
        ctx.equal(env.type_registry.count(), types, "another type count")
        for name, ident in self.ids.items():
            ctx.equal(
                env.enum_registry.get_id(name), ident, "another enum id"
            )
            type_id = env.type_registry.get_id(name)
            ctx.check(type_id is not None, "an enum isn't among the types")
            ctx.equal(
                env.type_registry.get_type(type_id).value.size, 1,
                "an enum's type isn't one byte",
            )
            held = env.enum_registry.get_item(ident)
            ctx.equal(
                {held.get_value(n): n for n in held}, self.enums[name],
                "a registered enum changed",
            )
        if self.metrics:
            ctx.equal(
                env.get_metric("enum_count"), count,
                "another enum count is published",
            )
            ctx.equal(
                env.get_metric("type_count"), types,
                "another type count is published",
            )
        for name, (ident, enum, held) in self.chans.items():
            ctx.equal(
                env.get_enum_value(ident), held, "an enum channel's value",
                channel=name,
            )
            raw = env.get_value(ident)
            ctx.check(
                self.enums[enum].get(raw) == held,
                "an enum channel holds another value", raw=raw,
            )
            ctx.check(env.is_enum_channel(ident), "not an enum channel")
            if name in self.metric_chans:
                ctx.equal(
                    env.get_enum_metric(name), held, "an enum metric's value"
                )
        for name, (ident, held) in self.plain.items():
            ctx.equal(env.get_value(ident), held, "another channel changed")
            ctx.check(not env.is_enum_channel(ident), "an enum channel?")
        ctx.count("states_checked")


def act_register(world, rng):
    from enum import IntEnum

    from vtelem.classes.user_enum import user_enum

    ctx, env = world.ctx, world.env
    name = f"e{rng.randrange(8)}"
    names = definition(rng, rng.choice([1, 2, 4]))
    if rng.random() < 0.2:
        # by a class
        plain = {v: f"N{v}" for v in names}
        cls = IntEnum(name, {n: v for v, n in plain.items()})
        got = env.add_from_enum(cls)
        names, default = plain, None
    elif rng.random() < 0.25:
        # the name of another type
        bad = user_enum(rng.choice(list(wire.TYPES)), names)
        ctx.check(
            refused(ctx, env.add_enum, bad),
            "an enum with another type's name was accepted",
        )
        ctx.check(not env.has_enum(bad), "a refused enum is registered")
        return "conflict"
    else:
        default = rng.choice([None, list(names.values())[-1].lower()])
        enum = user_enum(name, names, default)
        ctx.equal(env.has_enum(enum), name in world.enums, "has_enum is wrong")
        got = env.add_enum(enum)
        ctx.check(env.has_enum(enum), "a registered enum is missing")
    ctx.count("registrations")
    if name in world.ids:
        ctx.equal(got, world.ids[name], "an enum registered again moved")
        return "again"
    ctx.equal(got, world.own + len(world.enums), "an enum got another id")
    world.note(name, names, got, default)
    return "new"


def act_channel(world, rng):
    ctx, env = world.ctx, world.env
    if not world.enums:
        return None
    enum = rng.choice(list(world.enums))
    name = f"c{rng.randrange(10)}"
    held = world.defaults[enum]
    kwargs = {}
    if rng.random() < 0.5:
        held = rng.choice(list(world.enums[enum].values()))
        kwargs["initial"] = (anycase(rng, held), rng.choice([None, 0.0, 2.0]))
    bad = None
    pick = rng.randrange(8)
    if pick == 0:
        enum, bad = "nope", "unknown enum"
    elif pick == 1:
        kwargs["initial"], bad = ("nope?", 1.0), "unknown member"
    known = name in world.chans or name in world.plain
    metric = rng.random() < 0.3
    before = env.channel_registry.count()
    tracked = rng.random() < 0.5
    if metric:
        if not world.metrics or known:
            # does nothing
            if name in world.metric_chans or not world.metrics:
                env.add_enum_metric(name, enum, tracked, **kwargs)
                ctx.equal(
                    env.channel_registry.count(), before,
                    "a metric was registered again",
                )
            return "metric again"
        call = (env.add_enum_metric, (name, enum, tracked))
    else:
        call = (env.add_enum_channel, (name, enum, rng.choice([0.0, 1.0]), tracked))
    if bad or known:
        ctx.check(
            refused(ctx, call[0], *call[1], **kwargs),
            "an impossible enum channel was accepted", why=bad or "duplicate",
        )
        ctx.equal(
            env.channel_registry.count(), before,
            "a refused enum channel is registered",
        )
        if not known:
            ctx.check(
                not env.has_channel(name) and not env.has_metric(name),
                "a refused enum channel is registered", why=bad,
            )
        return bad or "duplicate"
    got = call[0](*call[1], **kwargs)
    if metric:
        got = env.channel_registry.get_id(name)
        world.metric_chans[name] = got
    ctx.equal(got, before, "an enum channel got another id")
    world.chans[name] = (got, enum, held)
    ctx.count("registrations")
    return "metric" if metric else "channel"


def act_plain(world, rng):
    from vtelem.enums.primitive import Primitive

    name = f"p{len(world.plain)}"
    ident = world.env.add_channel(name, Primitive.UINT8, 1.0, False, (9, None))
    world.plain[name] = (ident, 9)
    world.ctx.check(
        refused(world.ctx, world.env.get_enum_value, ident),
        "a plain channel has a member",
    )
    world.ctx.check(
        refused(world.ctx, world.env.set_enum_now, ident, "nope"),
        "a plain channel was set by name",
    )
    return "plain"


def act_set(world, rng):
    ctx, env = world.ctx, world.env
    if not world.chans:
        return None
    name = rng.choice(list(world.chans))
    ident, enum, held = world.chans[name]
    metric = name in world.metric_chans
    want = rng.choice(list(world.enums[enum].values()))
    given = anycase(rng, want)
    bad = rng.random() < 0.3
    if bad:
        given = rng.choice(["nope!", "", want + "_", "unknown"])
        if given in world.enums[enum].values():
            return None
    routes = ["now", "id", "name"] + (["metric"] * 3 if metric else [])
    route = rng.choice(routes)
    call = {
        "now": (env.set_enum_now, ident), "metric": (env.set_enum_metric, name),
        "id": (env.command_enum_channel_id, ident),
        "name": (env.command_enum_channel, name),
    }[route]
    if bad:
        ctx.check(
            refused(ctx, *call, given), "an unknown member was set",
            route=route, given=given,
        )
        return "bad " + route
    result = call[0](call[1], given)
    ctx.count("sets")
    if route in ("id", "name") and metric:
        ctx.check(not result, "a metric was commanded")
        return "refused " + route
    ctx.check(
        result or route == "metric", "a member couldn't be set", route=route
    )
    world.chans[name] = (ident, enum, want)
    return route


def act_unknown(world, rng):
    """What isn't there."""
    ctx, env = world.ctx, world.env
    bad = rng.choice([-1, 10**6, env.channel_registry.count()])
    for call in (
        lambda: env.get_enum_value(bad),
        lambda: env.set_enum_now(bad, "a"),
        lambda: env.command_enum_channel_id(bad, "a"),
    ):
        ctx.check(refused(ctx, call), "an unknown channel was used")
    ctx.check(
        not env.command_enum_channel("nope", "a"), "an unknown channel was set"
    )
    ctx.check(not env.is_enum_channel(bad), "an unknown enum channel")
    if world.metrics:
        env.set_enum_metric("nope", "a")
        ctx.check(not env.has_metric("nope"), "an unknown metric appeared")
    return "unknown"


ACTS = [act_register, act_register, act_channel, act_channel, act_set,
        act_set, act_set, act_plain, act_unknown]


def scripted(ctx, rng, index):
    world = World(ctx, rng)
    for num in range(40):
        act = rng.choice(ACTS)
        what = act(world, rng)
        world.judge()
        if what is not None:
            ctx.distinct(act.__name__, what, len(world.enums), world.metrics)
        if rng.random() < 0.1:
            world.env.advance_time(1.0)
            world.env.dispatch_now(should_log=False)
            drain(world.env)
    shown = json.loads(world.env.enum_registry.describe())
    for name, ident in world.ids.items():
        ctx.equal(
            shown["enums"][str(ident)]["mappings"],
            {str(v): n for v, n in world.enums[name].items()},
            "a described enum differs",
        )
        type_id = world.env.type_registry.get_id(name)
        ctx.equal(
            shown["global_mappings"][str(type_id)], ident,
            "an enum's type is described as another enum's",
        )
    if index < 3:
        ctx.sample({"enums": world.enums, "channels": world.chans})


def exports(ctx, rng, index):
    """Enum registries exported to type registries on their own."""
    from vtelem.classes.user_enum import user_enum
    from vtelem.registry.enum import EnumRegistry
    from vtelem.registry.type import get_default
    from vtelem.telemetry.environment import TelemetryEnvironment

    enums, types = EnumRegistry(), get_default()
    start = types.count()
    known = []
    for num in range(rng.randint(1, 6)):
        for _ in range(rng.randint(0, 2)):
            name = f"e{len(known)}"
            known.append(name)
            ctx.check(enums.add_enum(user_enum(name, {1: "a"}))[0], "refused")
        ctx.check(enums.export(types), "an export failed")
        ctx.equal(types.count(), start + len(known), "another type count")
        for ident, name in enumerate(known):
            type_id = types.get_id(name)
            ctx.check(type_id is not None, "an enum isn't among the types")
            data = json.loads(enums.describe())
            ctx.equal(
                data["global_mappings"].get(str(type_id)), ident,
                "another mapping",
            )
            ctx.equal(types.get_type(type_id).value.size, 1, "another size")
            ctx.count("registrations")
    taken = rng.choice(list(wire.TYPES))
    enums.add_enum(user_enum(taken, {1: "a"}))
    kept = types.get_type(types.get_id(taken))
    ctx.check(not enums.export(types), "an enum with a type's name exported")
    ctx.check(types.get_type(types.get_id(taken)) is kept, "a type changed")
    ctx.equal(types.count(), start + len(known), "another type count")
    ctx.check(
        refused(
            ctx, TelemetryEnvironment, 512, app_id_basis=1.0,
            initial_enums=[user_enum(taken, {0: "a"})],
        ),
        "an initial enum with a type's name was accepted",
    )


def preempted(ctx, rng, index):
    """Registrations and sets of two threads, and a dispatch."""
    from vtelem.classes.user_enum import user_enum
    from vtelem.telemetry.environment import TelemetryEnvironment

    kind = ["enums", "channels", "sets"][index % 3]
    state = {}

    def make():
        env = TelemetryEnvironment(2**11, 0.0, 0.5, app_id_basis=1.0)
        first = env.enum_registry.count()
        env.add_enum(user_enum("base", {7: "seven", 9: "nine"}))
        fixed = env.add_enum_channel("fixed", "base", 0.0, True)
        state.update(env=env, first=first, fixed=fixed, got={}, seen=[])

        def add(names):
            def run():
                for name in names:
                    state["got"].setdefault(name, []).append(
                        env.add_enum(user_enum(name, {1: "a", 2: "b"}))
                    )
            return run

        def channel():
            state["new"] = env.add_enum_channel("late", "base", 0.0, True)

        def dispatch():
            env.dispatch(1.0, False)
            env.dispatch(2.0, False)

        def setter():
            for name in ("nine", "SEVEN", "nine"):
                env.set_enum_now(fixed, name)

        def reader():
            for _ in range(4):
                state["seen"].append(env.get_enum_value(fixed))

        if kind == "enums":
            return [add(["p", "q"]), add(["q", "r"])]
        if kind == "channels":
            return [channel, dispatch]
        return [setter, reader]

    def verify(outs, runner):
        sched.no_errors(outs)
        env = state["env"]
        if kind == "enums":
            ids = []
            for name, got in state["got"].items():
                ctx.equal(len(set(got)), 1, "an enum has several ids")
                ctx.equal(env.enum_registry.get_id(name), got[0], "another id")
                type_id = env.type_registry.get_id(name)
                ctx.check(type_id is not None, "not among the types")
                ids.append(got[0])
            ctx.equal(
                sorted(ids), list(range(state["first"] + 1, state["first"] + 4)),
                "ids aren't dense",
            )
        elif kind == "channels":
            types = {
                n: env.channel_registry.get_channel_type(n).name.lower()
                for n in range(env.channel_registry.count())
            }
            env.dispatch(3.0, False)
            frames = drain(env)
            for ident, value in elements(ctx, frames, types, True):
                if ident in (state["fixed"], state["new"]):
                    ctx.check(
                        value in (7, 9), "an enum channel emitted no member",
                        value=value, trace=runner.trace,
                    )
                    ctx.count("sets")
        else:
            ctx.check(
                set(state["seen"]) <= {"seven", "nine"}, "no member was read"
            )
            ctx.equal(env.get_enum_value(state["fixed"]), "nine", "another")
        ctx.equal(
            env.get_metric("enum_count"), env.enum_registry.count(),
            "another enum count is published", trace=runner.trace,
        )
        ctx.equal(
            env.get_metric("type_count"), env.type_registry.count(),
            "another type count is published", trace=runner.trace,
        )
        ctx.count("states_checked")
        ctx.distinct("preempted", kind, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng, 25 if quick else None, 4 if quick else 25
    )


UNITS = {
    "definitions": (definitions, 1560, 8000),
    "scripted": (scripted, 960, 5000),
    "exports": (exports, 180, 600),
    "preempted": (preempted, 27, 90),
}
