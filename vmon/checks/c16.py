"""C16: registries assign dense, stable, unique ids."""

import json

from vmon import gen, sched, wire

RULE = (
    "a case registers, refuses and looks up items in one kind of registry "
    "and compares every answer and its description with a model, or "
    "preempts concurrent registrations, lookups and descriptions at every "
    "line; distinct = (kind, operation, size, outcome) or preemption point"
)
ASSUME = ["items are of the kind the registry is for"]
REQUIRE = {
    "registered": 3000,
    "refused": 800,
    "lookups": 5000,
    "unknown_lookups": 1500,
    "descriptions": 1000,
    "interleavings": 150,
    "stress_runs": 8,
}
PRIMS = list(wire.TYPES)


class Kind:
    """How to use one kind of registry."""

    key = "things"
    extra = {}
    refuse_raises = False

    def __init__(self, rng):
        self.rng = rng

    def make(self):
        from vtelem.registry import Registry

        return Registry(self.key), []

    def name(self, name):
        return name

    def item(self, name, num):
        return {"num": num, "who": name}

    def add(self, reg, name, item):
        return reg.add(name, item)

    def show(self, item):
        return item


class Plain(Kind):
    pass


class Filled(Kind):
    """With initial data, of which some is refused."""

    def make(self):
        from vtelem.registry import Registry

        initial = [("a", 1), ("b", 2), ("a", 3), ("c", [1])]
        return Registry(self.key, initial), [
            ("a", initial[0][1]), ("b", 2), ("c", initial[3][1])
        ]


class Services(Kind):
    key = "services"

    def make(self):
        from vtelem.registry.service import ServiceRegistry

        if self.rng.random() < 0.5:
            first = [["0.0.0.0", 80]]
            return ServiceRegistry([("http", first)]), [("http", first)]
        return ServiceRegistry(), []

    def item(self, name, num):
        return [("localhost", num), ("::1", num + 1)][: self.rng.randint(0, 2)]

    def show(self, item):
        return [list(entry) for entry in item]


def prim_of(name):
    from vtelem.enums.primitive import Primitive

    return Primitive[name.upper()]


class Types(Kind):
    key = "types"

    def make(self):
        from vtelem.enums.primitive import Primitive
        from vtelem.registry.type import TypeRegistry, get_default

        if self.rng.random() < 0.3:
            return TypeRegistry(), []
        reg = get_default()
        known = {reg.get_id(n): n for n in PRIMS}
        assert sorted(known) == list(range(len(PRIMS))), known
        assert len(list(Primitive)) == len(PRIMS)
        return reg, [
            (known[n], prim_of(known[n])) for n in range(len(PRIMS))
        ]

    def item(self, name, num):
        return prim_of(self.rng.choice(PRIMS))

    def show(self, item):
        name = item.value.name
        kind = wire.TYPES[name][2]
        out = {
            "name": name, "size": wire.TYPES[name][1],
            "signed": name in ("float", "double")
            or (kind is int and name[0] != "u"),
            "integer": kind is int,
        }
        if kind is int:
            out["min"], out["max"] = wire.bounds(name)
        return out


class Channels(Kind):
    key = "channels"

    def make(self):
        from vtelem.channel.registry import ChannelRegistry

        if self.rng.random() < 0.5:
            return ChannelRegistry(), []
        some = [self.item(n, 0) for n in ("a", "b", "a")]
        return ChannelRegistry(some), [("a", some[0]), ("b", some[1])]

    def item(self, name, num):
        from vtelem.channel import Channel

        return Channel(
            name, prim_of(self.rng.choice(PRIMS)),
            self.rng.choice([0.0, 0.5, 1.0]),
            commandable=self.rng.random() < 0.5,
            is_stream=self.rng.random() < 0.2,
        )

    def add(self, reg, name, item):
        if item.name == name:
            return reg.add_channel(item)
        return reg.add(name, item)

    def show(self, item):
        prim = Types.show(self, item.type)
        return {
            "name": item.name, "rate": item.rate,
            "commandable": item.commandable,
            "type": {k: prim[k] for k in ("name", "signed", "size")},
        }


class Enums(Kind):
    key = "enums"
    extra = {"global_mappings": {}}

    def make(self):
        from vtelem.registry.enum import EnumRegistry

        if self.rng.random() < 0.5:
            return EnumRegistry(), []
        some = [self.item(n, 0) for n in ("a", "b", "a")]
        return EnumRegistry(some), [("a", some[0]), ("b", some[1])]

    def name(self, name):
        # enums have snake-case names
        return name.lower()

    def item(self, name, num):
        from vtelem.classes.user_enum import user_enum

        return user_enum(name, {0: "zero", num + 1: f"v{num}"})

    def add(self, reg, name, item):
        from enum import IntEnum

        assert item.name == name, (item.name, name)
        if name.isalpha() and name.isascii() and self.rng.random() < 0.2:
            values = {v.upper(): item.get_value(v) for v in item}
            cls = IntEnum(name, values)
            got = reg.add_from_enum(cls)
            if got[0]:
                # another, equal object was registered
                kept = reg.get_item(got[1])
                assert kept == item
                return got[0], got[1], kept
            return got
        return reg.add_enum(item)

    def show(self, item):
        return {
            "name": item.name, "type": "user_enum", "default": item.default,
            "mappings": {str(item.get_value(v)): v for v in item},
        }


class Groups(Kind):
    key = "channel_groups"
    refuse_raises = True

    def make(self):
        from vtelem.channel.group_registry import ChannelGroupRegistry
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.env = TelemetryEnvironment(512, 0.0, app_id_basis=1.0)
        return ChannelGroupRegistry(self.env), []

    def item(self, name, num):
        return None

    def add(self, reg, name, item):
        try:
            new = reg.create_group(name)
        except AssertionError:
            return False, -1
        group = reg.get_item(new)
        assert group.name == name
        if self.rng.random() < 0.7:
            reg.add_channel(new, "x", prim_of("uint8"), 1.0)
        return True, new, group

    def show(self, item):
        out = {"name": item.name, "channels": {}}
        for name in item.read():
            out["channels"][name] = self.env.channel_registry.get_id(
                f"{item.name}.{name}"
            )
        return out


KINDS = [Plain, Filled, Services, Types, Channels, Enums, Groups]


def judge(ctx, kind, reg, model):
    """The registry holds exactly the model's (name, item) pairs."""
    ctx.equal(reg.count(), len(model), "another count")
    for num, (name, item) in enumerate(model):
        ctx.equal(reg.get_id(name), num, "a name has another id", name=name)
        ctx.check(
            reg.get_item(num) is item or item == reg.get_item(num),
            "an id has another item", id=num, name=name,
        )
        ctx.count("lookups", 2)
    for bad in (-1, len(model), len(model) + 7, 1 << 40):
        ctx.check(reg.get_item(bad) is None, "an unknown id has an item")
        ctx.count("unknown_lookups")
    for bad in ("", "?", kind.key, "mappings", "0", "global_mappings"):
        if bad not in [n for n, _ in model]:
            ctx.check(reg.get_id(bad) is None, "an unknown name has an id")
            ctx.count("unknown_lookups")
    describe(ctx, kind, reg, model)


def describe(ctx, kind, reg, model):
    want = {
        kind.key: {str(n): kind.show(i) for n, (_, i) in enumerate(model)},
        "mappings": {name: n for n, (name, _) in enumerate(model)},
    }
    want.update(kind.extra)
    for indented in (False, True):
        text = reg.describe(indented)
        ctx.equal(
            json.loads(text), want, "a description differs from the contents"
        )
        ctx.count("descriptions")


NAMES = [
    "a", "b", "c", "x.y", "", "0", "mappings", "things", "types", "uint8",
    "é☃", "name with spaces", "q\"uote", "-1", "none",
]


def scripted(ctx, rng, index):
    kind = KINDS[index % len(KINDS)](rng)
    reg, model = kind.make()
    model = list(model)
    judge(ctx, kind, reg, model)
    size = rng.choice([3, 10, 40])
    for num in range(size):
        name = kind.name(
            rng.choice(NAMES) if rng.random() < 0.5 else f"n{num}"
        )
        if model and rng.random() < 0.2:
            name = rng.choice(model)[0]
        if kind.key == "enums" and not name:
            continue
        item = kind.item(name, num)
        got = kind.add(reg, name, item)
        known = name in [n for n, _ in model]
        if known:
            ctx.equal(
                tuple(got), (False, -1), "a duplicate name wasn't refused",
                name=name,
            )
            ctx.count("refused")
        else:
            ctx.equal(
                tuple(got[:2]), (True, len(model)),
                "a registration got another id", name=name,
            )
            model.append((name, got[2] if len(got) > 2 else item))
            ctx.count("registered")
        if kind.key == "channels" and model:
            pick = rng.randrange(len(model))
            ctx.check(
                reg.get_channel_type(pick) is model[pick][1].type,
                "a channel has another type",
            )
        elif kind.key == "types" and model:
            pick = rng.randrange(len(model))
            ctx.check(
                reg.get_type(pick) is model[pick][1], "another type"
            )
            ctx.check(reg.get_type(len(model)) is None, "an unknown type")
        elif kind.key == "enums":
            ctx.equal(
                tuple(reg.get_enum(item)),
                (True, [n for n, _ in model].index(name)),
                "an enum has another id",
            )
            fresh = kind.item("unheard", 1)
            ctx.equal(
                tuple(reg.get_enum(fresh)), (False, -1), "an unknown enum"
            )
            ctx.count("unknown_lookups")
        if rng.random() < 0.3:
            judge(ctx, kind, reg, model)
        ctx.distinct(kind.key, known, min(len(model), 12), name[:3])
    judge(ctx, kind, reg, model)
    if index < 3:
        ctx.sample({"kind": kind.key, "names": [n for n, _ in model][:20]})


def consistent(ctx, kind, text, trace=None):
    """One description seen while others register."""
    data = json.loads(text)
    names, items = data["mappings"], data[kind.key]
    ctx.equal(
        sorted(names.values()), list(range(len(names))),
        "a description shows ids that aren't dense", trace=trace,
    )
    ctx.equal(
        sorted(items, key=int), [str(n) for n in range(len(names))],
        "a description shows names without items", trace=trace,
    )
    ctx.count("descriptions")


def settle(ctx, kind, reg, base, results, trace=None):
    """Judge what concurrent registrations returned."""
    model = {n: pair for n, pair in enumerate(base)}
    won = {}
    for name, item, got in results:
        if got[0]:
            ctx.check(
                got[1] not in model, "an id was assigned twice", id=got[1],
                trace=trace,
            )
            ctx.check(
                name not in won, "a name was registered twice", name=name,
                trace=trace,
            )
            won[name] = got[1]
            model[got[1]] = (name, got[2] if len(got) > 2 else item)
            ctx.count("registered")
        else:
            ctx.equal(got[1], -1, "a refusal has an id", trace=trace)
            ctx.count("refused")
    ctx.equal(
        sorted(model), list(range(len(model))), "ids aren't dense",
        trace=trace,
    )
    names = [pair[0] for pair in model.values()]
    for name, _, got in results:
        ctx.check(
            got[0] or name in names, "a new name was refused", name=name,
            trace=trace,
        )
    judge(ctx, kind, reg, [model[n] for n in range(len(model))])


def looker(ctx, kind, reg, names, rounds, bad):
    """Looks things up: what has an id has an item, counts have items."""

    def run():
        last = {}
        for _ in range(rounds):
            for name in names:
                found = reg.get_id(name)
                if found is not None:
                    if reg.get_item(found) is None:
                        bad.append(f"{name} has an id but no item")
                    if last.get(name, found) != found:
                        bad.append(f"{name} changed its id")
                    last[name] = found
                elif name in last:
                    bad.append(f"{name} lost its id")
            total = reg.count()
            if total and reg.get_item(total - 1) is None:
                bad.append(f"{total} counted, the last has no item")
            consistent(ctx, kind, reg.describe())
            ctx.count("lookups", len(names) + 1)
    return run


def preempted(ctx, rng, index):
    state = {}
    cls = KINDS[index % len(KINDS)]
    looking = (index // len(KINDS)) % 2

    def make():
        kind = cls(rng)
        reg, base = kind.make()
        results = []
        bad = []

        def adder(names):
            items = [(n, kind.item(n, 3)) for n in names]

            def run():
                for name, item in items:
                    results.append((name, item, kind.add(reg, name, item)))
            return run

        state.update(kind=kind, reg=reg, base=base, results=results, bad=bad)
        first = adder(["p", "q"])
        if looking:
            return [first, looker(ctx, kind, reg, ["p", "q"], 1, bad)]
        return [first, adder(["q", "r", "p"])]

    def verify(outs, runner):
        sched.no_errors(outs)
        ctx.equal(
            state["bad"], [], "a lookup saw half a registration",
            trace=runner.trace,
        )
        settle(
            ctx, state["kind"], state["reg"], state["base"], state["results"],
            runner.trace,
        )
        ctx.distinct("preempted", cls.__name__, looking, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng, 25 if quick else None, 4 if quick else 30
    )


def stressed(ctx, rng, index):
    cls = KINDS[index % len(KINDS)]
    kind = cls(rng)
    reg, base = kind.make()
    results, bad = [], []
    todo = []
    for _ in range(3):
        names = [f"z{n}" for n in range(8)]
        rng.shuffle(names)
        todo.append([(n, kind.item(n, 1)) for n in names])

    def adder(which):
        def run():
            for name, item in todo[which]:
                results.append((name, item, kind.add(reg, name, item)))
        return run

    outs = sched.stress(
        ctx, rng,
        [adder(n) for n in range(3)]
        + [looker(ctx, kind, reg, [f"z{n}" for n in range(8)], 4, bad)],
    )
    sched.no_errors(outs)
    ctx.equal(bad, [], "a lookup saw half a registration")
    settle(ctx, kind, reg, base, results)


def environment(ctx, rng, index):
    """Channels and enums registered through an environment."""
    from vtelem.classes.user_enum import user_enum
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(
        512, 0.0, rng.choice([None, 1.0]), app_id_basis=1.0
    )
    for which in env.registries:
        ctx.check(
            env.registries[which].count()
            == len(json.loads(env.registries[which].describe())["mappings"]),
            "a registry's count differs from its contents",
        )
    chans, enums = {}, {}
    for num in range(20):
        name = f"c{rng.randrange(12)}"
        before = env.channel_registry.count()
        if rng.random() < 0.6:
            try:
                new = env.add_channel(
                    name, prim_of(rng.choice(PRIMS)), 1.0,
                    rng.random() < 0.5,
                )
                ctx.check(name not in chans, "a duplicate was accepted")
                ctx.equal(new, before, "a channel got another id")
                chans[name] = new
                ctx.count("registered")
            except AssertionError:
                ctx.check(name in chans, "a new channel was refused")
                ctx.equal(
                    env.channel_registry.count(), before,
                    "a refused channel counts",
                )
                ctx.count("refused")
        else:
            enum = user_enum("e" + name, {1: "one", num + 2: "more"})
            before = env.enum_registry.count()
            new = env.add_enum(enum)
            want = enums.setdefault(name, before)
            ctx.equal(new, want, "an enum got another id")
            ctx.equal(
                env.enum_registry.get_id("e" + name), want, "another id"
            )
            ctx.check(env.has_enum(enum), "an enum is missing")
            ctx.check(
                env.type_registry.get_id("e" + name) is not None,
                "an enum isn't among the types",
            )
        for known, num_ in chans.items():
            ctx.equal(env.channel_registry.get_id(known), num_, "another id")
            ctx.check(env.has_channel(known), "a channel is missing")
            ctx.count("lookups")
        ctx.check(not env.has_channel("nope"), "an unknown channel")
        ctx.count("unknown_lookups")
    for reg in env.registries.values():
        data = json.loads(reg.describe())
        ctx.equal(
            sorted(data["mappings"].values()), list(range(reg.count())),
            "ids aren't dense",
        )
        ctx.count("descriptions")


UNITS = {
    "scripted": (scripted, 1260, 7000),
    "preempted": (preempted, 42, 210),
    "stressed": (stressed, 42, 210),
    "environment": (environment, 360, 2000),
}
