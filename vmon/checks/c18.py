"""C18: serializables survive JSON, schemas accept exactly valid data."""

import copy
import io
import json
import os
import re
import tempfile

from vmon import wire

RULE = (
    "a case builds random enums, enum registries and primitives, passes "
    "them through strings, streams and messages a few times and compares "
    "data and behaviour, compares equality with the data of pairs, or breaks "
    "their data and compares validity with independent rules; distinct = "
    "(kind, route, size) or (kind, mutation, validity)"
)
ASSUME = [
    "compared objects are enums, enum registries or primitives",
    "a validator is used by one thread at a time",
]
REQUIRE = {
    "round_trips": 1500,
    "message_trips": 150,
    "behaviours": 1500,
    "pairs": 3000,
    "equal_pairs": 300,
    "validations": 3000,
    "valid": 400,
    "invalid": 1000,
    "encodings": 1500,
}
ERRORS = (AssertionError, KeyError)
WORDS = ["idle", "run", "go_on", "a", "zz", "Mixed", "é", "x y", "n1", "b_"]


def enum_names(rng, nice=False):
    size = rng.choice([1, 1, 2, 3, 8, 30])
    out, used = {}, set()
    for val in rng.sample(range(256), size):
        name = rng.choice(WORDS)
        if nice or name.lower() in used:
            letters = "abcdefghijklmnopqrstuvwxyz_"
            name = "".join(rng.choice(letters) for _ in range(rng.randint(1, 6)))
        if name.lower() in used:
            continue
        used.add(name.lower())
        out[val] = name
    return out


def make_enum(rng, name=None, nice=False, **kwargs):
    from vtelem.classes.user_enum import user_enum

    names = enum_names(rng, nice)
    default = rng.choice([None, list(names.values())[-1].lower()])
    label = name or rng.choice(["mode", "some_state", "x", "Camel"])
    return user_enum(label, names, default, **kwargs)


def make_registry(rng, nice=False, **kwargs):
    from vtelem.registry.enum_retry import EnumRegistry

    if rng.random() < 0.3:
        # with any identifiers
        enums = [
            make_enum(rng, f"enum_{chr(97 + num)}", nice)
            for num in range(rng.choice([1, 2, 5]))
        ]
        ids = rng.sample(range(rng.choice([8, 300])), len(enums))
        data = {
            "mappings": {i: e.name for i, e in zip(ids, enums)},
            "enums": {e.name: e.data for e in enums},
        }
        return EnumRegistry(data, **kwargs)
    reg = EnumRegistry(**kwargs)
    for num in range(rng.choice([0, 1, 3, 12])):
        got = reg.add(make_enum(rng, f"enum_{chr(97 + num)}", nice))
        assert got == num, (got, num)
    return reg


def make_prim(rng, **kwargs):
    from vtelem.enums.primitive import Primitive
    from vtelem.serializables.primitive import from_primitive

    return from_primitive(rng.choice(list(Primitive)), **kwargs)


MAKERS = {"enum": make_enum, "registry": make_registry, "prim": make_prim}


def normal(value):
    """Data as JSON would hold it."""
    return json.loads(json.dumps(value))


def behave_enum(enum):
    known = sorted(enum)
    return (
        enum.name, enum.default,
        [(n, enum.get_value(n), enum.get_value(n.upper()))
         for n in known if n.upper().lower() == n],
        [(enum.get_value(n), enum.get_str(enum.get_value(n))) for n in known],
        [enum.get_primitive(n).buffer() for n in known],
    )


def behave(kind, obj):
    """What an object does, as plain data."""
    if kind == "enum":
        return behave_enum(obj)
    if kind == "registry":
        out = []
        for ident in range(320):
            try:
                out.append((ident, behave_enum(obj.get_enum(ident))))
            except ERRORS:
                pass
        return obj.name, obj.curr_id, out
    return obj.name, obj.primitive


def sorted_keys(text):
    """Whether all keys are in order, numerically or as text."""
    good = []

    def look(pairs):
        keys = [k for k, _ in pairs]
        okay = keys == sorted(keys)
        if not okay and all(k.lstrip("-").isdigit() for k in keys):
            okay = keys == sorted(keys, key=int)
        good.append(okay)
        return dict(pairs)

    json.loads(text, object_pairs_hook=look)
    return all(good)


def by_message(ctx, rng, kind, obj):
    """Through message frames and a cache."""
    from vtelem.message.cache import from_temp_dir
    from vtelem.message.framer import MessageFramer
    from vtelem.types.frame import MessageType
    from vmon.checks.c07 import ingest, new_env

    mtype = {
        "enum": MessageType.ENUM, "registry": MessageType.ENUM_REGISTRY,
        "prim": MessageType.PRIMITIVE,
    }[kind]
    if rng.random() < 0.3:
        mtype = MessageType.JSON
    framer = MessageFramer(rng.choice([60, 200, 1400]), 0.5)
    kwargs = rng.choice([{}, {"indent": 1}, {"ensure_ascii": False}])
    frames, _ = framer.serialize_object(obj, None, mtype, **kwargs)
    raws = [bytes(f.raw[0][: f.raw[1]]) for f in frames]
    rng.shuffle(raws)
    got, env = [], new_env()
    with from_temp_dir({mtype: [lambda *a: got.append(a)]}) as cache:
        for raw in raws:
            ingest(env, cache, raw)
    ctx.equal(len(got), 1, "a message didn't arrive once")
    ctx.equal(got[0][0], mtype, "another message type")
    ctx.count("message_trips")
    return obj.load_str(bytes(got[0][2]).decode())


def trips(ctx, rng, index):
    kind = ["enum", "registry", "prim"][index % 3]
    with tempfile.TemporaryDirectory() as top:
        tempfile.tempdir = top
        try:
            one_trip(ctx, rng, index, kind)
        finally:
            tempfile.tempdir = None


def one_trip(ctx, rng, index, kind):
    obj = MAKERS[kind](rng)
    want, data = behave(kind, obj), copy.deepcopy(obj.data)
    text = obj.json_str()
    last = obj
    for num in range(4):
        route = rng.choice(["str", "stream", "indent", "args", "message"])
        if route == "message":
            new = by_message(ctx, rng, kind, last)
        elif route == "stream":
            with io.StringIO() as stream:
                last.json(stream)
                stream.seek(0)
                new = obj.load(stream)
        elif route == "indent":
            new = last.load_str(last.json_str(rng.choice([0, 2, 4])))
        elif route == "args":
            new = obj.load_str(
                last.json_str(separators=(",", ":"), ensure_ascii=False)
            )
        else:
            new = last.load_str(last.json_str())
        ctx.count("round_trips")
        ctx.check(type(new) is type(obj), "another kind of object")
        ctx.check(new is not last, "loading made no new object")
        ctx.check(
            new == obj and obj == new and not new != obj,
            "a loaded object isn't equal to the original", route=route,
            got=new.data, expected=data,
        )
        ctx.equal(hash(new), hash(obj), "equal objects hash differently")
        ctx.equal(new.data, data, "loaded data differs", route=route)
        ctx.equal(
            behave(kind, new), want, "a loaded object behaves differently",
            route=route,
        )
        ctx.count("behaviours")
        ctx.equal(
            new.json_str(), text, "equal objects encode differently",
            route=route,
        )
        ctx.count("encodings")
        ctx.distinct(kind, route, len(text) // 50)
        last = new
    ctx.check(sorted_keys(text), "an encoding isn't sorted by key", text=text)
    ctx.equal(normal(obj.data), json.loads(text), "another encoding")
    ctx.equal(obj.data, data, "encoding changed an object")
    if kind == "registry":
        # both go on alike, and apart from each other
        used = {ident for ident, _ in want[2]}
        for num in range(2):
            extra = make_enum(rng, f"late_{chr(97 + num)}")
            ctx.check(
                obj.curr_id + num not in used, "an identifier is used twice"
            )
            ctx.equal(
                last.add(extra), obj.curr_id + num,
                "a loaded registry assigns other ids",
            )
        ctx.equal(obj.data, data, "a loaded registry shares its data")
        for num in range(2):
            name = f"late_{chr(97 + num)}"
            before = last.json_str()
            try:
                last.add(make_enum(rng, name))
                ctx.fail("a duplicate enum was accepted")
            except ERRORS:
                pass
            ctx.equal(last.json_str(), before, "a refusal changed a registry")
        again = last.load_str(last.json_str())
        ctx.check(again == last, "a loaded registry isn't equal")
        ctx.equal(behave(kind, again), behave(kind, last), "behaves otherwise")
    if index < 3:
        ctx.sample({"kind": kind, "text": text})


def pairs(ctx, rng, index):
    """Equality is that of kind and data."""
    from vtelem.classes.user_enum import UserEnum
    from vtelem.serializables.primitive import SerializablePrimitive

    pool = []
    for _ in range(9):
        kind = rng.choice(list(MAKERS))
        pool.append((kind, MAKERS[kind](rng)))
    for kind, obj in list(pool):
        if rng.random() < 0.5:
            pool.append((kind, obj.load_str(obj.json_str())))
        elif kind == "enum":
            data = normal(obj.data)
            pick = rng.randrange(4)
            if pick == 0:
                data["default"] = rng.choice(list(obj))
            elif pick == 1:
                data["name"] += "x"
            elif pick == 2:
                free = [v for v in range(300) if str(v) not in data["mappings"]]
                data["mappings"][str(free[0])] = "another_one"
            # otherwise the same, in another order
            order = list(data.items())
            rng.shuffle(order)
            data = dict(order)
            order = list(data["mappings"].items())
            rng.shuffle(order)
            data["mappings"] = dict(order)
            pool.append(("enum", UserEnum(data)))
        elif kind == "prim":
            data = normal(obj.data)
            if rng.random() < 0.5:
                data["size"] += 1
            pool.append(("prim", SerializablePrimitive(data)))
    for one_kind, one in pool:
        for two_kind, two in pool:
            same = one_kind == two_kind and normal(one.data) == normal(two.data)
            ctx.equal(
                (one == two, one != two), (same, not same),
                "equality isn't that of the data", one=one.data, two=two.data,
            )
            ctx.count("pairs")
            if same:
                ctx.count("equal_pairs")
                ctx.equal(hash(one), hash(two), "equal objects hash apart")
                ctx.equal(
                    one.json_str(), two.json_str(), "equal objects encode apart"
                )
                ctx.count("encodings")
        for other in (None, 5, "x", one.data, object()):
            ctx.check(not one == other, "equal to something else")
    keyed = {}
    for kind, obj in pool:
        keyed[(kind, json.dumps(normal(obj.data), sort_keys=True))] = obj
    ctx.equal(
        len({obj for _, obj in pool}), len(keyed),
        "a set holds another number of objects",
    )


# rules, as documented ------------------------------------------------------
def is_int(val):
    return isinstance(val, int) and not isinstance(val, bool)


def is_text(val, pattern=None):
    return isinstance(val, str) and (
        pattern is None or re.fullmatch(pattern, val) is not None
    )


RULES = {
    "enum": {
        "default": is_text,
        "mappings": lambda v: isinstance(v, dict) and all(
            is_int(k) and is_text(x, "[a-z_]+") for k, x in v.items()
        ),
        "name": lambda v: is_text(v, "[a-z_]+"),
        "type": lambda v: v == "user_enum",
    },
    "prim": {
        "integer": lambda v: isinstance(v, bool), "max": is_int,
        "min": is_int, "name": is_text,
        "signed": lambda v: isinstance(v, bool), "size": is_int,
        "type": lambda v: v == "serializable_primitive",
    },
    "registry": {
        "enums": lambda v: isinstance(v, dict) and all(
            is_text(k) and isinstance(x, dict) for k, x in v.items()
        ),
        "mappings": lambda v: isinstance(v, dict) and all(
            is_int(k) and is_text(x) for k, x in v.items()
        ),
        "type": lambda v: v == "enum_registry",
    },
}
OPTIONAL = {("prim", "min"), ("prim", "max")}


def satisfies(kind, data, everything):
    rules = RULES[kind]
    if any(key not in rules for key in data):
        return False
    for key, rule in rules.items():
        if key not in data:
            if everything and (kind, key) not in OPTIONAL:
                return False
        elif not rule(data[key]):
            return False
    return True


JUNK = [None, 5, -1, 2.5, "", "text", "Upper", "a b", [], ["a"], {},
        {"a": 1}, {1: "a"}, {1: 2}, {"x": {}}, {1: "a1"}, {1: "ok", 2: "Bad"}]


def mutate(rng, kind, data):
    """Change data, for better or worse; returns what was done."""
    pick = rng.randrange(5)
    keys = list(data)
    if pick == 0 and keys:
        key = rng.choice(keys)
        del data[key]
        return f"drop {key}"
    if pick == 1:
        key = rng.choice(["extra", "Name", 3, "types"])
        data[key] = rng.choice(JUNK)
        return f"add {key}"
    if pick == 2:
        key = rng.choice(list(RULES[kind]))
        data[key] = copy.deepcopy(rng.choice(JUNK))
        return f"set {key}"
    if pick == 3 and isinstance(data.get("mappings"), dict):
        key = rng.choice([1, 77, "k", -4])
        data["mappings"][key] = rng.choice(
            ["fine", "not fine", "n0", None, 7, "under_score", "É", ""]
        )
        return f"map {key}"
    if pick == 4 and isinstance(data.get("enums"), dict):
        data["enums"][rng.choice(["more", 4])] = rng.choice([{}, None, "x", []])
        return "nest"
    if "name" in data:
        data["name"] = rng.choice(["fine_name", "Bad", "n1", "", None, "a-b"])
        return "rename"
    return "nothing"


def validity(ctx, rng, index):
    from vtelem.classes.serdes import SerializableParams
    from vtelem.schema.manager import SchemaManager

    kind = ["enum", "registry", "prim"][index % 3]
    everything = rng.random() < 0.7
    manager = SchemaManager()
    manager.load_package(require_all=everything)
    how = rng.choice(["manager", "params", "later"])
    cls = type(MAKERS[kind](rng))
    kwargs = {}
    if how == "manager":
        kwargs["manager"] = manager
    elif how == "params":
        kwargs["params"] = SerializableParams(schema=cls.schema(manager))

    def valid(obj):
        if how == "later":
            ctx.check(
                obj.validate(log=False), "invalid without any schema"
            )
            return obj.validate(log=False, manager=manager)
        return obj.validate(False)

    for _ in range(12):
        nice = rng.random() < 0.8
        base = (
            make_enum(rng, nice=nice) if kind == "enum"
            else make_registry(rng, nice) if kind == "registry"
            else make_prim(rng)
        )
        data = copy.deepcopy(base.data)
        obj = cls(copy.deepcopy(data), **kwargs)
        want = satisfies(kind, obj.data, everything)
        if how != "later":
            ctx.equal(obj.valid, want, "wrong validity", data=obj.data)
            again = obj.load_str(obj.json_str())
            ctx.equal(
                again.valid, want, "a loaded object's validity is wrong",
                data=obj.data, how=how,
            )
            ctx.count("validations", 2)
        else:
            ctx.check(obj.valid, "invalid without any schema")
        ctx.equal(bool(valid(obj)), want, "wrong validity", data=obj.data)
        for _ in range(rng.choice([1, 1, 2, 3])):
            what = mutate(rng, kind, obj.data)
            kept = copy.deepcopy(obj.data)
            want = satisfies(kind, obj.data, everything)
            ctx.equal(
                bool(valid(obj)), want, "wrong validity after a change",
                data=obj.data, change=what, everything=everything,
            )
            ctx.equal(obj.data, kept, "validation changed the data")
            ctx.count("validations")
            ctx.count("valid" if want else "invalid")
            ctx.distinct(kind, how, what, want, everything)
        # as built, if it can be
        try:
            built = cls(copy.deepcopy(obj.data), **kwargs)
        except Exception:  # pylint: disable=broad-except
            continue
        if how != "later":
            ctx.equal(
                built.valid, satisfies(kind, built.data, everything),
                "wrong validity as built", data=built.data,
            )
            ctx.count("validations")


def shipped(ctx, rng, index):
    """What the package itself defines is valid."""
    from vtelem.classes.user_enum import from_enum
    from vtelem.enums.daemon import DaemonOperation, DaemonState
    from vtelem.enums.primitive import Primitive
    from vtelem.registry.enum_retry import EnumRegistry
    from vtelem.schema.manager import SchemaManager
    from vtelem.serializables.primitive import get_all
    from vtelem.types.frame import FrameType, MessageType

    manager = SchemaManager()
    manager.load_package(require_all=True)
    reg = EnumRegistry(manager=manager)
    for cls in (DaemonOperation, DaemonState, FrameType, MessageType):
        enum = from_enum(cls)
        ctx.check(
            enum.validate(False, manager), "a shipped enum isn't valid",
            enum=enum.name,
        )
        again = enum.load_str(enum.json_str())
        ctx.check(again == enum, "a shipped enum doesn't survive JSON")
        for inst in cls:
            ctx.equal(again.get_str(inst.value), inst.name.lower(), "another")
        reg.add_from_enum(cls)
        ctx.count("round_trips")
    ctx.check(
        reg.validate(False, manager) and reg.load_str(reg.json_str()) == reg,
        "a registry of shipped enums isn't valid",
    )
    every = get_all(manager=manager)
    ctx.equal(
        {p.primitive for p in every}, set(Primitive), "other primitives"
    )
    ctx.equal(len(every), len(wire.TYPES), "another number of primitives")
    for prim in every:
        ctx.check(prim.valid, "a primitive isn't valid", prim=prim.name)
        again = prim.load_str(prim.json_str())
        ctx.check(
            again.valid and again.primitive is prim.primitive,
            "a primitive doesn't survive JSON",
        )
        size = wire.TYPES[prim.name][1]
        ctx.equal(prim.data["size"], size, "another size")
        if prim.data["integer"]:
            ctx.equal(
                (prim.data["min"], prim.data["max"]), wire.bounds(prim.name),
                "other bounds",
            )
        ctx.count("behaviours")


def custom(ctx, rng, index):
    """Own kinds, with schemas from files."""
    from vtelem.classes.serdes import Serializable
    from vtelem.schema.manager import SchemaManager

    class Custom(Serializable):
        pass

    class Other(Serializable):
        pass

    with tempfile.TemporaryDirectory() as top:
        path = os.path.join(top, "Custom.json")
        top_value = rng.randint(0, 9)
        schema = {
            "count": {"type": "integer", "max": top_value},
            "type": {"type": "string"},
        }
        with open(path, "w", encoding="utf-8") as out:
            json.dump(schema, out)
        manager = SchemaManager()
        from pathlib import Path

        if rng.random() < 0.5:
            manager.add(Path(path), require_all=True)
            try:
                manager.add(Path(path))
                ctx.fail("a duplicate schema was accepted")
            except AssertionError:
                pass
        else:
            manager.load_dir(Path(top), require_all=True)
    for _ in range(8):
        data = {"count": rng.choice([0, top_value, top_value + 1, "x"])}
        if rng.random() < 0.2:
            data = {}
        obj = Custom(dict(data), manager=manager)
        want = isinstance(data.get("count"), int) and data["count"] <= top_value
        ctx.equal(obj.valid, want, "wrong validity", data=data)
        again = obj.load_str(obj.json_str())
        ctx.check(
            again == obj and type(again) is Custom, "doesn't survive JSON"
        )
        ctx.equal(again.valid, want, "wrong validity of a loaded object")
        ctx.check(
            not obj == Other(dict(data)) and not Other(dict(data)) == obj,
            "equal to another kind",
        )
        ctx.count("valid" if want else "invalid")
        ctx.count("validations", 2)
        ctx.count("round_trips")
        # only its own kind's
        try:
            Other(dict(data), manager=manager)
            ctx.fail("a kind without a schema was validated")
        except KeyError:
            pass

def keyed(ctx, rng, index):
    """Own kinds with integer keys somewhere in their data."""
    from vtelem.classes.serdes import Serializable

    depth = rng.randint(1, 4)
    where = [rng.choice("abc") + str(n) for n in range(depth)]
    mapping = {
        rng.choice([num, num * 1000, -num]): rng.choice(["x", 1, [1], {"1": 2}])
        for num in range(rng.randint(0, 6))
    }

    class Keyed(Serializable):
        def init(self, data):
            self.coerce_int_keys(where[:], data)

    def build(leaf):
        top = {"9": "text key"}
        spot = top
        for name in where[:-1]:
            spot[name] = {"7": "text key", "same": {"3": 4}}
            spot = spot[name]
        spot[where[-1]] = leaf
        return top

    def leaf_of(obj):
        spot = obj.data
        for name in where:
            spot = spot[name]
        return spot

    obj = Keyed(build(dict(mapping)))
    want = build(dict(mapping))
    want["type"] = obj.data["type"]
    ctx.equal(obj.data, want, "integer keys change the data")
    for trip in range(3):
        again = obj.load_str(obj.json_str())
        ctx.check(again == obj, "doesn't survive JSON", where=where)
        ctx.equal(again.data, want, "doesn't survive JSON", where=where)
        ctx.equal(
            sorted(leaf_of(again), key=repr), sorted(mapping, key=repr),
            "integer keys don't survive JSON",
        )
        ctx.equal(again.json_str(), obj.json_str(), "another encoding")
        ctx.check(hash(again) == hash(obj), "equal objects hash differently")
        obj = again
        ctx.count("round_trips")
    given = Keyed(build({str(k): v for k, v in mapping.items()}))
    ctx.check(given == obj, "integer keys from text differ")
    ctx.distinct("keyed", depth, len(mapping))


UNITS = {
    "trips": (trips, 3000, 15000),
    "pairs": (pairs, 240, 1200),
    "validity": (validity, 720, 4000),
    "shipped": (shipped, 9, 10),
    "custom": (custom, 180, 600),
    "keyed": (keyed, 360, 1000),
}
