"""C05: primitives hold only values of their type, and encode them exactly."""

import math
import struct

from vmon import gen, wire
from vmon.checks.c01 import prim

RULE = (
    "a case is a history of sets and increments of one primitive, or of "
    "positioned reads, writes, appends and consumptions of one buffer, run "
    "against a model; 'exhaustive' tries every 8 and 16-bit value and its "
    "neighbourhood; distinct = (operation, type, verdict, relative position)"
)
ASSUME = [
    "booleans given to integer primitives are not judged (a bool is an int)",
]
REQUIRE = {
    "sets.accepted": 2000,
    "sets.refused": 2000,
    "adds.accepted": 300,
    "adds.refused": 300,
    "buffer_ops": 10000,
    "reads.refused": 200,
    "immutable": 100,
}
NAMES = list(wire.TYPES)


def fits(kind, val):
    """Whether a primitive of this kind may hold a value."""
    want = wire.TYPES[kind][2]
    if want is bool:
        return isinstance(val, bool)
    if want is int:
        low, high = wire.bounds(kind)
        return isinstance(val, int) and low <= val <= high
    if not isinstance(val, float):
        return False
    if kind == "double" or math.isnan(val) or math.isinf(val):
        return True
    # rounding to single precision must stay finite
    limit = (2.0 - 2.0**-23) * 2.0**127
    half = 2.0**103
    return abs(val) < limit + half


def identical(left, right):
    if type(left) is not type(right):
        return False
    if isinstance(left, float):
        return struct.pack(">d", left) == struct.pack(">d", right)
    return left == right


def candidate(rng, kind):
    pick = rng.random()
    if pick < 0.45:
        return gen.value(rng, kind)
    if pick < 0.9:
        val = gen.outside(rng, kind)
        return val
    if kind == "float":
        limit = (2.0 - 2.0**-23) * 2.0**127
        edge = limit + 2.0**103
        return rng.choice(
            [limit, -limit, edge, -edge, math.nextafter(edge, 0.0), math.nan,
             math.nextafter(edge, math.inf), -math.nextafter(edge, 0.0)]
        )
    if wire.TYPES[kind][2] is float:
        return math.nan
    return gen.value(rng, kind)


def holding(ctx, rng, index):
    """Sets, increments and encodings of one primitive."""
    from vtelem.classes.byte_buffer import ByteBuffer
    from vtelem.classes.type_primitive import TypePrimitive
    from vtelem.channel import Channel

    kind = NAMES[index % len(NAMES)]
    want = wire.TYPES[kind][2]
    calls = []
    pick = rng.randrange(3)
    if pick == 0:
        item = TypePrimitive(prim(kind))
    elif pick == 1:
        item = TypePrimitive(prim(kind), lambda p, c: calls.append((p, c)))
    else:
        item = Channel("chan", prim(kind), 1.0)
    ctx.check(
        identical(item.get(), want()), "a new primitive isn't zero",
        got=repr(item.get()),
    )
    ctx.equal(item.size(), wire.TYPES[kind][1], "wrong size")
    value, when = want(), 0.0
    for _ in range(40):
        stamp = rng.choice([None, gen.time_value(rng)])
        adding = rng.random() < 0.35
        if adding:
            delta = rng.choice([1, -1, 0, 0.5, -1.0, 1 << 20, -(1 << 33)])
            if rng.random() < 0.4 and want is not bool:
                delta = gen.value(rng, kind)
                if rng.random() < 0.5 and want is int:
                    low, high = wire.bounds(kind)
                    delta = rng.choice([low, high]) - value
                    delta += rng.choice([0, 0, 1, -1])
            new = value + delta
            op = "adds"
        else:
            new = candidate(rng, kind)
            if want is int and isinstance(new, bool):
                continue
            op = "sets"
        ok = fits(kind, new)
        if adding:
            got = item.add(delta, stamp)
        else:
            got = item.set(new, stamp)
        ctx.equal(
            bool(got), ok, f"{op}: wrong verdict", kind=kind, value=repr(new)
        )
        ctx.count(f"{op}.{'accepted' if ok else 'refused'}")
        ctx.distinct(op, kind, ok, type(new).__name__, repr(new)[:6])
        if ok:
            value, when = want(new), stamp if stamp is not None else 0.0
        ctx.check(
            identical(item.get(), value), "wrong value held",
            kind=kind, got=repr(item.get()), expected=repr(value),
        )
        ctx.equal(item.last_set, when, "wrong time of the last set")
        order = rng.choice(["!", ">", "<"])
        raw = struct.pack(
            ("<" if order == "<" else ">") + wire.TYPES[kind][0][1:], value
        )
        ctx.equal(bytes(item.buffer(order)), raw, "wrong encoding", kind=kind)
        # at any position of any content
        size = rng.choice([0, 1, 7, 40])
        start = bytearray(rng.randbytes(size))
        buf = ByteBuffer(bytearray(start), size=size, order=order)
        here = rng.randint(0, size)
        buf.set_pos(here)
        pos = rng.choice([None, rng.randint(0, size), size, size + 3])
        ctx.equal(item.write(buf, pos), len(raw), "wrong size written")
        at = here if pos is None else pos
        model = bytearray(start)
        if len(model) < at + len(raw):
            model += bytes(at + len(raw) - len(model))
        model[at : at + len(raw)] = raw
        ctx.equal(buf.size, len(model), "wrong buffer size after a write")
        ctx.equal(
            bytes(buf.data[: buf.size]), bytes(model),
            "a write isn't exactly the value's bytes", pos=pos, kind=kind,
        )
        ctx.equal(
            buf.get_pos(), at + len(raw) if pos is None else here,
            "wrong position after a write",
        )
        other = TypePrimitive(prim(kind))
        buf.set_pos(at if pos is None else here)
        got = other.read(buf, pos)
        expect = struct.unpack(
            ("<" if order == "<" else ">") + wire.TYPES[kind][0][1:], raw
        )[0]
        ctx.check(
            wire.same(got, expect) and type(got) is want,
            "a value doesn't read back", kind=kind, got=repr(got),
        )
        ctx.check(
            wire.same(other.get(), expect), "a read value isn't held"
        )
        if math.isfinite(expect) and wire.same(expect, value):
            ctx.check(other == item, "a copy isn't equal", value=repr(value))
            changed = gen.value(rng, kind)
            assert other.set(changed)
            sizes = abs(float(changed)), abs(float(value))
            if max(sizes) < 1 << 50 and abs(changed - value) >= 0.5:
                ctx.check(
                    not other == item, "different values are equal",
                    values=(repr(value), repr(changed)),
                )
        foreign = TypePrimitive(prim(rng.choice(NAMES)))
        if foreign.type is not prim(kind):
            ctx.check(not foreign == item, "different types are equal")
        ctx.equal(
            buf.get_pos(), at + len(raw) if pos is None else here,
            "wrong position after a read",
        )
    ctx.sample({"kind": kind, "value": repr(value)})


def refused(ctx, func, message, errors=(AssertionError,)):
    try:
        func()
    except errors:
        ctx.count("reads.refused")
        return
    ctx.fail(message)


def buffers(ctx, rng, index):
    """A buffer against a plain model."""
    from vtelem.classes.byte_buffer import ByteBuffer, crc
    from vtelem.classes.type_primitive import TypePrimitive

    size = rng.choice([0, 0, 5, 30])
    content = bytearray(rng.randbytes(size))
    little = rng.random() < 0.3
    mark = "<" if little else ">"
    if size or rng.random() < 0.5:
        buf = ByteBuffer(
            bytearray(content), size=size, order="<" if little else "!"
        )
    else:
        buf = ByteBuffer(order="<" if little else "!")
    pos = 0
    for _ in range(60):
        kind = rng.choice(NAMES)
        fmt, width, _ = wire.TYPES[kind]
        fmt = mark + fmt[1:]
        act = rng.randrange(10)
        where = None
        if act in (0, 1, 5) and rng.random() < 0.4:
            where = rng.randint(0, len(content) + rng.choice([0, 0, 4]))
        at = pos if where is None else where
        if act in (0, 5):
            val = gen.value(rng, kind)
            raw = struct.pack(fmt, val)
            if act == 0:
                item = TypePrimitive(prim(kind))
                assert item.set(val)
                got = item.write(buf, where)
            else:
                with buf.with_pos(where):
                    got = buf.write(prim(kind), val)
            ctx.equal(got, width, "wrong size written")
            if len(content) < at + width:
                content += bytes(at + width - len(content))
            content[at : at + width] = raw
            if where is None:
                pos += width
        elif act == 1:
            ok = len(content) - at >= width
            with buf.with_pos(where):
                ctx.equal(
                    bool(buf.can_read(prim(kind))), ok, "can_read is wrong"
                )
            item = TypePrimitive(prim(kind))
            if not ok:
                refused(
                    ctx, lambda: item.read(buf, where),
                    "a read past the end was not refused",
                )
            else:
                got = item.read(buf, where)
                expect = struct.unpack_from(fmt, content, at)[0]
                ctx.check(
                    wire.same(got, expect), "a read gives other bytes",
                    got=repr(got), expected=repr(expect),
                )
                if where is None:
                    pos += width
        elif act == 2:
            count = rng.randint(0, len(content) + 4)
            if count > len(content) - pos:
                refused(
                    ctx, lambda: buf.read_bytes(count),
                    "a read past the end was not refused",
                )
            else:
                ctx.equal(
                    bytes(buf.read_bytes(count)),
                    bytes(content[pos : pos + count]),
                    "a read gives other bytes",
                )
                pos += count
        elif act == 3:
            extra = rng.randbytes(rng.choice([0, 1, 4, 20]))
            limit = rng.choice([None, rng.randint(0, len(extra))])
            if pos > len(content):
                continue
            length = len(extra) if limit is None else limit
            ctx.equal(
                buf.append(extra, limit), length, "append's result is wrong"
            )
            # appending at the end of some content moves behind it
            if pos == len(content) and content:
                pos += length
            content += extra[:length]
        elif act == 4:
            new = rng.choice([0, rng.randint(0, len(content))])
            buf.set_pos(new)
            pos = new
        elif act == 6:
            # consume from the front
            buf.set_pos(0)
            pos = 0
            count = rng.randint(0, min(12, len(content)))
            if rng.random() < 0.5 and len(content) >= width:
                expect = struct.unpack_from(fmt, content, 0)[0]
                got = buf.read(prim(kind), True)
                ctx.check(wire.same(got, expect), "a read gives other bytes")
                content = content[width:]
            else:
                ctx.equal(
                    bytes(buf.read_bytes(count, True)),
                    bytes(content[:count]),
                    "a read gives other bytes",
                )
                content = content[count:]
        elif act == 7:
            ctx.equal(
                buf.crc32(), wire.binascii.crc32(content), "wrong crc"
            )
            cut = rng.randint(0, len(content))
            ctx.equal(
                crc(bytes(content), cut),
                wire.binascii.crc32(content[:cut]),
                "wrong crc",
            )
        elif act == 8:
            # positions are restored even if the body fails
            try:
                with buf.with_pos(rng.randint(0, len(content))):
                    raise KeyError
            except KeyError:
                pass
        elif rng.random() < 0.05:
            buf.reset()
            content, pos = bytearray(), 0
        ctx.equal(buf.size, len(content), "wrong buffer size", act=act)
        ctx.equal(
            bytes(buf.data[: buf.size]), bytes(content),
            "wrong buffer content", act=act,
        )
        ctx.equal(buf.get_pos(), pos, "wrong position", act=act)
        ctx.equal(buf.remaining, len(content) - pos, "wrong remainder")
        ctx.count("buffer_ops")
        ctx.distinct(act, kind, where is None, pos == len(content))


def immutable(ctx, rng, index):
    from vtelem.classes.byte_buffer import ByteBuffer
    from vtelem.classes.type_primitive import TypePrimitive

    raw = rng.randbytes(rng.choice([8, 30]))
    data = rng.choice([bytes, bytearray])(raw)
    buf = ByteBuffer(data, False, len(raw))
    for _ in range(20):
        kind = rng.choice(NAMES)
        fmt, width, _ = wire.TYPES[kind]
        item = TypePrimitive(prim(kind))
        assert item.set(gen.value(rng, kind))
        where = rng.choice([None, rng.randint(0, len(raw))])
        here = rng.randint(0, len(raw))
        buf.set_pos(here)
        ctx.equal(item.write(buf, where), 0, "an immutable buffer was written")
        ctx.equal(bytes(data), raw, "an immutable buffer was written")
        ctx.equal(bytes(buf.data[: buf.size]), raw, "content changed")
        ctx.equal(buf.size, len(raw), "size changed")
        ctx.equal(buf.get_pos(), here, "position changed")
        if len(raw) - here >= width:
            ctx.check(
                wire.same(
                    item.read(buf), struct.unpack_from(fmt, raw, here)[0]
                ),
                "a read gives other bytes",
            )
        else:
            refused(
                ctx, lambda: item.read(buf),
                "a read past the end was not refused",
            )
    refused(ctx, buf.reset, "an immutable buffer was reset")
    ctx.equal(bytes(data), raw, "an immutable buffer was reset")
    ctx.count("immutable")


def exhaustive(ctx, rng, index):
    """Every small integer, for every integer type."""
    from vtelem.classes.type_primitive import TypePrimitive
    from vtelem.enums.primitive import random_integer

    kind = wire.INTS[index]
    low, high = wire.bounds(kind)
    item = TypePrimitive(prim(kind))
    values = list(range(-33000, 66000))
    for bits in (31, 32, 63, 64):
        for base in (1 << bits, -(1 << bits)):
            values += list(range(base - 3, base + 4))
    held = 0
    for val in values:
        got = item.set(val, 1.0)
        ctx.equal(bool(got), low <= val <= high, "wrong verdict", value=val)
        held = val if got else held
        ctx.equal(item.get(), held, "wrong value held")
        if got:
            raw = item.buffer()
            ctx.equal(bytes(raw), wire.pack(kind, val), "wrong encoding")
    ctx.count("exhaustive_values", len(values))
    for _ in range(200):
        ctx.check(
            low <= random_integer(prim(kind)) <= high, "random out of range"
        )


UNITS = {
    "holding": (holding, 3960, 40000),
    "buffers": (buffers, 3600, 40000),
    "immutable": (immutable, 900, 5000),
    "exhaustive": (exhaustive, 8, 8),
}
