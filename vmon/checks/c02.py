"""C02: decoding recovers well-formed frames and rejects everything else."""

import binascii
import struct

from vmon import gen, wire
from vmon.checks.c01 import prim, drain

RULE = (
    "a case is a registry and frames of all types encoded independently from "
    "the layout, decoded as they are and after truncation, bit flips, field "
    "edits, splices and padding; distinct = (frame type, mutation, verdict, "
    "element types)"
)
ASSUME = [
    "frames of the 'invalid' type (mtu probes) have no content to compare",
    "one to three bytes behind the content are neither content nor checksum",
]
REQUIRE = {
    "accepted": 500,
    "rejected": 500,
    "kind.1": 50,
    "kind.2": 50,
    "kind.3": 50,
    "kind.4": 50,
    "checksum_rejections": 50,
    "foreign_id": 50,
    "padded": 500,
}
NAMES = list(wire.TYPES)


def reference(raw, types, streams, expected):
    """
    What decoding has to give: None, 'any' (unspecified), or the frame.
    """
    pos = 0

    def take(fmt):
        nonlocal pos
        size = struct.calcsize(fmt)
        if pos + size > len(raw):
            raise wire.Bad("short")
        val = struct.unpack_from(fmt, raw, pos)[0]
        pos += size
        return val

    try:
        app = take(">H")
        if expected is not None and app != expected:
            return None
        kind = take(">B")
        stamp, count = take(">Q"), take(">I")
        if kind == wire.INVALID:
            return "any"
        body = []
        if kind in (wire.DATA, wire.EVENT):
            if count * 2 > len(raw):
                raise wire.Bad("short")
            ids = [take(">H") for _ in range(count)]
            for ident in ids:
                if ident not in types or ident in streams:
                    raise wire.Bad("channel")
            for ident in ids:
                fmt = wire.TYPES[types[ident]][0]
                if kind == wire.DATA:
                    body.append((ident, take(fmt)))
                else:
                    body.append(
                        (ident, take(fmt), take(">Q"), take(fmt), take(">Q"))
                    )
        elif kind == wire.MESSAGE:
            fields = [take(f) for f in (">B", ">H", ">I", ">H", ">H")]
            if pos + count > len(raw):
                raise wire.Bad("short")
            body = (fields, raw[pos : pos + count])
            pos += count
        elif kind == wire.STREAM:
            ident = take(">H")
            if ident not in types or ident not in streams:
                raise wire.Bad("channel")
            idx = take(">I")
            size = count * wire.TYPES[types[ident]][1]
            if pos + size > len(raw):
                raise wire.Bad("short")
            body = (ident, idx, raw[pos : pos + size])
            pos += size
        else:
            raise wire.Bad("type")
    except wire.Bad:
        return None
    left = len(raw) - pos
    crc = None
    if left >= 4:
        crc = struct.unpack_from(">I", raw, pos)[0]
        if crc != binascii.crc32(raw[:pos]):
            return "crc"
    return (app, kind, stamp, count, body, crc, left)


def same_values(left, right):
    return len(left) == len(right) and all(
        wire.same(a, b) for a, b in zip(left, right)
    )


def judge(ctx, got, want, raw, channels):
    """Compare a decoded frame with the reference."""
    app, kind, stamp, count, body, crc, _ = want
    header = got.header
    ctx.equal(
        (header.app_id, int(header.type), header.timestamp, header.size),
        (app, kind, stamp, count),
        "decoded header differs",
        raw=raw,
    )
    ctx.equal(header.length, len(raw), "decoded length differs", raw=raw)
    ctx.equal(got.footer.crc, crc, "decoded checksum differs", raw=raw)
    if kind == wire.DATA:
        have = [(c["id"], c["value"]) for c in got.body["channels"]]
        ctx.check(
            all(same_values(a, b) for a, b in zip(have, body))
            and len(have) == len(body),
            "decoded data differs",
            raw=raw,
            got=have,
            expected=body,
        )
        for chan in got.body["channels"]:
            ctx.check(
                chan["channel"] is channels[chan["id"]],
                "decoded data names another channel",
            )
    elif kind == wire.EVENT:
        have = [
            (
                e["id"],
                e["previous"]["value"],
                e["previous"]["time"],
                e["current"]["value"],
                e["current"]["time"],
            )
            for e in got.body["events"]
        ]
        ctx.check(
            all(same_values(a, b) for a, b in zip(have, body))
            and len(have) == len(body),
            "decoded events differ",
            raw=raw,
            got=have,
            expected=body,
        )
        for event in got.body["events"]:
            ctx.check(
                event["channel"] is channels[event["id"]],
                "decoded event names another channel",
            )
    elif kind == wire.MESSAGE:
        names = [
            "message_type",
            "message_number",
            "message_crc",
            "fragment_index",
            "total_fragments",
        ]
        ctx.equal(
            ([got.body[n] for n in names], bytes(got.body["fragment_bytes"])),
            (body[0], bytes(body[1])),
            "decoded message differs",
            raw=raw,
        )
    else:
        ctx.equal(
            (got.body["id"], got.body["index"], bytes(got.body["data"])),
            (body[0], body[1], bytes(body[2])),
            "decoded stream data differs",
            raw=raw,
        )
        ctx.check(
            got.body["channel"] is channels[body[0]],
            "decoded stream names another channel",
        )


def world(rng):
    """A registry, through an environment."""
    from vtelem.channel import Channel
    from vtelem.telemetry.environment import TelemetryEnvironment

    types, streams, channels = {}, set(), {}
    chans = []
    for i in range(rng.choice([1, 3, 8, 20])):
        kind = rng.choice(NAMES)
        stream = rng.random() < 0.25
        chan = Channel(f"c{i}", prim(kind), 1.0, is_stream=stream)
        chans.append(chan)
        types[i], channels[i] = kind, chan
        if stream:
            streams.add(i)
    env = TelemetryEnvironment(1000, initial_channels=chans)
    return env, types, streams, channels


def stamp_of(rng):
    return rng.choice([0, 1, rng.randrange(1 << 41), (1 << 64) - 1])


def encode(rng, types, streams, app, crc):
    """A well-formed frame of a random type, or None."""
    kind = rng.choice([wire.DATA, wire.EVENT, wire.MESSAGE, wire.STREAM])
    stamp = stamp_of(rng)
    plain = [i for i in types if i not in streams]
    if kind in (wire.DATA, wire.EVENT) and not plain:
        kind = wire.MESSAGE
    if kind == wire.STREAM and not streams:
        kind = wire.MESSAGE
    if kind == wire.DATA:
        elems = []
        for _ in range(rng.choice([0, 1, 2, 7, 30])):
            ident = rng.choice(plain)
            elems.append((ident, gen.value(rng, types[ident])))
        return kind, wire.build_data(app, stamp, elems, types, crc)
    if kind == wire.EVENT:
        elems = []
        for _ in range(rng.choice([0, 1, 2, 7, 30])):
            ident = rng.choice(plain)
            name = types[ident]
            elems.append(
                (
                    ident,
                    (gen.value(rng, name), stamp_of(rng)),
                    (gen.value(rng, name), stamp_of(rng)),
                )
            )
        return kind, wire.build_event(app, stamp, elems, types, crc)
    if kind == wire.MESSAGE:
        fields = (
            rng.randrange(256),
            rng.randrange(65536),
            rng.randrange(1 << 32),
            rng.randrange(65536),
            rng.randrange(65536),
        )
        data = rng.randbytes(rng.choice([0, 1, 5, 100]))
        return kind, wire.build_message(app, stamp, fields, data, crc)
    ident = rng.choice(sorted(streams))
    count = rng.choice([0, 1, 4, 50])
    body = struct.pack(">HI", ident, rng.randrange(1 << 32))
    body += rng.randbytes(count * wire.TYPES[types[ident]][1])
    return kind, wire.build(kind, app, stamp, count, body, crc)


def mutate(rng, raw, other):
    """A damaged version of a frame."""
    raw = bytearray(raw)
    how = rng.choice(
        ["cut", "flip", "burst", "field", "splice", "pad", "random", "dup",
         "count", "none"]
    )
    if how == "cut":
        del raw[rng.randrange(len(raw)) :]
    elif how == "flip":
        bit = rng.randrange(len(raw) * 8)
        raw[bit // 8] ^= 1 << (bit % 8)
    elif how == "burst":
        at = rng.randrange(len(raw))
        for i in range(at, min(len(raw), at + rng.randint(1, 4))):
            raw[i] ^= rng.randint(1, 255)
    elif how == "field":
        at = rng.choice([0, 2, 3, 11, 14, 15, 17])
        if at < len(raw):
            raw[at] = rng.choice([0, 1, 2, 3, 4, 5, 6, 127, 128, 255])
    elif how == "count":
        if len(raw) >= 15:
            count = struct.unpack_from(">I", raw, 11)[0]
            new = rng.choice(
                [count + 1, max(0, count - 1), count * 2, 0, (1 << 32) - 1,
                 count + 4, count + 256]
            )
            struct.pack_into(">I", raw, 11, new & 0xFFFFFFFF)
    elif how == "splice":
        raw = raw[: rng.randrange(len(raw))] + other[rng.randrange(len(other)) :]
    elif how == "pad":
        raw += bytes(rng.randint(1, 20))
    elif how == "random":
        raw = bytearray(rng.randbytes(rng.randrange(0, 60)))
    elif how == "dup":
        raw += bytes(raw)
    return how, bytes(raw)


def repair(rng, raw):
    """Sometimes give a damaged frame a matching checksum again."""
    if len(raw) > 4 and rng.random() < 0.3:
        raw = raw[:-4] + wire.CRC.pack(binascii.crc32(raw[:-4]))
    return raw


def decode_one(ctx, rng, env, types, streams, channels, raw, expected, how):
    from vtelem.classes.type_primitive import new_default
    from vtelem.parsing.encapsulation import decode_frame

    ident = None
    if expected is not None:
        ident = new_default("id")
        assert ident.set(expected)
    want = reference(raw, types, streams, expected)
    slack = rng.randbytes(rng.choice([0, 0, 0, 3, 40]))
    data = bytearray(raw + slack) if rng.random() < 0.5 else raw + slack
    before = bytes(data)
    if rng.random() < 0.5:
        got = env.decode_frame(data, len(raw), ident)
    else:
        got = decode_frame(env.channel_registry, data, len(raw), ident)
    again = env.decode_frame(data, len(raw), ident)
    ctx.equal(bytes(data), before, "decoding changed the bytes", raw=raw)
    ctx.check(
        repr_frame(got) == repr_frame(again),
        "the same bytes decoded differently",
        raw=raw,
    )
    if want is None or want == "crc":
        if want == "crc":
            ctx.count("checksum_rejections")
        ctx.check(
            got is None,
            "a malformed frame was accepted"
            if want is None
            else "a frame with a wrong checksum was accepted",
            raw=raw,
            how=how,
            got=repr(got),
        )
        ctx.count("rejected")
        return None
    if want == "any":
        ctx.count("invalid_type")
        return got
    left = want[-1]
    unspecified = 0 < left < 4 or left > 4
    if got is None and unspecified:
        ctx.count("padded_rejected")
        return None
    ctx.check(
        got is not None, "a well-formed frame was rejected", raw=raw, how=how
    )
    judge(ctx, got, want, raw, channels)
    ctx.count("accepted")
    ctx.count(f"kind.{want[1]}")
    return got


def repr_frame(frame):
    if frame is None:
        return None
    return (tuple(frame.header), repr(frame.body), tuple(frame.footer))


def decode(ctx, rng, index):
    env, types, streams, channels = world(rng)
    described = env.channel_registry.describe()
    states = {i: (c.get(), c.last_set) for i, c in channels.items()}
    for _ in range(6):
        app = rng.choice([0, 1, 65535, rng.randrange(65536)])
        crc = rng.random() < 0.6
        kind, raw = encode(rng, types, streams, app, crc)
        other = encode(rng, types, streams, app, crc)[1]
        # as it is
        for expected in (None, app):
            got = decode_one(
                ctx, rng, env, types, streams, channels, raw, expected, "none"
            )
            ctx.check(got is not None, "a well-formed frame was rejected", raw=raw)
        if crc:
            # frames may be padded
            padded = raw + bytes(rng.choice([1, 3, 4, 5, 30]))
            padded_got = decode_one(
                ctx, rng, env, types, streams, channels, padded, app, "none"
            )
            ctx.check(
                padded_got is not None, "a padded frame was rejected", raw=raw
            )
            ctx.count("padded")
        foreign = (app + rng.randint(1, 65535)) % 65536
        got = decode_one(
            ctx, rng, env, types, streams, channels, raw, foreign, "foreign"
        )
        ctx.check(got is None, "a foreign frame was accepted", raw=raw)
        ctx.count("foreign_id")
        # damaged
        for _ in range(12):
            how, bad = mutate(rng, raw, other)
            bad = repair(rng, bad)
            expected = rng.choice([None, app, app, foreign])
            got = decode_one(
                ctx, rng, env, types, streams, channels, bad, expected, how
            )
            ctx.distinct(kind, how, got is None, len(bad))
    ctx.equal(
        env.channel_registry.describe(), described, "decoding changed the registry"
    )
    for i, chan in channels.items():
        ctx.check(
            (chan.get(), chan.last_set) == states[i],
            "decoding changed a channel",
        )


def prefixes(ctx, rng, index):
    """Every prefix and every single-bit corruption of one frame."""
    env, types, streams, channels = world(rng)
    app = rng.randrange(65536)
    kind, raw = encode(rng, types, streams, app, rng.random() < 0.7)
    raw = raw[:250]
    for cut in range(len(raw) + 1):
        decode_one(
            ctx, rng, env, types, streams, channels, raw[:cut], app, "cut"
        )
    for bit in range(len(raw) * 8):
        bad = bytearray(raw)
        bad[bit // 8] ^= 1 << (bit % 8)
        decode_one(
            ctx, rng, env, types, streams, channels, bytes(bad), app, "flip"
        )
    ctx.distinct("all", kind, len(raw))
    ctx.sample({"frame": raw})


def padded(ctx, rng, index):
    """Real frames, padded as far as they can be."""
    from vtelem.channel.framer import build_dummy_frame

    env, types, streams, _ = world(rng)
    # what an environment dispatches
    when = rng.randrange(4000) / 1024.0
    env.dispatch(when, False)
    seen = []
    for frame in drain(env):
        raw, size = frame.raw
        before = env.decode_frame(bytes(raw), size)
        ctx.check(before is not None, "an own frame was rejected")
        seen += [chan["id"] for chan in before.body["channels"]]
        room = frame.mtu - size
        ask = rng.choice([0, 1, room // 2, max(0, room - 1), room, room + 1])
        given = frame.pad(ask)
        ctx.equal(given, min(ask, room), "another padding")
        if rng.random() < 0.5:
            frame.pad_to_mtu()
            given = room
        raw2, size2 = frame.raw
        ctx.equal(size2, size + given, "another size after padding")
        ctx.check(size2 <= frame.mtu, "a padded frame exceeds the mtu")
        ctx.equal(
            bytes(raw2[:size2]), bytes(raw[:size]) + bytes(given),
            "padding changes a frame",
        )
        if env.framer.use_crc or given < 4:
            after = env.decode_frame(bytes(raw2), size2)
            ctx.check(after is not None, "a padded frame was rejected")
            ctx.check(
                repr(after.body) == repr(before.body)
                and after.header[1:] == before.header[1:],
                "padding changes what is decoded",
            )
        ctx.count("padded")
        ctx.distinct("padded", size, given)
    ctx.equal(
        sorted(seen), sorted(set(types) - streams) if when >= 1.0 else [],
        "other channels than those that are due",
    )
    size = rng.choice([23, 24, 25, 27, 100, 1472, rng.randint(23, 3000)])
    bad = rng.random() < 0.5
    frame = build_dummy_frame(size, 0.5, bad)
    raw, used = frame.raw
    ctx.equal((used, len(raw) >= used), (size, True), "a dummy's size")


UNITS = {"decode": (decode, 4500, 90000), "prefixes": (prefixes, 120, 2500),
         "padded": (padded, 600, 5000)}
