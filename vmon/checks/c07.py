"""C07: messages survive fragmentation, reordering, duplication and mixing."""

import binascii
import itertools
import json
import os
import tempfile
from math import ceil

from vmon import gen, wire

RULE = (
    "a case serializes messages of all types at some mtu, checks every frame "
    "against the layout, and feeds caches their frames in random orders, "
    "repeated, lossy, corrupted and mixed with strays; 'orders' feeds every permutation "
    "of up to five fragments; distinct = (type, fragments, outcome, arrivals)"
)
ASSUME = [
    "no two different messages of one type have the same checksum",
    "frames of one message come from one serialization",
]
REQUIRE = {
    "messages": 500,
    "fragments": 3000,
    "completed": 500,
    "duplicates": 500,
    "incomplete": 100,
    "corrupt": 50,
    "strays": 300,
    "permutations": 400,
}
HEAD = wire.HEADER.size + wire.MESSAGE_FIELDS.size


def mtypes():
    from vtelem.types.frame import MessageType

    return list(MessageType)


def content_for(rng, size):
    style = rng.randrange(3)
    if style == 0:
        return rng.randbytes(size)
    if style == 1:
        return bytes([rng.randrange(256)]) * size
    unit = rng.randbytes(rng.randint(1, 4))
    return (unit * (size // len(unit) + 1))[:size]


def make_framer(rng):
    from vtelem.message.framer import MessageFramer

    crc = rng.random() < 0.6
    mtu = HEAD + (4 if crc else 0) + rng.choice([1, 2, 3, 7, 20, 100, 1400])
    return MessageFramer(mtu, rng.random(), crc), mtu, crc


def check_serialized(ctx, out, message, mtype, number, mtu, crc, when, app_id):
    """Frames of one message; returns their raw bytes."""
    frames, total = out
    per = mtu - HEAD - (4 if crc else 0)
    raws = []
    whole = b""
    for idx, frame in enumerate(frames):
        raw, size = frame.raw
        raw = bytes(raw[:size])
        ctx.check(len(raw) == size <= mtu, "a frame is longer than the mtu")
        try:
            got = wire.parse(raw, {}, crc, app_id)
        except wire.Bad as exc:
            ctx.fail("a frame isn't in the documented layout", why=str(exc))
        ctx.equal(
            got["fields"],
            (
                mtype.value,
                number,
                binascii.crc32(message),
                idx,
                len(frames),
            ),
            "wrong message fields",
        )
        if when is not None:
            ctx.check(wire.millis_ok(got["stamp"], when), "wrong timestamp")
        whole += got["fragment"]
        raws.append(raw)
    ctx.equal(whole, message, "fragments don't concatenate to the message")
    ctx.equal(total, sum(map(len, raws)), "wrong total size")
    ctx.equal(len(raws), ceil(len(message) / per), "wrong number of frames")
    ctx.count("messages")
    ctx.count("fragments", len(raws))
    return raws


def ingest(env, cache, raw):
    parsed = env.decode_frame(raw, len(raw))
    assert parsed is not None
    cache.ingest(parsed)


def new_env():
    from vtelem.telemetry.environment import TelemetryEnvironment

    return TelemetryEnvironment(1000)


class Watch:
    """Callbacks, and what they were called with."""

    def __init__(self):
        self.log = []

    def callback(self, name):
        def call(mtype, number, data):
            self.log.append((name, mtype, number, bytes(data)))

        return call


def make_cache(ctx, rng, watch):
    from vtelem.message.cache import MessageCache, from_temp_dir

    initial, names = {}, {t: [] for t in mtypes()}
    late = []
    for mtype in mtypes():
        for _ in range(rng.choice([0, 1, 2])):
            name = f"{mtype.name}{len(names[mtype])}"
            names[mtype].append(name)
            if rng.random() < 0.5:
                initial.setdefault(mtype, []).append(watch.callback(name))
            else:
                late.append((mtype, watch.callback(name)))
    given = initial if rng.random() < 0.8 or initial else None
    if rng.random() < 0.3:
        manager = from_temp_dir(given)
        cache = manager.__enter__()
        ctx.defer(manager.__exit__, None, None, None)
    else:
        top = tempfile.TemporaryDirectory()
        ctx.defer(top.cleanup)
        cache = MessageCache(os.path.join(top.name, "cache"), given)
    for mtype, call in late:
        cache.add_callback(mtype, call)
    # the initial ones come first
    order = {
        t: [n for n in names[t]] for t in names
    }
    return cache, order


def settle(ctx, cache, done, crcs):
    """What the cache holds has to be exactly what is complete."""
    for mtype in mtypes():
        ctx.equal(
            sorted(cache.complete(mtype)),
            sorted(c for t, c in done if t == mtype),
            "wrong set of complete messages",
        )
    for key in crcs:
        mtype, crc = key
        got = cache.content(mtype, crc)
        if key not in done:
            ctx.check(got is None, "an incomplete message has content")
            continue
        number, message = done[key]
        ctx.equal(
            (got[0], bytes(got[1])), (number, message), "wrong content"
        )


def strays(rng, raws, app_id, use_crc):
    """Frames that name a message, but no place in it."""
    out = []
    total = len(raws)
    for _ in range(rng.choice([1, 1, 2, 4])):
        parsed = wire.parse(rng.choice(raws), {}, use_crc)
        mtype, number, crc, _, _ = parsed["fields"]
        idx = rng.choice([total, total + 1, total + 7, 255, 256, 65535])
        if idx < total:
            continue
        claims = rng.choice([total, total, total, idx])
        data = rng.choice([b"", b"x", parsed["fragment"]])
        out.append(
            wire.build_message(
                app_id, parsed["stamp"], (mtype, number, crc, idx, claims),
                data, use_crc,
            )
        )
    return out


def delivery(ctx, rng, index):
    framer, mtu, use_crc = make_framer(rng)
    per = mtu - HEAD - (4 if use_crc else 0)
    app_id = framer.primitives["app_id"].get()
    numbers = {t: 0 for t in mtypes()}
    env = new_env()
    pool, seen, plan = [], set(), {}
    for _ in range(rng.choice([1, 2, 4, 8])):
        mtype = rng.choice(mtypes())
        size = rng.choice([1, per, per + 1, 2 * per, 3 * per - 1, 5 * per,
                           rng.randint(1, 6 * per)])
        message = content_for(rng, max(1, size))
        when = rng.choice([None, gen.time_value(rng)])
        out = framer.serialize_message(message, when, mtype)
        raws = check_serialized(
            ctx, out, message, mtype, numbers[mtype], mtu, use_crc, when,
            app_id,
        )
        number = numbers[mtype]
        numbers[mtype] += 1
        key = (mtype, binascii.crc32(message))
        if key in seen:
            continue
        seen.add(key)
        fate = rng.choice(["all", "all", "all", "lossy", "corrupt"])
        lost = set()
        if fate == "lossy":
            lost = {rng.randrange(len(raws))}
        arrivals = []
        for idx, raw in enumerate(raws):
            if idx in lost:
                continue
            if fate == "corrupt" and idx == 0:
                parsed = wire.parse(raw, {}, use_crc)
                bad = bytearray(parsed["fragment"])
                bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
                raw = wire.build_message(
                    app_id, parsed["stamp"], parsed["fields"], bad, use_crc
                )
            copies = rng.choice([1, 1, 1, 2, 4])
            ctx.count("duplicates", copies - 1)
            arrivals += [(key, idx, raw)] * copies
        if rng.random() < 0.4:
            arrivals += [
                (key, None, raw)
                for raw in strays(rng, raws, app_id, use_crc)
            ]
        pool.append(arrivals)
        plan[key] = {
            "number": number,
            "message": message,
            "need": set(range(len(raws))),
            "bad": fate == "corrupt",
            "first": raws[0],
        }
    feed = list(itertools.chain(*pool))
    style = rng.randrange(3)
    if style == 0:
        rng.shuffle(feed)
    elif style == 1:
        feed.reverse()
    watch = Watch()
    cache, names = make_cache(ctx, rng, watch)
    done, got = {}, {k: set() for k in plan}
    expect_log = []

    def arrive(key, idx, raw):
        ingest(env, cache, raw)
        item = plan[key]
        if idx is None:
            ctx.count("strays")
        else:
            got[key].add(idx)
        if got[key] >= item["need"] and not item["bad"] and key not in done:
            done[key] = item["number"], item["message"]
            for name in names[key[0]]:
                expect_log.append(
                    (name, key[0], item["number"], item["message"])
                )
            ctx.count("completed")
        ctx.equal(
            sorted(watch.log, key=repr), sorted(expect_log, key=repr),
            "callbacks weren't called exactly once, on completion",
        )

    for num, (key, idx, raw) in enumerate(feed):
        arrive(key, idx, raw)
        if rng.random() < 0.3 or num == len(feed) - 1:
            settle(ctx, cache, done, plan)
    for key, item in plan.items():
        if key not in done:
            ctx.count("corrupt" if item["bad"] else "incomplete")
        elif rng.random() < 0.3:
            # late repetitions change nothing
            arrive(key, 0, item["first"])
        if item["bad"]:
            # a good copy of the corrupt fragment completes it
            item["bad"] = False
            arrive(key, 0, item["first"])
            ctx.check(key in done, "harness")
        ctx.distinct(key[0], len(item["need"]), key in done, len(feed))
    settle(ctx, cache, done, plan)
    ctx.sample({"mtu": mtu, "messages": len(plan), "arrivals": len(feed)})


def orders(ctx, rng, index):
    """All arrival orders of one message's fragments, a repeat included."""
    from vtelem.message.cache import from_temp_dir

    framer, mtu, use_crc = make_framer(rng)
    per = mtu - HEAD - (4 if use_crc else 0)
    count = rng.choice([2, 3, 4, 4])
    message = content_for(rng, rng.randint((count - 1) * per + 1, count * per))
    mtype = rng.choice(mtypes())
    out = framer.serialize_message(message, None, mtype)
    raws = check_serialized(
        ctx, out, message, mtype, 0, mtu, use_crc, None,
        framer.primitives["app_id"].get(),
    )
    env = new_env()
    crc = binascii.crc32(message)
    idxs = list(range(count)) + [rng.randrange(count)]
    for order in sorted(set(itertools.permutations(idxs))):
        watch = Watch()
        with from_temp_dir({mtype: [watch.callback("only")]}) as cache:
            got = set()
            for idx in order:
                ingest(env, cache, raws[idx])
                got.add(idx)
                full = len(got) == count
                ctx.equal(
                    cache.complete(mtype), [crc] if full else [],
                    "wrong set of complete messages", order=order,
                )
                ctx.equal(
                    watch.log,
                    [("only", mtype, 0, message)] if full else [],
                    "callbacks weren't called exactly once, on completion",
                    order=order,
                )
            ctx.equal(
                (0, message),
                (cache.content(mtype, crc)[0], bytes(cache.content(mtype, crc)[1])),
                "wrong content",
            )
        ctx.count("permutations")


def forms(ctx, rng, index):
    """Strings, JSON and objects go as their encodings; numbers wrap."""
    from vtelem.classes.user_enum import user_enum

    framer, mtu, use_crc = make_framer(rng)
    app_id = framer.primitives["app_id"].get()
    types = {t.name: t for t in mtypes()}
    when = rng.choice([None, gen.time_value(rng)])
    args = (mtu, use_crc, when, app_id)
    numbers = {t: 0 for t in mtypes()}

    def check(out, message, mtype):
        check_serialized(ctx, out, message, mtype, numbers[mtype], *args)
        numbers[mtype] += 1

    for _ in range(6):
        text = "".join(
            rng.choice("aé☃\U0001f600\n\"\\{} ") for _ in range(rng.randint(1, 60))
        )
        pick = rng.randrange(4)
        if pick == 0:
            mtype = rng.choice(mtypes())
            given = {} if rng.random() < 0.5 else {"message_type": mtype}
            out = framer.serialize_message_str(text, when, **given)
            check(out, text.encode(), given.get("message_type", types["TEXT"]))
        elif pick == 1:
            data = {"a": text, "b": [1, 2.5, None, True], "c": {"d": text}}
            out = framer.serialize_message_json(data, when)
            check(out, json.dumps(data).encode(), types["JSON"])
        elif pick == 2:
            enum = user_enum("thing", {1: "one", 200: "two"}, default="two")
            out = framer.serialize_object(enum, when, types["ENUM"])
            check(out, enum.json_str().encode(), types["ENUM"])
        else:
            out = framer.serialize_message(text.encode(), when)
            check(out, text.encode(), types["AGNOSTIC"])


def numbering(ctx, rng, index):
    """Numbers count from zero per type, modulo 65536."""
    from vtelem.message.framer import MessageFramer

    framer = MessageFramer(HEAD + 1, 0.5, False)
    first, second = rng.sample(mtypes(), 2)
    other = 0
    for num in range(65540):
        frames, _ = framer.serialize_message(b"x", None, first)
        if num < 4 or num > 65530 or num % 1000 == 0:
            raw, size = frames[0].raw
            got = wire.parse(raw[:size], {}, False)["fields"]
            ctx.equal(got[1], num % 65536, "wrong message number")
            frames, _ = framer.serialize_message(b"y", None, second)
            raw, size = frames[0].raw
            got = wire.parse(raw[:size], {}, False)["fields"]
            ctx.equal(got[1], other, "wrong message number of another type")
            other += 1
    ctx.count("wraps")


def oversized(ctx, rng, index):
    """A message of more than 65535 fragments is refused, not mangled."""
    from vtelem.message.framer import MessageFramer

    framer = MessageFramer(HEAD + 1, 0.5, False)
    largest = bytes(rng.randrange(256) for _ in range(16)) * 4096
    for size, ok in ((65535, True), (65536, False)):
        message = largest[:size]
        try:
            frames, _ = framer.serialize_message(message)
        except AssertionError:
            ctx.check(not ok, "a message was refused")
            continue
        ctx.check(ok, "a message that can't be numbered was serialized")
        whole = b""
        for idx, frame in enumerate(frames):
            raw, used = frame.raw
            got = wire.parse(raw[:used], {}, False)
            ctx.equal(got["fields"][3:], (idx, size), "wrong fragment index")
            whole += got["fragment"]
        ctx.equal(whole, message, "fragments don't give the message")


UNITS = {
    "delivery": (delivery, 4200, 40000),
    "orders": (orders, 144, 600),
    "forms": (forms, 600, 4000),
    "numbering": (numbering, 3, 3),
    "oversized": (oversized, 2, 2),
}
