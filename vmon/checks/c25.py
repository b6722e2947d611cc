"""C25: recorded frames play back completely, from any frame, in any portions."""

import os
import pathlib
import shutil
import tempfile
import time

from vmon import core
from vmon.checks.c22 import MTU, Cast, Tap, prefixed, raw_of, script

RULE = (
    "a case records generated frames (or writes a file of own, foreign and "
    "damaged frames) in several sessions, compares the file byte for byte, "
    "and plays it from several frames with several limits, chunk sizes, cuts "
    "of its end, interruptions and growths; the frames played are compared "
    "with an independent decoder's; distinct = (history, frames, limit)"
)
ASSUME = [
    "frames are no longer than the client's mtu",
    "a client with a limit is started once",
    "nobody else writes the file while a session records",
]
REQUIRE = {
    "limited_again": 20,
    "frames_received": 4000,
    "playbacks": 400,
    "recordings": 60,
    "limited": 120,
    "from_the_middle": 120,
    "cut_ends": 80,
    "grown": 60,
    "interrupted": 20,
    "undecodable": 600,
    "replaced": 8,
    "appended": 8,
}


def scratch(ctx):
    path = tempfile.mkdtemp(prefix="vmon-c25-")
    ctx.defer(shutil.rmtree, path, True)
    return path


def make_client(cast, tap, path, start=0, limit=None, mtu=MTU):
    from vtelem.client.file import FileClient, FileDecodeTask

    return FileClient(
        FileDecodeTask(pathlib.Path(path), start, limit), tap,
        cast.env.channel_registry, cast.env.app_id, cast.env, mtu,
    )


def idle(ctx, client):
    from vtelem.daemon import DaemonState

    ctx.check(
        core.wait_for(lambda: client.get_state() == DaemonState.IDLE, 30.0),
        "a playback doesn't end", stacks=core.stacks(),
    )


def play(ctx, cast, path, raws, start=0, limit=None, mtu=MTU, again=False):
    """Play once, judge all of it; raws: what's complete from there on."""
    tap = Tap()
    client = make_client(cast, tap, path, start, limit, mtu)
    ctx.check(client.start(), "a playback can't be started")
    idle(ctx, client)
    wants = cast.expect(raws)
    ctx.count("undecodable", len(raws) - len(wants))
    short = limit is None or len(wants) < limit
    got = tap.all()
    if short:
        ctx.check(
            got and got[-1] is None and got.count(None) == 1,
            "a playback doesn't end with one end marker",
            got=["end" if g is None else "frame" for g in got[-5:]],
            frames=len(got), wanted=len(wants),
        )
    else:
        ends = got.count(None)
        ctx.check(
            ends <= (len(wants) == limit),
            "a limited playback goes on to the end", ends=ends, limit=limit,
        )
        ctx.count("limited")
        wants = wants[:limit]
        if again:
            # that many are all it delivers
            cast.judge(ctx, tap.frames(), wants)
            ctx.check(client.start(), "a playback can't be started again")
            idle(ctx, client)
            ctx.count("limited_again")
    cast.judge(ctx, tap.frames(), wants)
    ctx.count("playbacks")
    if start:
        ctx.count("from_the_middle")
    return client, tap


def offsets(raws):
    """Where frames start (and where the last one ends)."""
    out = [0]
    for raw in raws:
        out.append(out[-1] + len(prefixed(raw)))
    return out


def limits(rng, count):
    return rng.choice(
        [None, 0, 1, 2, count, max(0, count - 1), count + 1, 10**6,
         rng.randint(0, count + 2)]
    )


def own_mtu(rng, raws):
    longest = max([len(raw) for raw in raws] + [1])
    return rng.choice(
        [longest, longest + rng.randint(1, 10), MTU, 4 * MTU, 1 << 20]
    ) if longest <= MTU else longest


def recorded(ctx, rng, _index):
    """Through the writer, in sessions."""
    from vtelem.stream.writer import default_writer

    cast = Cast(rng)
    writer, source = default_writer(env=cast.env)
    path = pathlib.Path(scratch(ctx), "telemetry.bin")
    assert writer.start()
    ctx.defer(writer.stop)
    raws = []
    seen = Tap()
    tail = None
    for session in range(rng.randint(1, 4)):
        replace = rng.random() < 0.3
        flush = rng.random() < 0.5
        if replace:
            raws = []
            tail = None
        with writer.add_file(path, flush, not replace):
            for _ in range(rng.choice([1, 1, 3])):
                frames = cast.frames(rng.choice([0, 1, 5, 30]))
                for frame in frames:
                    source.put(frame)
                raws += [raw_of(f) for f in frames]
                writer.await_empty()
                if flush:
                    # what's recorded can be played right away
                    if tail is None and rng.random() < 0.5:
                        seen.clear()
                        tail = make_client(cast, seen, path)
                    if tail is not None:
                        before = seen.ends()
                        assert tail.start()
                        idle(ctx, tail)
                        ctx.equal(seen.ends(), before + 1, "end markers")
                        cast.judge(ctx, seen.frames(), cast.expect(raws))
                        ctx.count("grown")
                        ctx.count("playbacks")
        ctx.equal(
            path.read_bytes(), b"".join(map(prefixed, raws)),
            "not what was recorded", session=session, replace=replace,
        )
        # what's sent afterwards is not recorded
        for frame in cast.frames(1):
            source.put(frame)
        writer.await_empty()
        ctx.count("recordings")
        if session:
            ctx.count("replaced" if replace else "appended")
        ctx.distinct("recorded", session, replace, flush, len(raws))
    ctx.equal(path.read_bytes(), b"".join(map(prefixed, raws)),
              "a closed recording changes")
    where = offsets(raws)
    for _ in range(4):
        first = rng.randrange(len(where))
        play(
            ctx, cast, path, raws[first:], where[first],
            limits(rng, len(raws) - first), own_mtu(rng, raws),
        )
    ctx.sample({"frames": len(raws), "bytes": where[-1]})


def temporary(ctx, rng, _index):
    """The recording that comes with a client."""
    from vtelem.client.file import create
    from vtelem.stream.writer import default_writer

    cast = Cast(rng)
    writer, source = default_writer(env=cast.env)
    assert writer.start()
    ctx.defer(writer.stop)
    limit = rng.choice([None, None, 1, 7, 10**6])
    # what's created is put here, and removed
    old, tempfile.tempdir = tempfile.tempdir, scratch(ctx)
    try:
        with create(writer, cast.env, MTU, limit) as (client, output):
            raws, got = [], []
            for _ in range(rng.randint(1, 4)):
                frames = cast.frames(rng.choice([1, 5, 30]))
                raws += [raw_of(f) for f in frames]
                for frame in frames:
                    source.put(frame)
                writer.await_empty()
                assert client.start()
                idle(ctx, client)
                while not output.empty():
                    got.append(output.get())
                if limit is not None:
                    break
                ctx.check(got[-1] is None, "no end marker")
            wants = cast.expect(raws)
            if limit is not None:
                wants = wants[:limit]
            cast.judge(ctx, [g for g in got if g is not None], wants)
            ctx.count("playbacks")
        ctx.equal(os.listdir(tempfile.tempdir), [], "files left behind")
    finally:
        tempfile.tempdir = old
    ctx.count("recordings")
    ctx.distinct("temporary", limit, len(raws))


def file_of(ctx, rng, cast, count):
    raws = script(rng, cast, count)
    # frames without content are frames, too
    for _ in range(rng.choice([0, 0, 1, 3])):
        raws.insert(rng.randint(0, len(raws)), b"")
    path = os.path.join(scratch(ctx), "file.bin")
    with open(path, "wb") as out:
        out.write(b"".join(map(prefixed, raws)))
    return path, raws


def played(ctx, rng, _index):
    """Files of all kinds of frames, from anywhere."""
    cast = Cast(rng)
    path, raws = file_of(ctx, rng, cast, rng.choice([0, 1, 3, 20, 80]))
    where = offsets(raws)
    for _ in range(6):
        first = rng.randrange(len(where))
        limit = limits(rng, len(cast.expect(raws[first:])))
        play(ctx, cast, path, raws[first:], where[first], limit,
             own_mtu(rng, raws), rng.random() < 0.3)
        ctx.distinct("played", len(raws), first, limit)


def cut(ctx, rng, _index):
    """A file whose end is missing, and then isn't."""
    cast = Cast(rng)
    path, raws = file_of(ctx, rng, cast, rng.choice([1, 3, 20]))
    where = offsets(raws)
    data = pathlib.Path(path).read_bytes()
    first = rng.randrange(len(where))
    mtu = own_mtu(rng, raws)
    tap = Tap()
    client = make_client(cast, tap, path, where[first], None, mtu)
    # the end moves, sometimes by a byte
    ends = {len(data)}
    for _ in range(rng.randint(1, 6)):
        near = rng.choice(where) + rng.randint(-5, 5)
        ends.add(
            min(len(data), max(where[first], rng.choice(
                [near, rng.randint(where[first], len(data))])))
        )
    for turn, end in enumerate(sorted(ends)):
        with open(path, "wb") as out:
            out.write(data[:end])
        whole = [
            raw for raw, stop in zip(raws, where[1:]) if stop <= end
        ][first:]
        # a new client, and one that played the shorter file
        play(ctx, cast, path, whole, where[first], None, mtu)
        ctx.check(client.start(), "a playback can't be started again")
        idle(ctx, client)
        ctx.equal(tap.ends(), turn + 1, "end markers of a repeated playback")
        cast.judge(ctx, tap.frames(), cast.expect(whole))
        ctx.count("cut_ends" if end not in where else "grown")
        ctx.distinct("cut", end in where, turn, len(whole))


class Slow(Tap):
    """An output that gives others a chance."""

    delay = 0.0

    def put(self, item, *args, **kwargs):
        if self.delay:
            time.sleep(self.delay)
        super().put(item, *args, **kwargs)


def interrupted(ctx, rng, _index):
    """Stopped on the way and started again: nothing is lost or repeated."""
    from vtelem.daemon import DaemonState

    cast = Cast(rng)
    path, raws = file_of(ctx, rng, cast, 60)
    tap = Slow()
    mtu = max(len(raw) for raw in raws)
    client = make_client(cast, tap, path, 0, None, mtu)
    stops = 0
    while stops < 200 and not tap.ends():
        tap.delay = 0.001 if stops < 6 else 0.0
        ctx.check(client.start(), "a playback can't be started again")
        if stops < 6:
            time.sleep(rng.random() * 0.02)
            client.stop()
        idle(ctx, client)
        ctx.equal(client.get_state(), DaemonState.IDLE, "state")
        stops += 1
    ctx.equal(tap.ends(), 1, "end markers")
    cast.judge(ctx, tap.frames(), cast.expect(raws))
    ctx.count("interrupted", stops)
    ctx.count("playbacks", stops)
    ctx.distinct("interrupted", stops)


def many(ctx, rng, _index):
    """Far more frames than any queue holds, and more than one read."""
    cast = Cast(rng)
    path, raws = file_of(ctx, rng, cast, 30)
    raws = (raws * 80)[: rng.randint(500, 2000)]
    with open(path, "wb") as out:
        out.write(b"".join(map(prefixed, raws)))
    where = offsets(raws)
    first = rng.randrange(len(where))
    play(ctx, cast, path, raws, 0, None, own_mtu(rng, raws))
    play(ctx, cast, path, raws[first:], where[first], rng.randint(0, 600),
         own_mtu(rng, raws))
    ctx.distinct("many", len(raws))


UNITS = {
    "recorded": (recorded, 60, 1500),
    "temporary": (temporary, 20, 300),
    "played": (played, 120, 4000),
    "cut": (cut, 60, 1500),
    "interrupted": (interrupted, 16, 300),
    "many": (many, 4, 100),
}
