"""C06: stream reassembly does not depend on chunking."""

from vmon import wire

RULE = (
    "a case is a byte stream of length-prefixed frames (empty ones and "
    "unreasonable lengths included) supplied in chunks; 'every_cut' supplies "
    "one short stream in all its partitions into up to three chunks, and in "
    "single bytes; distinct = (frames returned, bytes kept, oversize) of a "
    "call"
)
ASSUME = ["the mtu and the length's type stay the same for one processor"]
REQUIRE = {
    "frames": 3000,
    "oversize": 200,
    "empty_frames": 200,
    "split_lengths": 300,
    "partitions": 2000,
}


class Model:
    """What has been supplied, and not returned yet."""

    def __init__(self, mtu):
        self.kept, self.mtu = b"", mtu

    def feed(self, ctx, data):
        self.kept += data
        out = []
        while len(self.kept) >= 4:
            size = wire.SIZE.unpack_from(self.kept)[0]
            if size > self.mtu:
                self.kept = b""
                ctx.count("oversize")
                break
            if len(self.kept) < 4 + size:
                break
            out.append(self.kept[4 : 4 + size])
            self.kept = self.kept[4 + size :]
        if 0 < len(self.kept) < 4:
            ctx.count("split_lengths")
        return out


def stream(rng, mtu, count, oversize):
    out, frames = b"", []
    for _ in range(count):
        size = rng.choice(
            [0, 1, 2, 3, 4, 5, mtu, max(0, mtu - 1), rng.randint(0, mtu)]
        )
        size = min(size, mtu)
        body = rng.choice([bytes(size), rng.randbytes(size), b"\xff" * size])
        if size >= 4 and rng.random() < 0.2:
            # content that looks like lengths
            body = (wire.SIZE.pack(rng.choice([0, 1, mtu])) * size)[:size]
        frames.append(body)
        out += wire.SIZE.pack(size) + body
        if rng.random() < oversize:
            bad = rng.choice(
                [mtu + 1, 0xFFFFFFFF, 1 << 31, rng.randint(mtu + 1, 1 << 32) & 0xFFFFFFFF]
            )
            if bad > mtu:
                out += wire.SIZE.pack(bad) + rng.randbytes(rng.randrange(9))
    return out, frames


def supply(ctx, proc, size_prim, model, chunk, returned):
    before = [bytes(r) for r in returned]
    got = proc.process(chunk, size_prim, model.mtu)
    want = model.feed(ctx, bytes(chunk))
    ctx.equal(
        [bytes(g) for g in got], want, "wrong frames returned", chunk=chunk
    )
    ctx.check(
        all(bytes(a) == b for a, b in zip(returned, before)),
        "a returned frame was changed later",
    )
    returned.extend(got)
    del returned[:-3]
    ctx.count("frames", len(want))
    ctx.count("empty_frames", sum(not w for w in want))
    ctx.distinct(len(want), len(model.kept) > 4, len(model.kept) % 7)
    return want


def chunks(rng, data):
    style = rng.randrange(5)
    pos = 0
    while pos < len(data):
        if style == 0:
            step = 1
        elif style == 1:
            step = rng.randint(1, 4)
        elif style == 2:
            step = rng.randint(0, len(data))
        elif style == 3:
            step = rng.choice([0, 1, 3, 4, 5, 50])
        else:
            step = rng.choice([4, 8, 16])
        yield data[pos : pos + step]
        pos += step


def history(ctx, rng, index):
    from vtelem.classes.type_primitive import new_default
    from vtelem.frame.processor import FrameProcessor

    mtu = rng.choice([0, 1, 4, 5, 20, 300, 2000])
    oversize = rng.choice([0, 0, 0.2])
    data, frames = stream(rng, mtu, rng.choice([1, 5, 20]), oversize)
    proc, prim = FrameProcessor(), new_default("count")
    model, returned, out = Model(mtu), [], []
    for chunk in chunks(rng, data):
        kind = rng.choice([bytes, bytearray])
        out += supply(ctx, proc, prim, model, kind(chunk), returned)
    if not oversize:
        ctx.equal(out, frames, "the frames supplied weren't returned")
    # afterwards it recovers from whatever happened, with a fresh stream
    if model.kept and not oversize:
        ctx.fail("the harness left bytes over")
    if not model.kept:
        data, frames = stream(rng, mtu, 3, 0.0)
        got = []
        for chunk in chunks(rng, data):
            got += supply(ctx, proc, prim, model, chunk, returned)
        ctx.equal(got, frames, "the frames supplied weren't returned")
    ctx.sample({"mtu": mtu, "bytes": len(data), "oversize": oversize})


def every_cut(ctx, rng, index):
    from vtelem.classes.type_primitive import new_default
    from vtelem.frame.processor import FrameProcessor

    mtu = rng.choice([0, 3, 6])
    data, _ = stream(rng, mtu, rng.randint(1, 3), rng.choice([0, 0.5]))
    data = data[:30]
    prim = new_default("count")
    for first in range(len(data) + 1):
        for second in range(first, len(data) + 1):
            proc, model, returned = FrameProcessor(), Model(mtu), []
            for part in (data[:first], data[first:second], data[second:]):
                supply(ctx, proc, prim, model, part, returned)
            ctx.count("partitions")
    proc, model, returned = FrameProcessor(), Model(mtu), []
    for pos in range(len(data)):
        supply(ctx, proc, prim, model, data[pos : pos + 1], returned)


UNITS = {
    "history": (history, 12000, 100000),
    "every_cut": (every_cut, 360, 2000),
}
