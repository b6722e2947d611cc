"""C09: the stream writer delivers every frame to every healthy stream."""

import io
import os
import socket
import tempfile
import threading
import time
from pathlib import Path
from queue import Queue

from vmon import core, sched, wire

RULE = (
    "a case is a history of phases: streams (recording, in-memory, files, "
    "sockets, some failing at a chosen write or flush) and queues are added "
    "and removed, frames handled by a running writer; or the writer is "
    "preempted at chosen lines by additions and removals; distinct = (kind "
    "of stream, fault, frames received before, how it ended)"
)
ASSUME = [
    "a full client queue has the writer wait until it is read or removed",
    "closers and error handlers return and do not raise",
]
REQUIRE = {
    "frames": 500,
    "deliveries": 1500,
    "failed_streams": 150,
    "queue_deliveries": 400,
    "removed": 150,
    "interleavings": 80,
    "stress_runs": 4,
    "paired": 250,
    "bounded": 30,
    "abandoned": 8,
}
FAULTS = ["oserror", "closed", "short", "zero", "none", "long", "flush_os",
          "flush_closed", "broken_pipe"]


class Probe:
    """A stream that records, and fails when told to."""

    def __init__(self, fault=None, at=0):
        self.fault, self.at = fault, at
        self.chunks, self.flushes, self.after = [], 0, 0
        self.failed = False

    def write(self, data):
        raw = bytes(data)
        if self.failed:
            self.after += 1
        now = self.fault is not None and len(self.chunks) == self.at
        if now and not self.fault.startswith("flush"):
            self.failed = True
            if self.fault == "oserror":
                raise OSError("injected")
            if self.fault == "broken_pipe":
                raise BrokenPipeError("injected")
            if self.fault == "closed":
                raise ValueError("I/O operation on closed file")
            if self.fault == "none":
                return None
            if self.fault == "zero":
                return 0
            if self.fault == "long":
                return len(raw) + 1
            return len(raw) - 1
        self.chunks.append(raw)
        return len(raw)

    def flush(self):
        self.flushes += 1
        if (
            self.fault is not None
            and self.fault.startswith("flush")
            and len(self.chunks) == self.at + 1
        ):
            self.failed = True
            if self.fault == "flush_os":
                raise OSError("injected")
            raise ValueError("I/O operation on closed file")

    @property
    def name(self):
        # as with the file of a socket
        if self.failed and self.fault in ("closed", "flush_closed"):
            raise ValueError("I/O operation on closed file")
        return "probe"

    def got(self):
        return list(self.chunks)


class Sink:
    """A real stream; got() is all that reached it."""

    def __init__(self, ctx, rng):
        self.kind = rng.choice(["memory", "file", "raw", "socket"])
        self.fault, self.failed = None, False
        self.back = None
        if self.kind == "memory":
            self.stream = io.BytesIO()
        elif self.kind in ("file", "raw"):
            fdesc, self.path = tempfile.mkstemp()
            os.close(fdesc)
            self.stream = open(
                self.path, "wb", buffering=-1 if self.kind == "file" else 0
            )
            ctx.defer(os.remove, self.path)
        else:
            self.left, self.back = socket.socketpair()
            self.left.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
            self.stream = self.left.makefile("wb", buffering=0)
            ctx.defer(self.left.close)
            ctx.defer(self.back.close)
            self.seen = b""
        ctx.defer(self.stream.close)

    def got(self):
        """The bytes so far, split into frames."""
        if self.kind == "memory":
            raw = self.stream.getvalue()
        elif self.back is not None:
            self.back.setblocking(False)
            while True:
                try:
                    chunk = self.back.recv(1 << 16)
                except BlockingIOError:
                    break
                if not chunk:
                    break
                self.seen += chunk
            raw = self.seen
        else:
            if not self.stream.closed:
                self.stream.flush()
            with open(self.path, "rb") as src:
                raw = src.read()
        out = []
        while raw:
            size = 4 + int.from_bytes(raw[:4], "big")
            out.append(raw[:size])
            raw = raw[size:]
        return out


def make_frames(rng, count, start=0):
    """Distinct frames, of all sizes, and their stream form."""
    from vtelem.message.framer import MessageFramer

    framer = MessageFramer(9000, 0.5, rng.random() < 0.5)
    frames = []
    for num in range(start, start + count):
        size = rng.choice([0, 1, 20, 200, 3000])
        out, _ = framer.serialize_message(
            num.to_bytes(4, "big") + rng.randbytes(size)
        )
        frames += out
    return frames


def stream_form(frame):
    raw, size = frame.raw
    return wire.SIZE.pack(size) + bytes(raw[:size])


class Log:
    def __init__(self):
        self.closed, self.errors = [], []

    def closer(self, key):
        return lambda: self.closed.append(key)


def make_writer(rng, log, handler=True):
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = None
    if rng.random() < 0.5:
        env = TelemetryEnvironment(1000, metrics_rate=1.0)
    writer, queue = default_writer(
        "writer", log.errors.append if handler else None, env, maxsize=0
    )
    return writer, queue, env


class Client:
    """A stream or queue, with what it should have received."""

    def __init__(self, stream, want_closer, flush):
        self.stream, self.want_closer, self.flush = stream, want_closer, flush
        self.ident = None
        self.expect = []
        self.active = True
        self.ended = "open"


def handle_all(ctx, writer, queue, frames, rng):
    """Have a running writer handle frames."""
    before = rng.randint(0, len(frames))
    for frame in frames[:before]:
        queue.put(frame)
    if frames and rng.random() < 0.1:
        # nobody needs to run it as a daemon
        for frame in frames[before:]:
            queue.put(frame)
        queue.put(None)
        writer.run()
    else:
        ctx.check(writer.start(), "the writer can't be started")
        for frame in frames[before:]:
            queue.put(frame)
        ctx.check(writer.stop(), "the writer isn't running any more")
    ctx.check(queue.empty(), "the writer left frames in its queue")
    ctx.count("frames", len(frames))


def phases(ctx, rng, index):
    log = Log()
    handler_kind = rng.choice(["log", "log", "remove", "none"])
    writer, queue, env = make_writer(rng, log, handler_kind != "none")
    if handler_kind == "remove":
        # like the udp manager's, this one removes the stream itself

        def removing(ident):
            log.errors.append(ident)
            writer.remove_stream(ident)

        writer.error_handle = removing
    clients, queues = {}, {}
    used, used_queues = set(), set()
    errors, closed = [], []
    for _ in range(rng.choice([1, 3, 6])):
        for _ in range(rng.randint(0, 5)):
            act = rng.random()
            if act < 0.5:
                if rng.random() < 0.75:
                    fault = rng.choice(FAULTS + [None] * 4)
                    stream = Probe(fault, rng.randint(0, 4))
                    target, kind = stream, "probe"
                else:
                    stream = Sink(ctx, rng)
                    target, kind = stream.stream, stream.kind
                flush = rng.random() < 0.5
                if stream.fault is not None and "flush" in stream.fault:
                    flush = True
                client = Client(stream, rng.random() < 0.7, flush)
                client.kind = kind
                key = len(clients)
                closer = log.closer(key) if client.want_closer else None
                client.ident = writer.add_stream(target, closer, flush)
                ctx.check(client.ident not in used, "a stream id was reused")
                used.add(client.ident)
                clients[key] = client
            elif act < 0.65 and clients:
                key = rng.choice(list(clients))
                client = clients[key]
                call = rng.random() < 0.7
                result = writer.remove_stream(client.ident, call)
                ctx.equal(result, client.active, "wrong removal result")
                if client.active and call and client.want_closer:
                    closed.append(key)
                if client.active:
                    client.active, client.ended = False, "removed"
                    ctx.count("removed")
            elif act < 0.7:
                ctx.equal(
                    writer.remove_stream(max(used, default=0) + 5), False,
                    "an unknown stream was removed",
                )
            elif act < 0.9:
                if rng.random() < 0.5:
                    ident, mine = writer.registered_queue(
                        None if env is None else f"q{len(queues)}", 0
                    )
                else:
                    mine = Queue()
                    ident = writer.add_queue(mine)
                ctx.check(ident not in used_queues, "a queue id was reused")
                used_queues.add(ident)
                queues[ident] = {"queue": mine, "expect": [], "on": True}
            elif queues:
                ident = rng.choice(list(queues))
                inject = rng.random() < 0.7
                ctx.equal(
                    writer.remove_queue(ident, inject), queues[ident]["on"],
                    "wrong removal result",
                )
                if queues[ident]["on"] and inject:
                    queues[ident]["expect"].append(None)
                queues[ident]["on"] = False
            if rng.random() < 0.1 and clients:
                # a file closed behind the writer's back
                key = rng.choice(list(clients))
                if isinstance(clients[key].stream, Sink):
                    sink = clients[key].stream
                    if sink.kind in ("file", "raw", "socket"):
                        sink.stream.close()
                        sink.failed = True
        frames = make_frames(rng, rng.choice([0, 1, 3, 8]))
        raws = [stream_form(f) for f in frames]
        # what should happen
        for raw in raws:
            for key, client in clients.items():
                if not client.active:
                    continue
                stream = client.stream
                fails = False
                if isinstance(stream, Sink):
                    fails = stream.failed
                    if not fails:
                        client.expect.append(raw)
                elif stream.fault is not None and (
                    len(client.expect) == stream.at
                ):
                    fails = True
                    if stream.fault.startswith("flush"):
                        client.expect.append(raw)
                else:
                    client.expect.append(raw)
                if fails:
                    client.active, client.ended = False, "failed"
                    errors.append(client.ident)
                    ctx.count("failed_streams")
                    if client.want_closer:
                        closed.append(key)
        for item in queues.values():
            if item["on"]:
                item["expect"].extend(frames)
        handle_all(ctx, writer, queue, frames, rng)
        for key, client in clients.items():
            got = client.stream.got()
            ctx.check(
                got == client.expect,
                "a stream didn't receive exactly its frames",
                got=[len(g) for g in got],
                expected=[len(g) for g in client.expect],
                fault=client.stream.fault, ended=client.ended,
            )
            if isinstance(client.stream, Probe):
                ctx.equal(
                    client.stream.after, 0, "a failed stream was written to"
                )
                if client.flush and client.stream.fault is None:
                    ctx.check(
                        client.stream.flushes >= (1 if got else 0),
                        "a stream wasn't flushed",
                    )
            ctx.count("deliveries", len(got))
            ctx.distinct(
                client.kind, client.stream.fault, len(got), client.ended
            )
        for item in queues.values():
            got = list(item["queue"].queue)
            ctx.check(
                len(got) == len(item["expect"])
                and all(g is e for g, e in zip(got, item["expect"])),
                "a queue didn't receive exactly its frames",
            )
            ctx.count("queue_deliveries", len(got))
        if handler_kind != "none":
            ctx.equal(
                sorted(log.errors), sorted(errors),
                "failed streams weren't reported once each",
            )
        ctx.equal(
            sorted(log.closed), sorted(closed),
            "closers weren't called once each",
        )
    ctx.sample({k: (c.kind, c.stream.fault, c.ended) for k, c in clients.items()})


def contexts(ctx, rng, index):
    """Streams and files added as contexts."""
    log = Log()
    writer, queue, _ = make_writer(rng, log)
    top = tempfile.TemporaryDirectory()
    ctx.defer(top.cleanup)
    path = Path(top.name, "out.bin")
    content = b""
    for _ in range(rng.choice([1, 2, 4])):
        append = rng.random() < 0.6
        flush = rng.random() < 0.5
        frames = make_frames(rng, rng.choice([0, 1, 5]))
        raised = False
        mem = Probe()
        with_closer = rng.random() < 0.5
        before = len(log.closed)
        try:
            with writer.add_file(path, flush, append):
                with writer.stream_added(
                    mem, log.closer("mem") if with_closer else None
                ):
                    handle_all(ctx, writer, queue, frames, rng)
                    if rng.random() < 0.3:
                        raise KeyError("body")
        except KeyError:
            raised = True
        ctx.equal(
            len(log.closed) - before, int(with_closer),
            "a context's closer wasn't called once",
        )
        raws = [stream_form(f) for f in frames]
        content = (content if append else b"") + b"".join(raws)
        late = make_frames(rng, 1)
        handle_all(ctx, writer, queue, late, rng)
        ctx.equal(mem.got(), raws, "a context's stream got other frames")
        ctx.check(
            path.read_bytes() == content, "a file doesn't hold its frames",
            raised=raised, append=append, flush=flush,
        )
        ctx.equal(log.errors, [], "an error was reported for a file")
        ctx.count("removed", 2)
        ctx.count("deliveries", 2 * len(raws))
        ctx.distinct("context", append, flush, len(frames), raised)
    # a semaphore stream's closer releases
    probe = Probe(rng.choice([None, "oserror"]), 0)
    ident, sem = writer.add_semaphore_stream(probe)
    handle_all(ctx, writer, queue, make_frames(rng, 1), rng)
    done = sem.acquire(blocking=False)
    ctx.equal(done, probe.failed, "a semaphore was released too early or late")
    if not done:
        ctx.check(writer.remove_stream(ident), "can't remove a stream")
        ctx.check(sem.acquire(blocking=False), "a semaphore isn't released")
    ctx.check(not sem.acquire(blocking=False), "a closer was called twice")


def managers(ctx, rng, index):
    """Queue clients, closed together."""
    from vtelem.mtu import Host
    from vtelem.stream.writer import QueueClientManager

    log = Log()
    writer, queue, env = make_writer(rng, log)
    sides = [QueueClientManager(f"m{i}", writer) for i in range(2)]
    mine = {0: [], 1: []}
    alive = {0: set(), 1: set()}
    for step in range(rng.randint(2, 8)):
        which = rng.randrange(2)
        act = rng.random()
        if act < 0.6:
            addr = None
            if env is not None:
                addr = Host("10.0.0.1", 1000 + step)
            ident, got = sides[which].add_client_queue(addr)
            mine[which].append([ident, got, []])
            alive[which].add(ident)
        elif act < 0.75 and alive[which]:
            ident = rng.choice(sorted(alive[which]))
            ctx.check(writer.remove_queue(ident), "can't remove a queue")
            for item in mine[which]:
                if item[0] == ident:
                    item[2].append(None)
            alive[which].discard(ident)
        elif act < 0.85:
            ctx.equal(
                sides[which].close_clients(), len(alive[which]),
                "wrong number of clients closed",
            )
            for item in mine[which]:
                if item[0] in alive[which]:
                    item[2].append(None)
            alive[which] = set()
        frames = make_frames(rng, rng.choice([0, 1, 3]))
        handle_all(ctx, writer, queue, frames, rng)
        for side in (0, 1):
            for ident, got, want in mine[side]:
                if ident in alive[side]:
                    want.extend(frames)
                have = list(got.queue)
                ctx.check(
                    len(have) == len(want)
                    and all(g is w for g, w in zip(have, want)),
                    "a client queue didn't receive exactly its frames",
                )
                ctx.count("queue_deliveries", len(have))
    ctx.distinct("managers", [len(v) for v in mine.values()])


def run_of(got, whole):
    """The index at which a contiguous run starts, or None."""
    if not got:
        return 0
    if got[0] not in whole:
        return None
    start = whole.index(got[0])
    return start if whole[start : start + len(got)] == got else None


class Member:
    """A stream of a concurrent case and when it was a member."""

    def __init__(self, witness):
        self.witness = witness
        self.probe = Probe()
        self.added_from, self.added_by = 0, 0
        self.removed_by = None
        self.ident = None

    def add(self, writer, closer=None):
        self.added_from = len(self.witness.chunks)
        self.ident = writer.add_stream(self.probe, closer)
        self.added_by = len(self.witness.chunks)

    def remove(self, writer):
        out = writer.remove_stream(self.ident)
        self.removed_by = len(self.witness.chunks)
        return out

    def judge(self, ctx, whole):
        got = self.probe.got()
        start = run_of(got, whole)
        ctx.check(start is not None, "frames lost, repeated or reordered")
        end = start + len(got)
        if got:
            ctx.check(
                start >= self.added_from - 1,
                "a frame from before the addition",
            )
        if self.removed_by is None:
            if self.added_by + 1 < len(whole) or got:
                ctx.check(
                    start <= self.added_by + 1 and end == len(whole),
                    "frames after the addition are missing",
                    start=start, end=end, added_by=self.added_by,
                )
        else:
            if got:
                ctx.check(
                    end <= self.removed_by + 1,
                    "a removed stream got more than the frame in progress",
                )
        return got


def preempted(ctx, rng, index):
    """The writer preempted by additions and removals."""
    count = rng.choice([2, 3])
    act = ["add", "remove", "remove_other", "queue", "unqueue", "fail",
           "swap", "close"][index % 8]
    frames = make_frames(rng, count)
    raws = [stream_form(f) for f in frames]
    state = {}

    def make():
        log = Log()
        writer, queue, _ = make_writer(rng, log)
        witness = Probe()
        writer.add_stream(witness)
        second = Member(witness)
        second.add(writer, log.closer("second"))
        late = Probe()
        writer.add_stream(late, log.closer("late"))
        plain = Queue()
        state["queue_id"] = writer.add_queue(plain)
        other = Queue()
        writer.add_queue(other)
        state.update(
            log=log, witness=witness, second=second, late=late, plain=plain,
            other=other, extra=Member(witness), fail=None, joined=None,
            removed=None,
        )
        if act == "fail":
            state["fail"] = Probe("oserror", 1)
            state["fail_id"] = writer.add_stream(
                state["fail"], log.closer("fail")
            )
        for frame in frames:
            queue.put(frame)
        queue.put(None)

        def change():
            if act == "add":
                state["extra"].add(writer)
            elif act == "remove":
                return second.remove(writer)
            elif act == "remove_other":
                return writer.remove_stream(99)
            elif act == "queue":
                mine = Queue()
                state["joined"] = mine
                writer.add_queue(mine)
                state["joined_by"] = len(witness.chunks)
            elif act == "unqueue":
                writer.remove_queue(state["queue_id"])
                state["removed"] = len(witness.chunks)
            elif act == "fail":
                return writer.remove_stream(state["fail_id"])
            elif act == "swap":
                second.remove(writer)
                state["extra"].add(writer)
            elif act == "close":
                second.remove(writer)
                second.probe.at = len(second.probe.chunks)
                second.probe.fault = "closed"
            return None

        return [writer.run, change]

    def verify(outs, runner):
        sched.no_errors(outs)
        log = state["log"]
        ctx.equal(
            state["witness"].got(), raws, "another stream lost frames"
        )
        ctx.equal(state["late"].got(), raws, "another stream lost frames")
        ctx.check(
            list(state["other"].queue) == frames, "another queue lost frames"
        )
        state["second"].judge(ctx, raws)
        if state["extra"].ident is not None:
            state["extra"].judge(ctx, raws)
        expect = ["second"] if act in ("remove", "swap", "close") else []
        if act == "fail":
            expect = ["fail"]
            ctx.check(
                state["fail"].got() in ([], raws[:1]),
                "a failed stream got frames",
            )
            ctx.check(
                log.errors in ([], [state["fail_id"]]),
                "a failed stream wasn't reported once",
            )
        elif act == "close":
            ctx.check(
                log.errors in ([], [state["second"].ident]),
                "a healthy stream was reported",
            )
        else:
            ctx.equal(log.errors, [], "a healthy stream was reported")
        ctx.equal(log.closed, expect, "closers weren't called once each")
        have = list(state["plain"].queue)
        if state["removed"] is None:
            ctx.check(have == frames, "a queue lost frames")
        else:
            ctx.equal(have.count(None), 1, "no end marker for a queue")
            have.remove(None)
            ctx.check(
                have == frames[: len(have)]
                and len(have) <= state["removed"] + 1,
                "a removed queue got other frames",
            )
        if state["joined"] is not None:
            have = list(state["joined"].queue)
            ctx.check(
                have == frames[len(frames) - len(have) :]
                and len(have) >= len(frames) - state["joined_by"] - 1,
                "an added queue lost frames",
            )
        ctx.count("frames", count)
        ctx.distinct("preempted", act, len(state["second"].probe.chunks))

    sched.sweep(
        ctx, make, verify, rng, 20 if ctx.tier == "quick" else None,
        4 if ctx.tier == "quick" else 20,
    )


def crowd(ctx, rng, index):
    """Several threads adding, removing and failing streams meanwhile."""
    log = Log()
    writer, queue, _ = make_writer(rng, log)
    witness, last = Probe(), Probe()
    writer.add_stream(witness)
    fan = Queue()
    writer.add_queue(fan)
    count = 60
    frames = make_frames(rng, count)
    raws = [stream_form(f) for f in frames]
    members, failing = [], []
    idents = []

    def feeder():
        for frame in frames:
            queue.put(frame)

    def churn(seed):
        import random as mod

        mine = mod.Random(seed)

        def body():
            for num in range(8):
                if mine.random() < 0.3:
                    probe = Probe(mine.choice(FAULTS[:5]), mine.randint(0, 3))
                    key = ("fail", seed, num)
                    ident = writer.add_stream(probe, log.closer(key))
                    idents.append(ident)
                    failing.append((probe, ident, key))
                    continue
                member = Member(witness)
                key = ("member", seed, num)
                member.key = key
                member.add(writer, log.closer(key))
                idents.append(member.ident)
                members.append(member)
                if mine.random() < 0.6:
                    assert member.remove(writer), "not removed"

        return body

    seeds = [rng.random() for _ in range(3)]
    ctx.check(writer.start(), "the writer can't be started")
    outs = sched.stress(ctx, rng, [feeder] + [churn(s) for s in seeds])
    sched.no_errors(outs)
    writer.add_stream(last)
    end = make_frames(rng, 1, count + 1)
    queue.put(end[0])
    ctx.check(writer.stop(), "the writer isn't running any more")
    raws.append(stream_form(end[0]))
    ctx.equal(last.got()[-1:], raws[-1:], "the last frame is missing")
    ctx.equal(witness.got(), raws, "a stream lost frames")
    ctx.check(
        [f for f in fan.queue] == frames + end, "a queue lost frames"
    )
    ctx.equal(len(set(idents)), len(idents), "a stream id was given twice")
    closed = []
    for member in members:
        got = member.judge(ctx, raws)
        ctx.count("deliveries", len(got))
        if member.removed_by is not None:
            closed.append(member.key)
            ctx.count("removed")
    errors = []
    for probe, ident, key in failing:
        got = probe.got()
        ctx.check(run_of(got, raws) is not None, "frames lost or repeated")
        if probe.failed:
            errors.append(ident)
            closed.append(key)
            ctx.count("failed_streams")
        else:
            # too late to reach its fault
            ctx.check(len(got) <= probe.at, "a faulty stream didn't fail")
    ctx.equal(sorted(log.errors), sorted(errors), "wrong errors reported")
    ctx.equal(sorted(log.closed), sorted(closed), "wrong closers called")
    ctx.count("frames", len(raws))
    ctx.distinct("crowd", len(members), len(failing), len(errors))


def paired(ctx, rng, index):
    """Additions and removals preempted by each other."""
    kinds = ["stream", "queue", "context", "unstream", "unqueue", "manager"]
    pairs = [(a, b) for a in kinds for b in kinds]
    first, second = pairs[index % len(pairs)]
    frames = make_frames(rng, 2)
    raws = [stream_form(f) for f in frames]
    now = {}

    def operation(kind, num):
        writer = now["writer"]
        if kind == "stream":
            probe = now["probes"][num] = Probe()
            return lambda: writer.add_stream(
                probe, now["log"].closer(num), rng.random() < 0.5
            )
        if kind == "queue":
            mine = now["queues"][num] = Queue()
            return lambda: writer.add_queue(mine)
        if kind == "context":
            probe = now["gone"][num] = Probe()

            def entered():
                with writer.stream_added(probe, now["log"].closer(num)):
                    pass

            return entered
        if kind == "unstream":
            return lambda: writer.remove_stream(now["stream_id"])
        if kind == "unqueue":
            return lambda: writer.remove_queue(now["queue_id"])

        def managed():
            _, mine = now["manager"].add_client_queue()
            now["queues"][num] = mine

        return managed

    def make():
        from vtelem.stream.writer import QueueClientManager

        log = Log()
        writer, queue, env = make_writer(rng, log)
        now.update(
            log=log, writer=writer, queue=queue, env=env, probes={},
            queues={}, gone={}, old=Probe(), left=Queue(), stay=Probe(),
            manager=QueueClientManager("clients", writer),
        )
        now["stream_id"] = writer.add_stream(now["old"], log.closer("old"))
        now["queue_id"] = writer.add_queue(now["left"])
        now["stay_id"] = writer.add_stream(now["stay"], log.closer("stay"))
        return [operation(first, 0), operation(second, 1)]

    def verify(outs, runner):
        sched.no_errors(outs)
        log, writer, both = now["log"], now["writer"], (first, second)
        for frame in frames:
            now["queue"].put(frame)
        now["queue"].put(None)
        writer.run()
        for probe in list(now["probes"].values()) + [now["stay"]]:
            ctx.equal(probe.got(), raws, "a stream added lacks frames",
                      pair=both)
        for queue in now["queues"].values():
            ctx.check(list(queue.queue) == frames,
                      "a queue added lacks frames", pair=both)
        for probe in now["gone"].values():
            ctx.equal(probe.got(), [], "a removed stream got frames")
        ids = [o.value for o, k in zip(outs, both) if k == "stream"]
        ids += [now["stream_id"], now["stay_id"]]
        ctx.equal(len(set(ids)), len(ids), "two streams have one id", ids=ids)
        ids = [o.value for o, k in zip(outs, both) if k == "queue"]
        ids += [now["queue_id"]]
        ctx.equal(len(set(ids)), len(ids), "two queues have one id", ids=ids)
        for kind in ("unstream", "unqueue"):
            if kind in both:
                done = [o.value for o, k in zip(outs, both) if k == kind]
                ctx.equal(sorted(done), [False] * (len(done) - 1) + [True],
                          "not removed once", pair=both)
        ctx.equal(
            now["old"].got(), [] if "unstream" in both else raws,
            "frames of a stream",
        )
        ctx.check(
            list(now["left"].queue)
            == ([None] if "unqueue" in both else frames),
            "frames of a queue", pair=both,
        )
        want = [n for n, k in enumerate(both) if k == "context"]
        want += ["old"] * ("unstream" in both)
        ctx.equal(sorted(map(str, log.closed)), sorted(map(str, want)),
                  "closers weren't called once each", pair=both)
        if now["env"] is not None:
            have = 2 + both.count("stream") - ("unstream" in both)
            ctx.equal(now["env"].get_metric("writer.stream_count"), have,
                      "the streams counted", pair=both)
            have = (1 + both.count("queue") + both.count("manager")
                    - ("unqueue" in both))
            ctx.equal(now["env"].get_metric("writer.queue_count"), have,
                      "the queues counted", pair=both)
        ctx.count("paired")
        ctx.distinct("paired", both, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(ctx, make, verify, rng, 20 if quick else None,
                3 if quick else 20)


def bounded(ctx, rng, index):
    """Client queues with little room, read slowly, late or not any more."""
    log = Log()
    writer, queue, env = make_writer(rng, log)
    witness = Probe()
    writer.add_stream(witness)
    room = rng.choice([1, 2, 5])
    name = rng.choice([None, "few"])
    if rng.random() < 0.5:
        ident, few = writer.registered_queue(name, room)
    else:
        few = writer.get_queue(name, room)
        ident = writer.add_queue(few)
    other = Queue()
    writer.add_queue(other)
    count = room + rng.randint(1, 6)
    frames = make_frames(rng, count)
    raws = [stream_form(f) for f in frames]
    mode = rng.choice(["slow", "late", "left", "left", "ended"])
    got, done = [], threading.Event()

    def read():
        while True:
            elem = few.get()
            if elem is None:
                break
            got.append(elem)
            if mode == "slow":
                time.sleep(rng.choice([0, 0.001]))
        done.set()

    reader = threading.Thread(target=read, daemon=True)
    if mode == "slow":
        reader.start()
    else:
        ctx.defer(writer.remove_queue, ident, False)
    ctx.check(writer.start(), "the writer can't be started")
    for frame in frames:
        queue.put(frame)
    if mode == "slow":
        ctx.check(
            core.wait_for(lambda: len(got) == count),
            "a frame isn't delivered to a slow reader", room=room,
        )
        ctx.check(writer.remove_queue(ident), "a queue wasn't removed")
        ctx.check(done.wait(10), "no end was injected")
        ctx.check(got == frames, "frames of a slow reader", room=room)
    else:
        ctx.check(
            core.wait_for(lambda: len(witness.chunks) > room),
            "frames aren't written", room=room, got=len(witness.chunks),
        )
        ctx.check(list(few.queue) == frames[:room], "frames of a full queue")
        if mode == "late":
            reader.start()
            ctx.check(
                core.wait_for(lambda: len(got) == count),
                "a frame isn't delivered to a late reader", room=room,
            )
            ctx.check(got == frames, "frames of a late reader", room=room)
            ctx.check(writer.remove_queue(ident), "a queue wasn't removed")
            ctx.check(done.wait(10), "no end was injected")
        elif mode == "left":
            ctx.check(
                writer.remove_queue(ident, False), "a queue wasn't removed"
            )
            ctx.check(
                core.wait_for(lambda: len(witness.chunks) == count),
                "a removed queue blocks the writer", room=room,
                got=len(witness.chunks), want=count,
            )
            ctx.check(
                list(few.queue) == frames[:room], "frames after a removal"
            )
            ctx.count("abandoned")
        else:
            # the end waits for room as well
            taker = threading.Thread(
                target=writer.remove_queue, args=(ident,), daemon=True
            )
            taker.start()
            time.sleep(rng.choice([0, 0.001, 0.02]))
            reader.start()
            ctx.check(done.wait(10), "no end was injected")
            taker.join(10)
            ctx.check(not taker.is_alive(), "a removal doesn't end")
            ctx.check(
                got == frames[: len(got)] and room <= len(got),
                "frames of a removed queue", got=len(got), room=room,
            )
    ctx.check(writer.stop(), "the writer isn't running any more")
    ctx.equal(witness.got(), raws, "another stream lost frames")
    ctx.check(list(other.queue) == frames, "another queue lost frames")
    ctx.check(
        not writer.remove_queue(ident), "a queue was removed again"
    )
    if env is not None:
        ctx.equal(env.get_metric("writer.queue_count"), 1,
                  "the queues counted", mode=mode)
    ctx.count("bounded")
    ctx.count("frames", count)
    ctx.distinct("bounded", mode, room, count)


UNITS = {
    "bounded": (bounded, 72, 600),
    "paired": (paired, 108, 360),
    "phases": (phases, 1200, 8000),
    "contexts": (contexts, 180, 2000),
    "managers": (managers, 180, 1500),
    "preempted": (preempted, 120, 200),
    "crowd": (crowd, 72, 300),
}
