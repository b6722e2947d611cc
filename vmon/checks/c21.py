"""C21: published metrics agree with what happened."""

import io
import random
import threading
from queue import Empty, Full

from vmon import core, sched, wire
from vmon.checks.c01 import drain, prim
from vmon.checks.c03 import elements
from vmon.checks.c04 import decode

RULE = (
    "a case makes a history of dispatches, registrations, queue, stream, "
    "command and daemon operations (accepted, refused and timed out), from "
    "one thread, with one preempted at its lines by another, or from many, "
    "and counts on its own what happened (in decoded frames, in queues, in "
    "streams); distinct = (operations, outcome) or preemption point"
)
ASSUME = [
    "metrics are read at rest",
    "counts stay within the metrics' types",
    "the names of metered queues differ",
]
REQUIRE = {
    "metrics_checked": 8000,
    "dispatched": 1500,
    "events": 3000,
    "registrations": 500,
    "refused": 400,
    "queue_operations": 1000,
    "queue_refusals": 300,
    "interleavings": 150,
    "stress_runs": 8,
    "stream_writes": 400,
    "plain_operations": 2000,
}


class Flaky(io.BytesIO):
    """A stream that may fail, and knows what it got."""

    def __init__(self, rng, chance):
        super().__init__()
        self.rng, self.chance, self.good, self.size = rng, chance, 0, 0
        self.last, self.mode = 0, rng.choice(["raise", "short", "flush"])

    def write(self, data):
        fails = self.rng.random() < self.chance
        self.last = len(data)
        if fails and self.mode == "raise":
            raise OSError("broken")
        if fails and self.mode == "short":
            return self.last - 1
        self.good += 1
        self.size += self.last
        return super().write(data)

    def flush(self):
        # a write whose flush fails isn't one
        if self.mode == "flush" and self.rng.random() < self.chance:
            self.good -= 1
            self.size -= self.last
            raise OSError("broken")


class World:
    """An environment with metrics, and counts of what happened to it."""

    def __init__(self, ctx, rng):
        from vtelem.classes.user_enum import user_enum
        from vtelem.daemon.command_queue import CommandQueueDaemon
        from vtelem.daemon.synchronous import Daemon
        from vtelem.stream.writer import default_writer
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.ctx, self.rng, self.user_enum = ctx, rng, user_enum
        self.rate = rng.choice([0.0, 0.0, 1.0])
        channels = None
        if rng.random() < 0.3:
            from vtelem.channel import Channel

            channels = [Channel(f"first{n}", prim("int8"), 0.0)
                        for n in range(3)]
        enums = None
        if rng.random() < 0.3:
            enums = [user_enum("early", {0: "a"})]
        self.env = TelemetryEnvironment(
            rng.choice([256, 2**11]), 0.0, rng.choice([0.5, 1.0]),
            channels, enums, app_id_basis=1.0,
        )
        env = self.env
        self.frames, self.clock = [], 0.0
        self.lock = threading.Lock()
        self.truth = {
            "dispatch_count": 0, "app.extra": 0, "writer.stream_count": 0,
            "writer.queue_count": 0, "writer.queue_writes": 0,
        }
        self.chans = [
            env.add_channel(f"c{n}", prim("int32"), self.rate, n % 2 == 0)
            for n in range(4)
        ]
        self.numbers = iter(range(1 << 30))
        self.queues = {}
        for name, size in (("one", 1), ("few", 3), ("many", 40)):
            self.queues[name] = self.metered(name, size)
        self.history = {n: [0, 0] for n in self.queues}
        self.writer, self.input = default_writer("writer", env=env)
        self.history["writer.queue"] = [0, 0]
        self.queues["writer.queue"] = self.input
        self.app = Daemon("app", lambda *_, **__: None, 0.002, env=env)
        self.app.increment_metric("extra", 0)
        self.cmd = CommandQueueDaemon("cmd", env)
        self.cmds = {"command": 0, "success": 0, "failure": 0, "rejected": 0}
        self.cmd.register_consumer("ok", lambda _: (True, ""))
        self.cmd.register_consumer("bad", lambda _: (False, ""))
        self.cmd.register_consumer("oops", lambda _: 1 // 0)
        self.streams, self.clients, self.ended = {}, {}, []
        self.channels0 = env.channel_registry.count()
        self.enums0 = env.enum_registry.count()
        self.types0 = env.type_registry.count()
        self.more = {"channel": 0, "enum": 0}

    def metered(self, name, size):
        from vtelem.classes.metered_queue import MeteredQueue

        return MeteredQueue(name, self.env, size)

    def add(self, name, amount=1):
        with self.lock:
            self.truth[name] = self.truth.get(name, 0) + amount

    def note(self, name, which):
        with self.lock:
            self.history[name][which] += 1

    def judge(self, trace=None):
        """Every metric against what happened."""
        ctx, env = self.ctx, self.env
        types = {
            n: env.channel_registry.get_channel_type(n).name.lower()
            for n in range(env.channel_registry.count())
        }
        want = dict(self.truth)
        frames = self.frames + list(env.frame_queue.queue)
        want["emits_captured"] = len(elements(ctx, frames, types, True))
        want["events_captured"] = len(decode(ctx, frames, types, True))
        want["channel_count"] = self.channels0 + self.more["channel"]
        want["enum_count"] = self.enums0 + self.more["enum"]
        want["type_count"] = self.types0 + self.more["enum"]
        waiting = env.frame_queue.qsize()
        want["frame_queue.elements"] = waiting
        want["frame_queue.total_dequeued"] = len(self.frames)
        want["frame_queue.total_enqueued"] = len(self.frames) + waiting
        for name, (puts, gets) in self.history.items():
            real = self.queues[name].qsize()
            ctx.equal(real, puts - gets, "a queue's history is wrong")
            want[f"{name}_queue.elements"] = real
            want[f"{name}_queue.total_enqueued"] = puts
            want[f"{name}_queue.total_dequeued"] = gets
        streams = list(self.streams.values()) + self.ended
        want["writer.stream_writes"] = sum(s.good for s in streams)
        want["writer.bytes_written"] = sum(s.size for s in streams)
        for name, count in self.cmds.items():
            want[f"cmd.{name}_count"] = count
        wrong = {}
        for name, need in want.items():
            got = env.get_metric(name)
            if got != need:
                wrong[name] = (got, need)
        ctx.check(
            not wrong, "metrics don't agree with what happened (got, expected)",
            metrics=wrong, trace=trace,
        )
        ctx.equal(
            env.channel_registry.count(), want["channel_count"],
            "not as many channels as were added",
        )
        ctx.count("metrics_checked", len(want))
        ctx.count("events", want["events_captured"])
        ctx.count("stream_writes", want["writer.stream_writes"])

    def take(self):
        got = drain(self.env)
        with self.lock:
            self.frames += got

    # operations ------------------------------------------------------------
    def dispatch(self):
        with self.lock:
            self.clock += self.rng.choice([0.25, 0.25, 0.0])
            when = self.clock
        self.env.dispatch(when, False)
        self.add("dispatch_count")
        self.ctx.count("dispatched")

    def change(self):
        env, rng = self.env, self.rng
        for _ in range(rng.choice([1, 5, 40])):
            env.set_now(rng.choice(self.chans), rng.randrange(1 << 20))

    def channel(self):
        env, num = self.env, next(self.numbers)
        pick = num % 5
        try:
            if pick == 0:
                env.add_channel("c0", prim("int8"), 0.0)
            elif pick == 1:
                env.add_channel(f"n{num}", prim("int8"), 0.0, True, (999, None))
            elif pick == 2:
                env.add_enum_channel(f"n{num}", "frame_type", 0.0, True)
            else:
                env.add_channel(f"n{num}", prim("int8"), self.rate, True)
        except AssertionError:
            self.ctx.check(pick < 2, "a registration was refused")
            self.ctx.count("refused")
            return
        self.ctx.check(pick >= 2, "an impossible registration was accepted")
        with self.lock:
            self.more["channel"] += 1
        self.ctx.count("registrations")

    def enum(self):
        env, num = self.env, next(self.numbers)
        pick = num % 4
        if pick == 0:
            ident = env.add_enum(env.framer.frame_types)
            self.ctx.check(ident is not None, "a known enum has no id")
            self.ctx.count("refused")
            return
        if pick == 1:
            try:
                env.add_enum(self.user_enum("int8", {0: "a"}))
                self.ctx.fail("an impossible enum was accepted")
            except AssertionError:
                self.ctx.count("refused")
            return
        env.add_enum(self.user_enum(f"e{num}", {0: "a", 1: "b"}))
        with self.lock:
            self.more["enum"] += 1
        self.ctx.count("registrations")

    def put(self, name=None, **kwargs):
        name = name or self.rng.choice(["one", "few", "many"])
        queue, rng = self.queues[name], self.rng
        args = kwargs or rng.choice([
            {"block": False}, {"timeout": 0}, {"timeout": 0.0005},
            {"block": False, "timeout": 5}, {"timeout": -1},
        ])
        pick = rng.randrange(3)
        try:
            if pick == 0 and args == {"block": False}:
                queue.put_nowait(1)
            else:
                queue.put(1, **args)
            self.note(name, 0)
        except (Full, ValueError):
            self.ctx.count("queue_refusals")
        self.ctx.count("queue_operations")

    def get(self, name=None):
        name = name or self.rng.choice(["one", "few", "many"])
        queue, rng = self.queues[name], self.rng
        args = rng.choice([
            {"block": False}, {"timeout": 0}, {"timeout": 0.0005},
            {"timeout": -1},
        ])
        try:
            if args == {"block": False} and rng.random() < 0.5:
                queue.get_nowait()
            else:
                queue.get(**args)
            self.note(name, 1)
        except (Empty, ValueError):
            self.ctx.count("queue_refusals")
        self.ctx.count("queue_operations")

    def frame_get(self):
        try:
            frame = self.env.get_next_frame(timeout=0)
        except Empty:
            self.ctx.count("queue_refusals")
            return
        with self.lock:
            self.frames.append(frame)

    def daemon(self):
        pick = self.rng.randrange(3)
        if pick == 0:
            self.app.increment_metric("extra", 3)
            self.add("app.extra", 3)
        else:
            self.app.increment_metric("extra")
            self.add("app.extra")

    def lower(self):
        self.app.increment_metric("extra", 2)
        self.app.decrement_metric("extra")
        self.add("app.extra")

    def metric(self):
        num = next(self.numbers)
        name = f"m{num}"
        self.env.add_metric(name, prim("uint32"), True, (num, None))
        self.env.add_metric(name, prim("uint32"), True, (num + 1, None))
        self.env.metric_add(name, 2)
        self.add(name, num + 2)
        with self.lock:
            self.more["channel"] += 1
        self.ctx.count("registrations")

    def stream(self):
        rng = self.rng
        with self.lock:
            known = list(self.streams)
        if known and rng.random() < 0.5:
            ident = rng.choice(known)
            if self.writer.remove_stream(ident, rng.random() < 0.5):
                self.add("writer.stream_count", -1)
            with self.lock:
                gone = self.streams.pop(ident, None)
                if gone is not None:
                    self.ended.append(gone)
            self.writer.remove_stream(10**6)
            return
        stream = Flaky(rng, rng.choice([0.0, 0.0, 0.3]))
        ident = self.writer.add_stream(stream, flush=rng.random() < 0.5)
        with self.lock:
            self.streams[ident] = stream
        self.add("writer.stream_count")

    def client(self):
        rng = self.rng
        with self.lock:
            known = list(self.clients)
        if known and rng.random() < 0.5:
            ident = rng.choice(known)
            if self.writer.remove_queue(ident, rng.random() < 0.5):
                self.add("writer.queue_count", -1)
            with self.lock:
                self.clients.pop(ident, None)
            return
        ident, queue = self.writer.registered_queue(None, 0)
        with self.lock:
            self.clients[ident] = queue
        self.add("writer.queue_count")

    def write(self):
        """What the writer's thread does for each frame."""
        self.dispatch()
        while True:
            try:
                frame = self.env.frame_queue.get(False)
            except Empty:
                break
            with self.lock:
                self.frames.append(frame)
            with self.lock:
                streams, clients = dict(self.streams), dict(self.clients)
            self.writer.handle(frame)
            self.add("writer.queue_writes", len(clients))
            for ident, stream in streams.items():
                if ident not in self.writer.streams:
                    self.add("writer.stream_count", -1)
                    with self.lock:
                        del self.streams[ident]
                        self.ended.append(stream)

    def command(self):
        rng = self.rng
        pick = rng.choice(["ok", "bad", "oops", "none", None])
        results = []
        self.cmd.handle((
            {"command": pick} if pick else "junk",
            lambda *res: results.append(res),
        ))
        with self.lock:
            self.cmds["command"] += 1
            self.cmds[
                {"ok": "success", "bad": "failure", "oops": "failure"}.get(
                    pick, "rejected"
                )
            ] += 1
        self.ctx.equal(len(results), 1, "not one result")


SAFE = ["dispatch", "change", "channel", "enum", "put", "get", "frame_get",
        "daemon", "lower", "metric"]
ALL = SAFE + ["stream", "client", "write", "command"]


def scripted(ctx, rng, index):
    world = World(ctx, rng)
    world.judge()
    done = []
    for _ in range(60):
        name = rng.choice(ALL)
        getattr(world, name)()
        done.append(name)
        if world.env.frame_queue.qsize() > 150:
            world.take()
        if rng.random() < 0.15:
            world.judge()
    world.judge()
    world.take()
    world.judge()
    ctx.distinct("scripted", tuple(done[:2]), len(world.frames))
    if index < 2:
        ctx.sample({"operations": done, "truth": world.truth})


def services(ctx, rng, index):
    """The daemons' own threads count as well."""
    world = World(ctx, rng)
    env, writer, cmd, app = world.env, world.writer, world.cmd, world.app
    sinks = [Flaky(rng, 0.0) for _ in range(rng.randint(0, 3))]
    for sink in sinks:
        world.streams[writer.add_stream(sink)] = sink
        world.add("writer.stream_count")
    for _ in range(rng.randint(0, 2)):
        ident, queue = writer.registered_queue(None, 0)
        world.clients[ident] = queue
        world.add("writer.queue_count")
    assert writer.start() and cmd.start()
    for turn in range(rng.randint(1, 5)):
        world.change()
        world.dispatch()
        for frame in drain(env):
            world.frames.append(frame)
            world.input.put(frame)
            world.note("writer.queue", 0)
            world.add("writer.queue_writes", len(world.clients))
        word, key = rng.choice(
            [("ok", "success"), ("bad", "failure"), ("oops", "failure"),
             ("what", "rejected")]
        )
        result = cmd.execute({"command": word})
        ctx.equal(result[0], word == "ok", "a command's result is wrong")
        world.cmds["command"] += 1
        world.cmds[key] += 1
        app.start()
        if rng.random() < 0.5:
            with app.paused():
                world.add("app.pauses")
                world.add("app.unpauses")
        app.stop()
        world.add("app.starts")
        world.add("app.stops")
    total = world.history["writer.queue"][0]
    assert writer.stop() and cmd.stop()
    world.truth.update({
        "app.count": 1, "writer.count": 1, "cmd.count": 1, "writer.starts": 1,
        "cmd.stops": 1, "writer.errors": 0, "app.errors": 0,
    })
    # the end marks are queued and taken as well
    world.history["writer.queue"] = [total + 1, total + 1]
    world.judge()
    ctx.distinct("services", len(sinks), len(world.clients), total)


def preempted(ctx, rng, index):
    pairs = [
        ("put", "get"), ("put", "put"), ("get", "get"), ("dispatch", "dispatch"),
        ("channel", "channel"), ("channel", "dispatch"), ("enum", "enum"),
        ("daemon", "daemon"), ("lower", "daemon"), ("same", "same"),
        ("dispatch", "frame_get"), ("stream", "stream"), ("client", "client"),
        ("write", "stream"), ("metric", "metric"), ("queue", "queue"),
    ]
    first, second = pairs[index % len(pairs)]
    state = {}
    seed = rng.random()

    def make():
        world = World(ctx, random.Random(seed))
        state["world"] = world
        if "get" in (first, second):
            world.put("one", block=False)
            world.put("few", block=False)
        if first == "write":
            flaky = Flaky(world.rng, 0.0)
            ident = world.writer.add_stream(flaky)
            world.streams[ident] = flaky
            world.add("writer.stream_count")
        if first == "get" or second == "frame_get":
            world.dispatch()

        def same():
            world.env.add_metric("new", prim("uint32"), True, (5, None))
            world.env.metric_add("new", 2)

        def queue():
            made = world.metered(f"q{next(world.numbers)}", 3)
            made.put(1)
            with world.lock:
                name = made.name[:-len("_queue")]
                world.queues[name] = made
                world.history[name] = [1, 0]
                world.more["channel"] += 3

        def write():
            world.dispatch()
            for frame in drain(world.env):
                with world.lock:
                    world.frames.append(frame)
                world.writer.handle(frame)

        def stream():
            flaky = Flaky(world.rng, 1.0)
            world.ended.append(flaky)
            ident = world.writer.add_stream(flaky)
            world.writer.remove_stream(ident)

        fresh = [world.user_enum(f"f{n}", {0: "a"}) for n in range(8)]

        def channel():
            world.env.add_channel(
                f"n{next(world.numbers)}", prim("int8"), 0.0, True
            )
            with world.lock:
                world.more["channel"] += 1

        def enum():
            world.env.add_enum(fresh.pop())
            with world.lock:
                world.more["enum"] += 1

        special = {"same": same, "queue": queue}
        if first in ("channel", "enum") and index % 3:
            special.update(channel=channel, enum=enum)
        if first == "write":
            special.update(write=write, stream=stream)

        def op(name):
            call = special.get(name) or getattr(world, name)

            def run():
                for _ in range(2):
                    call()

            return run

        return [op(first), op(second)]

    def verify(outs, runner):
        sched.no_errors(outs)
        world = state["world"]
        if first == "same":
            world.truth["new"] = 5 + 8
            world.more["channel"] += 1
        world.take()
        world.judge(runner.trace)
        ctx.distinct("preempted", first, second, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng,
        # counts read and set are the widest windows
        (100 if quick else 400) if first == "enum" else (14 if quick else 250),
        4 if quick else 20,
    )


def stressed(ctx, rng, index):
    world = World(ctx, rng)
    env = world.env
    plain = index % 2 == 0
    names = SAFE if plain else ALL
    stop = threading.Event()

    def worker(mine):
        picks = [mine.choice(names) for _ in range(30)]

        def run():
            for name in picks:
                if name in ("stream", "client", "write"):
                    # the writer has one thread, and this is a part of it
                    with gate:
                        getattr(world, name)()
                else:
                    getattr(world, name)()
        return run

    gate = threading.Lock()

    def consumer():
        while not stop.is_set():
            world.frame_get()

    side = threading.Thread(target=consumer, daemon=True)
    side.start()
    try:
        outs = sched.stress(
            ctx, rng,
            [worker(random.Random(rng.random())) for _ in range(5)], 0.03,
            0.0004,
        )
    finally:
        stop.set()
        side.join()
    sched.no_errors(outs)
    world.take()
    world.judge()
    env.dispatch(10.0**6, False)
    world.add("dispatch_count")
    world.take()
    world.judge()
    ctx.distinct("stressed", plain, len(world.frames))


def plain(ctx, rng, index):
    """Metrics only report: without them everything else is the same."""
    from vtelem.classes.metered_queue import MeteredQueue
    from vtelem.classes.user_enum import user_enum
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.daemon.synchronous import Daemon
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment

    seed = rng.random()
    seen = []
    for rate in (None, 0.5):
        mine = random.Random(seed)
        env = TelemetryEnvironment(2**11, 0.0, rate, app_id_basis=1.0)
        queue = MeteredQueue("q", env, 2)
        writer, _ = default_writer("writer", env=env)
        daemon = Daemon("app", lambda *_, **__: None, 0.01, env=env)
        cmd = CommandQueueDaemon("cmd", env)
        base = env.channel_registry.count()
        if rate is None:
            ctx.equal(base, 0, "channels appeared without being added")
        chans, log, stream = [], [], io.BytesIO()
        clock = 0.0
        for step in range(mine.randint(8, 40)):
            pick = mine.randrange(10)
            before = env.channel_registry.count()
            if pick == 0 or not chans:
                name = f"c{len(chans)}"
                track = mine.random() < 0.5
                chans.append(
                    env.add_channel(
                        name, prim("int16"), mine.choice([0.0, 0.5]), track
                    )
                )
                log.append(env.channel_registry.get_item(chans[-1]).name)
            elif pick == 1:
                args = ("int8", 1) if mine.random() < 0.5 else ("uint32", 7)
                env.add_metric(
                    f"m{step}", prim(args[0]), mine.random() < 0.5,
                    (args[1], None),
                )
                env.metric_add(f"m{step}", 2)
                want = None if rate is None else args[1] + 2
                if rate is None:
                    ctx.check(
                        not env.has_metric(f"m{step}"),
                        "a metric exists without metrics",
                    )
                else:
                    ctx.equal(
                        env.get_metric(f"m{step}"), want, "a metric's value"
                    )
                    env.set_metric(f"m{step}", 9)
                    ctx.equal(env.get_metric(f"m{step}"), 9, "a metric's value")
            elif pick == 2:
                # whatever name it has, there's none without metrics
                name = "channel_count"
                value = env.channel_registry.count()
                env.set_metric_rate(name, mine.choice([0.25, 1.0]))
                env.set_metric(name, value)
                env.metric_add(name, 0)
                ctx.equal(
                    env.has_metric(name), rate is not None, "has_metric is wrong"
                )
                if rate is None:
                    env.set_metric_rate(f"x{step}", 1.0)
                    env.set_metric(f"x{step}", 1)
                    env.metric_add(f"x{step}", 1)
            elif pick == 3:
                try:
                    queue.put(step, timeout=0)
                    log.append("put")
                except Full:
                    log.append("full")
            elif pick == 4:
                try:
                    log.append(queue.get(timeout=0))
                except Empty:
                    log.append("empty")
            elif pick == 5:
                ident = writer.add_stream(stream)
                log.append(ident)
                ctx.check(writer.remove_stream(ident), "a stream was lost")
                ident, client = writer.registered_queue(f"k{step}")
                log.append(ident)
                ctx.check(writer.remove_queue(ident), "a queue was lost")
                ctx.check(client.get(timeout=0) is None, "no end of a queue")
            elif pick == 6:
                daemon.increment_metric("extra")
                daemon.decrement_metric("extra")
                daemon.reset_metric("more")
                cmd.increment_metric("command_count", 2)
            elif pick == 7:
                kind = f"e{step}"
                env.add_enum(user_enum(kind, {0: "a", 3: "b"}))
                log.append(env.enum_registry.get_item(
                    env.enum_registry.get_id(kind)).get_str(3))
            elif pick == 8:
                clock += mine.choice([0.0, 0.25, 0.5])
                env.dispatch(clock, False)
            else:
                ident = mine.randrange(len(chans))
                value = mine.randrange(-9, 9)
                log.append((
                    "set",
                    env.channel_registry.get_item(chans[ident]).set(
                        value, clock
                    ),
                ))
            if pick > 0 and rate is None and len(chans):
                now = env.channel_registry.count()
                extra = 1 if before == 0 else 0
                ctx.equal(
                    now, before + extra,
                    "channels appeared without being added",
                )
            ctx.count("plain_operations")
        # daemons work with it, too
        cmd.register_consumer("ok", lambda data: (True, str(dict(data))))
        if index % 4 == 0:
            ctx.check(cmd.start(), "a daemon doesn't start")
            log.append(cmd.execute({"command": "ok", "data": {"a": 1}}))
            ctx.check(cmd.stop(), "a daemon doesn't stop")
        env.dispatch(clock + 8.0, False)
        types = {
            n: env.channel_registry.get_channel_type(n).name.lower()
            for n in range(env.channel_registry.count())
        }
        frames = drain(env)
        name = {c: n for n, c in enumerate(chans)}
        emits, events = elements(ctx, frames, types, True), decode(
            ctx, frames, types, True
        )
        seen.append((
            log,
            [(name[e[0]],) + tuple(e[1:]) for e in emits if e[0] in name],
            [
                (name[e[0]],) + tuple(map(repr, e[1:]))
                for e in events
                if e[0] in name
            ],
        ))
    for what, one, two in zip(("results", "emissions", "events"), *seen):
        ctx.equal(
            two, one, f"metrics change an environment's other {what}"
        )
    ctx.distinct("plain", len(seen[0][0]), len(seen[0][1]))


UNITS = {
    "scripted": (scripted, 120, 3000),
    "services": (services, 40, 800),
    "preempted": (preempted, 32, 320),
    "stressed": (stressed, 20, 300),
    "plain": (plain, 120, 2000),
}
