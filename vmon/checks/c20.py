"""C20: failures and back-pressure never leave the system locked."""

import io
import threading
import time
from queue import Queue

from vmon import core, locks, sched
from vmon.checks.c01 import prim

RULE = (
    "a case makes operations fail in every way and looks at the locks left "
    "held, preempts one operation at its lines by another, loads a whole "
    "system from many threads with failures injected, or blocks producers "
    "by full queues, while every lock, its holder and the order in which "
    "locks are taken are recorded; distinct = (operation, way to fail) or "
    "(pair of operations, where preempted)"
)
ASSUME = [
    "callbacks do not wait for other threads",
    "full queues are consumed again",
]
REQUIRE = {
    "failures": 480,
    "raised": 200,
    "others_went_on": 480,
    "acquisitions": 100000,
    "nested": 10000,
    "lock_pairs": 500,
    "interleavings": 150,
    "stress_runs": 8,
    "completed": 800,
    "blocked_producers": 60,
    "resumed_producers": 60,
}
IMPOSSIBLE = (AssertionError, KeyError, TypeError, ValueError)


class Boom(Exception):
    """What injected failures raise."""


def before_import():
    locks.install()


class Faulty(io.BytesIO):
    """A stream that fails now and then."""

    def __init__(self, rng, chance):
        super().__init__()
        self.rng, self.chance = rng, chance
        self.armed = True

    def write(self, data):
        if self.armed and self.rng.random() < self.chance:
            raise OSError("broken")
        return super().write(data)


class World:
    """A whole system, without its network services."""

    def __init__(self, rng, start=(), metrics=0.5):
        from vtelem.channel.group_registry import ChannelGroupRegistry
        from vtelem.classes.state import State
        from vtelem.classes.state_machine import StateMachine
        from vtelem.classes.time_keeper import TimeKeeper
        from vtelem.classes.udp_client_manager import UdpClientManager
        from vtelem.classes.user_enum import user_enum
        from vtelem.daemon.command_queue import CommandQueueDaemon
        from vtelem.daemon.manager import DaemonManager
        from vtelem.daemon.synchronous import Daemon
        from vtelem.daemon.telemetry import TelemetryDaemon
        from vtelem.factories.daemon_manager import (
            create_daemon_manager_commander,
        )
        from vtelem.factories.telemetry_environment import (
            create_channel_commander,
        )
        from vtelem.factories.udp_client_manager import (
            create_udp_client_commander,
        )
        from vtelem.stream.writer import StreamWriter

        self.rng = rng
        self.faults = {}
        self.numbers = iter(range(1 << 30))
        self.keeper = TimeKeeper("time", 0.003)
        self.env = TelemetryDaemon(
            "telemetry", 1024, 0.003, self.keeper, metrics, app_id_basis=1.0
        )
        env = self.env
        self.writer = StreamWriter(
            "stream", env.frame_queue, None, env, self.keeper
        )
        self.udp = UdpClientManager(self.writer)
        self.command = CommandQueueDaemon("command", env, self.keeper)
        self.manager = DaemonManager()
        self.user_enum = user_enum
        env.add_enum(user_enum("mode", {0: "off", 1: "on", 2: "auto"}))
        self.ints = [
            env.add_channel(f"i{n}", prim("int32"), 0.0, n % 2 == 0)
            for n in range(3)
        ]
        self.fixed = env.add_channel(
            "fixed", prim("uint8"), 0.0, True, None, False
        )
        self.modes = [
            env.add_enum_channel(f"m{n}", "mode", 0.0, True) for n in range(2)
        ]
        self.groups = ChannelGroupRegistry(env)
        self.group_id = self.groups.create_group("g")
        self.group = self.groups.get_item(self.group_id)
        self.group.add_channel("a", prim("int16"), 0.0, True)
        self.group.add_enum_channel("b", "mode", 0.0, True)

        def task(*_, **__):
            self.fault("task")
            if self.faults.get("overrun"):
                self.app.advance_time(1.0)
            env.set_now(self.ints[0], rng.randrange(100))

        def setup(*_, **__):
            self.fault("init")

        def overrun(*_):
            self.fault("overrun")

        self.app = Daemon(
            "app", task, 0.002, overrun, None, env, self.keeper, setup
        )
        self.loner = Daemon("loner", task, 0.002)
        for daemon in (self.keeper, env, self.writer, self.command):
            assert self.manager.add_daemon(daemon)
        assert self.manager.add_daemon(self.app, ["telemetry"])
        self.names = ["time", "telemetry", "stream", "command", "app"]
        create_channel_commander(env, self.command)
        create_daemon_manager_commander(self.manager, self.command)
        create_udp_client_commander(self.udp, self.command)

        def handler(_):
            self.fault("handler")
            return True, "done"

        def result_cb(*_):
            self.fault("result")

        self.command.register_consumer("user", handler, result_cb, "help")

        class Idle(State):
            def __init__(self, name, other, world):
                super().__init__(name)
                self.other, self.world = other, world

            def run(self, data):
                self.world.fault("state")
                return self.other

        self.machine = StateMachine(
            "machine", [Idle("x", "y", self), Idle("y", "x", self)], env=env
        )
        self.streams = []
        self.queues = []
        self.daemons = {
            d.name: d
            for d in (self.keeper, env, self.writer, self.command, self.app)
        }
        for name in start:
            assert self.daemons[name].start()

    def fault(self, name):
        """Fail here, if that's planned."""
        left = self.faults.get(name, 0)
        if left:
            self.faults[name] = left - 1
            raise Boom(name)

    def close(self):
        """Bring everything to an end."""
        for name in ("app", "telemetry", "command", "stream", "time"):
            daemon = self.daemons[name]
            for _ in range(3):
                daemon.unpause()
                if not daemon.stop() and daemon.get_state().name == "IDLE":
                    break
            if name == "telemetry":
                pass
        self.loner.unpause()
        self.loner.stop()
        self.udp.remove_all()


def free(ctx, world, what, allowed=()):
    """The calling thread holds nothing, and others can go on."""
    ctx.equal(
        locks.Watch.held(threading.get_ident()), [],
        "a lock is still held", after=what,
    )
    done = others(world)
    ctx.check(done, "others can't go on", after=what, stacks=core.stacks())
    ctx.count("others_went_on")


def others(world, seconds=20.0):
    """Whether another thread can do what matters."""

    def run():
        env = world.env
        env.set_time(env.get_time())
        env.set_now(world.ints[0], 1)
        env.command_channel_id(world.ints[1], 2)
        world.group.read()
        env.has_enum(env.framer.frame_types)
        env.channel_registry.get_id("i0")
        env.enum_registry.get_id("mode")
        env.type_registry.get_id("uint8")
        world.groups.get_id("g")
        env.metric_add("dispatch_count", 0)
        world.manager.states()
        for daemon in list(world.daemons.values()) + [world.loner]:
            daemon.increment_metric("count", 0)
        world.writer.remove_stream(10**6)
        world.writer.remove_queue(10**6)
        world.keeper.scale(1.0)
        world.keeper.iteration()
        with world.machine.data():
            pass
        with world.udp.lock:
            pass
        env.event_queue.consume()
        done.append(1)

    done = []
    thread = threading.Thread(target=run, daemon=True, name="other")
    thread.start()
    thread.join(seconds)
    return bool(done)


# failures ------------------------------------------------------------------
def failing(world, rng):
    """Ways to fail: (what, how)."""
    env, writer, manager = world.env, world.writer, world.manager
    app, loner, command = world.app, world.loner, world.command

    def body(context):
        def run():
            with context():
                raise Boom()

        return run

    def change(*_):
        raise Boom()

    def with_callback(daemon, call):
        def run():
            before = daemon.function["state_change"]
            daemon.function["state_change"] = change
            try:
                call()
            finally:
                daemon.function["state_change"] = before
        return run

    def unreadable():
        class Slave:
            def set_time(self, _):
                raise Boom()

        slave = Slave()
        try:
            world.keeper.add_slave(slave)
        finally:
            if slave in world.keeper.slaves:
                world.keeper.slaves.remove(slave)

    def late_slave():
        class Slave:
            good = True

            def set_time(self, _):
                if not self.good:
                    raise Boom()

        slave = Slave()
        world.keeper.add_slave(slave)
        slave.good = False
        try:
            world.keeper.iteration()
        finally:
            world.keeper.slaves.remove(slave)

    def crash(fault):
        def run():
            world.faults[fault] = 1
            assert app.start()
            ended = core.wait_for(lambda: app.get_state().name == "IDLE", 20)
            world.faults[fault] = 0
            assert ended, "the daemon didn't end"
            assert app.start() and app.stop()
            raise Boom()

        return run

    def closers():
        def closer():
            raise Boom()

        ident = writer.add_stream(io.BytesIO(), closer)
        writer.remove_stream(ident)

    def bad_stream():
        class Bad(io.BytesIO):
            def write(self, _):
                raise Boom("not an OSError")

        ident = writer.add_stream(Bad())
        try:
            env.dispatch_now(should_log=False)
            while True:
                writer.handle(env.get_next_frame(timeout=0))
        finally:
            writer.remove_stream(ident)
            drain(env)

    def error_handle():
        before = writer.error_handle
        writer.error_handle = lambda _: (_ for _ in ()).throw(Boom())
        ident = writer.add_stream(Faulty(rng, 1.0))
        try:
            env.dispatch_now(should_log=False)
            writer.handle(env.get_next_frame())
        finally:
            writer.error_handle = before
            writer.remove_stream(ident)
            drain(env)

    def inject():
        class Never(type(loner)):
            pass

        daemon = Never("never", lambda *_, **__: None, 0.001)
        daemon.function["inject_stop"] = change
        assert daemon.start()
        try:
            daemon.stop()
        finally:
            thread = daemon.thread
            if thread is not None:
                thread.join(5)
            with daemon.lock:
                pass

    def machine():
        world.faults["state"] = 1
        world.machine.run({"x": 1})

    def commands():
        world.faults[rng.choice(["handler", "result"])] = 1
        command.handle(({"command": "user"}, change))

    def cyclic():
        from vtelem.daemon.manager import DaemonManager
        from vtelem.daemon.synchronous import Daemon
        from vtelem.enums.daemon import DaemonOperation

        mgr = DaemonManager()
        for name, needs in (("p", ["q"]), ("q", ["p"])):
            mgr.add_daemon(Daemon(name, lambda: None, 1.0), needs)
        try:
            mgr.perform_all(DaemonOperation.START)
        finally:
            ok = []
            thread = threading.Thread(
                target=lambda: ok.append(mgr.states()), daemon=True
            )
            thread.start()
            thread.join(20)
            if not ok:
                raise core.Violation("a refused operation left a lock held")

    def unencodable():
        world.env.channel_registry.add("odd", object())
        try:
            world.env.channel_registry.describe()
        finally:
            reg = world.env.channel_registry
            with reg.lock:
                ident = reg.get_id("odd")
                del reg.data[reg.type_name][ident]
                del reg.data["mappings"]["odd"]
                reg.curr_id -= 1

    def manager_fault():
        from vtelem.enums.daemon import DaemonOperation

        before = app.function["state_change"]
        app.function["state_change"] = change
        try:
            if rng.random() < 0.5:
                manager.perform("app", DaemonOperation.START)
            else:
                command.handle(
                    ({"command": "daemon",
                      "data": {"operation": "start", "daemons": ["app"]}},
                     change)
                )
        finally:
            app.function["state_change"] = before

    full = rng.choice(["i0", "m0", "g.a", "telemetry.state"])
    from vtelem.enums.daemon import DaemonOperation

    oper = rng.choice(list(DaemonOperation))
    table = {
        "duplicate channel": lambda: env.add_channel(full, prim("int8"), 1.0),
        "bad initial": lambda: env.add_channel(
            "new", prim("int8"), 1.0, True, (1000, None)
        ),
        "unknown enum": lambda: env.add_enum_channel("new", "nope", 1.0),
        "bad member": lambda: env.add_enum_channel(
            "new", "mode", 1.0, True, ("nope", None)
        ),
        "unknown channel": lambda: env.command_channel_id(9999, 1),
        "unknown value": lambda: env.get_value(9999),
        "bad command": lambda: env.command_enum_channel("m0", "nope"),
        "bad enum value": lambda: env.set_enum_now(world.modes[0], "nope"),
        "enum is a type": lambda: env.add_enum(
            world.user_enum("uint8", {0: "a"})
        ),
        "no command": lambda: command.handle((None, change)),
        "bad metric": lambda: env.set_metric("dispatch_count", "text"),
        "bad metric sum": lambda: env.metric_add("dispatch_count", 1 << 40),
        "bad metric item": lambda: env.metric_add("dispatch_count", None),
        "own metric": lambda: app.increment_metric("count", "x"),
        "group unknown": lambda: world.group.write({"nope": 1}),
        "group member": lambda: world.group.write({"b": "nope"}),
        "group body": body(world.group.data),
        "registry body": body(lambda: world.groups.group(world.group_id)),
        "no group": lambda: world.groups.group(77).__enter__(),
        "env lock body": body(lambda: env.lock),
        "machine body": body(world.machine.data),
        "machine state": machine,
        "paused body": lambda: paused(app, Boom),
        "booted body": lambda: booted(app, Boom),
        "booted twice": lambda: booted_twice(app),
        "paused idle": body(app.paused),
        "stop idle": lambda: refuse(not app.stop()),
        "pause idle": lambda: refuse(not app.pause()),
        "start callback": with_callback(app, app.start),
        "change callback": with_callback(
            app, lambda: app.set_state(type(app.get_state()).ERROR)
        ),
        "manager fault": manager_fault,
        "unknown daemon": lambda: refuse(
            not manager.perform("nope", oper)
        ),
        "reserved daemon": lambda: manager.get("all"),
        "no operation": lambda: refuse(
            not manager.perform_str_all("nope")
        ),
        "daemon again": lambda: refuse(not manager.add_daemon(app)),
        "cyclic": cyclic,
        "inject": inject,
        "task": crash("task"),
        "init": crash("init"),
        "overrun": crash("overrun"),
        "new slave": unreadable,
        "slave": late_slave,
        "closer": closers,
        "stream": bad_stream,
        "error handle": error_handle,
        "command": commands,
        "describe": unencodable,
        "empty queue": lambda: env.frame_queue.get(False),
        "late queue": lambda: env.get_next_frame(timeout=0.001),
        "full queue": lambda: overfill(world),
        "bad host": lambda: world.udp.add_client(("no host", "no port")),
        "no client": lambda: world.udp.client_name(99),
        "udp": lambda: refuse_command(world, {"operation": "remove", "id": 7}),
        "udp list": lambda: refuse_command(world, {"operation": "list", "id": 7}),
        "udp odd": lambda: refuse_command(world, {"operation": "list", "id": []}),
        "udp add": lambda: refuse_command(
            world, {"operation": "add", "host": 1, "port": "x"}
        ),
    }
    return table


class Refused(Exception):
    pass


def refuse(cond):
    if not cond:
        raise core.Violation("an impossible operation succeeded", what=cond)
    raise Refused()


def refuse_command(world, data):
    got = []
    world.command.handle(
        ({"command": "udp", "data": data}, lambda *res: got.append(res))
    )
    refuse(len(got) == 1 and not got[0][0])


def drain(env):
    out = []
    while not env.frame_queue.empty():
        out.append(env.frame_queue.get(False))
    return out


def overfill(world):
    env = world.env
    try:
        while True:
            env.frame_queue.put(None, False)
    finally:
        drain(env)


def paused(daemon, error):
    assert daemon.start()
    try:
        with daemon.paused():
            raise error()
    finally:
        assert daemon.stop()


def booted(daemon, error):
    with daemon.booted():
        raise error()


def booted_twice(daemon):
    with daemon.booted():
        with daemon.booted():
            pass


def failures(ctx, rng, index):
    ctx.allow_thread_errors = lambda e: e["type"] in (
        "Boom", "AssertionError", "TypeError"
    )
    from queue import Empty, Full

    known = IMPOSSIBLE + (Boom, Refused, Empty, Full, OSError)
    with locks.Watch(ctx) as watch:
        names = list(failing(World(rng), rng))
        rng.shuffle(names)
        for name in names[:6]:
            world = World(rng)
            act = failing(world, rng)[name]
            try:
                act()
                how = "returned"
            except known as exc:
                how = type(exc).__name__
                ctx.count("raised")
            ctx.count("failures")
            drain(world.env)
            free(ctx, world, name)
            ctx.distinct("failure", name, how)
            world.close()
        ctx.check(
            core.wait_for(lambda: not watch.held(), 5.0),
            "locks are held at rest", held=watch.held(),
        )
        watch.judge()


# load ----------------------------------------------------------------------
def operations(world, rng):
    """What threads of a system do, each safe to do at any time."""
    env, writer, manager = world.env, world.writer, world.manager
    numbers = world.numbers
    from vtelem.classes.user_enum import user_enum

    def commands():
        pick = rng.randrange(7)
        world.command.enqueue(
            [
                {"command": "channel", "data": {
                    "operation": "set", "channel_name": "m0",
                    "value": rng.choice(["on", "off", "nope"])}},
                {"command": "channel", "data": {
                    "operation": "increment", "channel_id": world.ints[1]}},
                {"command": "daemon", "data": {
                    "operation": rng.choice(["pause", "unpause"]),
                    "daemons": ["app"]}},
                {"command": "daemon", "data": {"operation": "states"}},
                {"command": "udp", "data": {"operation": "list"}},
                {"command": "help"},
                "junk",
            ][pick]
        )

    def faulty_command():
        world.faults["handler"] = 1
        world.command.enqueue({"command": "user"})

    def group_write():
        with world.groups.group(world.group_id) as data:
            data["a"] = rng.randrange(100)
            data["b"] = rng.choice(["on", "off"])

    def group_body():
        try:
            with world.group.data() as data:
                data["b"] = "nope"
                raise Boom()
        except (Boom, AssertionError):
            pass

    def new_channel():
        num = next(numbers)
        env.add_channel(f"n{num}", prim("uint8"), 1.0, num % 2 == 0)
        try:
            env.add_channel(f"n{num}", prim("uint8"), 1.0)
        except AssertionError:
            pass

    def new_enum():
        num = next(numbers)
        env.add_enum(user_enum(f"e{num}", {0: "a", 1: "b"}))
        env.add_enum_channel(f"en{num}", f"e{num}", 1.0)

    def streams():
        if world.streams and rng.random() < 0.6:
            try:
                writer.remove_stream(world.streams.pop())
            except IndexError:
                pass
        else:
            world.streams.append(writer.add_stream(Faulty(rng, 0.1)))

    def queues():
        if world.queues and rng.random() < 0.6:
            try:
                writer.remove_queue(world.queues.pop())
            except IndexError:
                pass
        else:
            name = rng.choice([None, f"q{next(numbers)}"])
            ident, queue = writer.registered_queue(name)
            world.queues.append(ident)
            thread = threading.Thread(
                target=lambda: [x for x in iter(queue.get, None)],
                daemon=True, name="client",
            )
            thread.start()

    def cycle():
        app = world.app
        rng.choice([app.start, app.stop, app.pause, app.unpause])()

    def managed():
        rng.choice([
            lambda: manager.perform_str("app", rng.choice(["start", "unpause"])),
            lambda: manager.perform_str_all("unpause"),
            lambda: manager.states(),
            lambda: manager.perform_str("nope", "start"),
        ])()

    def scale():
        world.keeper.scale(rng.choice([0.5, 1.0, 2.0]))
        world.keeper.iteration()

    def metrics():
        daemon = rng.choice([world.app, writer, env, world.command])
        daemon.increment_metric(rng.choice(["count", "extra"]), 1)
        env.set_metric_rate("dispatch_count", rng.random())

    def crash():
        world.faults["task"] = 1

    def rates():
        env.set_channel_rate(world.ints[0], rng.random())
        env.handle_new_mtu(rng.randrange(800, 1024))
        world.app.set_rate(rng.choice([0.001, 0.002, -1.0]))

    def command_id():
        env.command_channel_id(world.ints[2], rng.randrange(50))
        env.command_channel("fixed", 1)

    def udp():
        from vtelem.mtu import Host

        ident, _ = world.udp.add_client(Host("127.0.0.1", 9), True)
        if rng.random() < 0.7:
            world.udp.remove_client(ident)

    return {
        "commands": commands,
        "faulty command": faulty_command,
        "group write": group_write,
        "group read": world.group.read,
        "group body": group_body,
        "new channel": new_channel,
        "new enum": new_enum,
        "streams": streams,
        "queues": queues,
        "cycle": cycle,
        "managed": managed,
        "scale": scale,
        "metrics": metrics,
        "crash": crash,
        "rates": rates,
        "command id": command_id,
        "udp": udp,
        "machine": lambda: world.machine.run(),
        "describe": lambda: [r.describe() for r in env.registries.values()],
        "dispatch": lambda: env.dispatch_now(should_log=False),
    }


def loaded(ctx, rng, index):
    """A whole system under load."""
    ctx.allow_thread_errors = lambda e: e["type"] == "Boom"
    with locks.Watch(ctx) as watch:
        world = World(rng, ["stream", "command", "telemetry", "time", "app"])
        done = []

        def worker(names):
            def run():
                table = operations(world, rng)
                for _ in range(18):
                    name = rng.choice(names)
                    table[name]()
                    done.append(name)

            return run

        names = list(operations(world, rng))
        bodies = [worker(rng.sample(names, 8)) for _ in range(6)]
        outs = sched.stress(ctx, rng, bodies, 0.02, 0.0005)
        sched.no_errors(outs)
        ctx.count("completed", len(done))
        world.faults.clear()
        for ident in list(world.queues):
            world.writer.remove_queue(ident)
        ctx.check(others(world), "others can't go on", stacks=core.stacks())
        world.close()
        ctx.check(
            core.wait_for(lambda: not watch.held(), 5.0),
            "locks are held at rest", held=watch.held(),
        )
        watch.judge()
    ctx.distinct("load", tuple(sorted(set(done))))


def preempted(ctx, rng, index):
    """One operation held at its lines while another is made."""
    state = {}
    quick = ctx.tier == "quick"
    probe = World(rng)
    names = [
        n for n in operations(probe, rng)
        # these start threads of their own
        if n not in ("queues", "cycle", "managed", "udp")
    ]
    first, second = rng.choice(names), rng.choice(names)
    if index < len(names):
        first = names[index]

    def make():
        world = World(rng)
        table, other = operations(world, rng), operations(world, rng)
        state["world"] = world

        def run():
            for _ in range(2):
                table[first]()
            drain(world.env)

        def again():
            if second.startswith("new "):
                # names of its own
                world.env.add_channel("one more", prim("int8"), 1.0)
                world.env.add_enum(world.user_enum("onemore", {0: "z"}))
            else:
                other[second]()
            world.command.queue.queue.clear()
        return [run, again]

    def verify(outs, runner):
        sched.no_errors(outs)
        world = state["world"]
        ctx.check(
            not watch.held(), "locks are held at rest", held=watch.held(),
            trace=runner.trace,
        )
        ctx.check(
            others(world), "others can't go on", trace=runner.trace,
            stacks=core.stacks(),
        )
        watch.judge()
        ctx.distinct("pair", first, second, tuple(runner.trace[:1]))

    with locks.Watch(ctx) as watch:
        sched.sweep(
            ctx, make, verify, rng, 12 if quick else 120, 3 if quick else 10
        )


# back-pressure -------------------------------------------------------------
def pressure(ctx, rng, index):
    """Producers wait for full queues and go on when they're consumed."""
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment

    kind = ["dispatch", "client", "command", "metered", "gone",
            "daemon"][index % 6]
    if kind == "daemon":
        clogged(ctx, rng)
        return
    made, finished = [], []
    with locks.Watch(ctx) as watch:
        env = TelemetryEnvironment(64, 0.0, 1.0, app_id_basis=1.0)
        for num in range(rng.randint(10, 40)):
            env.add_channel(f"c{num}", prim("uint64"), 0.0, num % 3 == 0)
        cleanup = []
        if kind == "dispatch":
            # dispatches wait for each other
            def produce(num):
                def run():
                    total = 0
                    for turn in range(40):
                        total += env.dispatch(1.0 + num + turn, False)
                    made.append(total)
                return run

            queue = env.frame_queue
            bodies = [produce(n) for n in range(3)]

            def consume():
                return len([env.get_next_frame() for _ in range(
                    rng.randint(1, 40)) if not queue.empty()])
        elif kind in ("client", "gone"):
            # a client that doesn't read holds the writer, not the others
            writer, frames = default_writer("w", env=env)
            size = rng.choice([1, 3, 16])
            name = rng.choice([None, "client"])
            queue_id, queue = writer.registered_queue(name, size)
            healthy = writer.registered_queue(None, 0)[1]
            assert writer.start()
            ident = env.channel_registry.get_id("c0")
            env.set_now(ident, 1)
            env.dispatch(5.0, False)
            some = drain(env)[:size + rng.randint(2, 30)]
            want = len(some)

            def produce():
                for frame in some:
                    frames.put(frame)
                made.append(want)
                # the writer itself waits for the client
                core.wait_for(lambda: frames.unfinished_tasks == 0, 60)

            bodies = [produce]

            def consume():
                time.sleep(0.001)
                return len([queue.get() for _ in range(size + 1)
                            if not queue.empty()])

            def gone():
                # nobody will ever read what's left
                writer.remove_queue(queue_id, False)
                ctx.check(
                    core.wait_for(lambda: frames.unfinished_tasks == 0, 60),
                    "the writer waits for a queue that was removed",
                )

            def complete():
                ctx.equal(
                    list(healthy.queue), some, "another client lacks frames"
                )

            cleanup += [writer.stop, complete]
        elif kind == "command":
            daemon = CommandQueueDaemon("cmd", env)
            gate = threading.Semaphore(0)
            seen = []

            def handler(_):
                gate.acquire()
                seen.append(1)
                return True, ""

            daemon.register_consumer("go", handler)
            assert daemon.start()
            queue = daemon.queue

            def produce(num):
                def run():
                    for _ in range(100):
                        daemon.enqueue({"command": "go"})
                    made.append(100)
                return run

            bodies = [produce(n) for n in range(4)]

            def consume():
                before = len(seen)
                for _ in range(40):
                    gate.release()
                core.wait_for(lambda: len(seen) >= min(400, before + 40), 60)
                return len(seen) - before

            cleanup.append(daemon.stop)
        else:
            from vtelem.classes.metered_queue import MeteredQueue

            queue = MeteredQueue("q", env, rng.choice([1, 2, 5]))

            def produce(num):
                def run():
                    for turn in range(20):
                        queue.put(turn)
                    made.append(20)
                return run

            bodies = [produce(n) for n in range(4)]

            def consume():
                return len([queue.get() for _ in range(5)
                            if not queue.empty()])

        threads = []
        for body in bodies:
            def call(body=body):
                body()
                finished.append(1)

            thread = threading.Thread(target=call, daemon=True)
            thread.start()
            threads.append(thread)
        ctx.check(
            core.wait_for(
                lambda: queue.full() or len(finished) == len(bodies), 30
            ),
            "a queue isn't filled",
        )
        time.sleep(0.002)
        blocked = len(bodies) - len(finished)
        ctx.count("blocked_producers", blocked)
        # nobody else waits
        env.set_time(2.0)
        ident = env.add_channel("meanwhile", prim("int16"), 1.0, True)
        env.set_now(ident, 5)
        ctx.equal(env.get_value(ident), 5, "a value set meanwhile")
        if kind != "dispatch":
            env.dispatch(3.0, False)
        got = 0
        if kind == "gone":
            gone()
            got = sum(made)
        while any(t.is_alive() for t in threads):
            got += consume()
        if kind == "gone":
            got = sum(made)
        while got < sum(made) and kind != "dispatch":
            more = consume()
            if not more and queue.empty():
                break
            got += more
        if kind == "dispatch":
            got += len(drain(env))
        ctx.equal(got, sum(made), "elements got lost or appeared")
        ctx.count("resumed_producers", blocked)
        for call in cleanup:
            call()
        ctx.check(
            core.wait_for(lambda: not watch.held(), 5.0),
            "locks are held at rest", held=watch.held(),
        )
        watch.judge()
    ctx.distinct("pressure", kind, len(bodies), blocked)


def clogged(ctx, rng):
    """A telemetry daemon nobody takes frames from."""
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon.telemetry import TelemetryDaemon

    with locks.Watch(ctx) as watch:
        keeper = TimeKeeper("time", 0.002)
        daemon = TelemetryDaemon(
            "telemetry", 64, 0.002, keeper, rng.choice([0.5, 0.01]),
            app_id_basis=1.0,
        )
        idents = [
            daemon.add_channel(f"c{num}", prim("uint64"), 0.0, True)
            for num in range(rng.randint(10, 60))
        ]
        assert keeper.start()
        assert daemon.start()
        frames = daemon.frame_queue
        ctx.check(
            core.wait_for(frames.full, 60), "a queue isn't filled",
            size=frames.qsize(),
        )
        time.sleep(rng.choice([0, 0.01]))
        ctx.count("blocked_producers")

        # others go on
        def change(turn):
            for ident in idents:
                daemon.set_now(ident, turn)
            daemon.add_channel(f"more{turn}", prim("int8"), 1.0)
            before = daemon.get_time()
            ctx.check(
                core.wait_for(lambda: daemon.get_time() > before, 20),
                "time stands still",
            )

        for turn in range(1, rng.randint(2, 4)):
            change(turn)
        if rng.random() < 0.6:
            # a consumer turns up
            taken = 0
            for _ in range(rng.randint(1, 600)):
                frame = daemon.get_next_frame(20)
                ctx.check(frame is not None, "no frame")
                taken += 1
            ctx.count("resumed_producers")
            ctx.check(core.wait_for(frames.full, 60), "it doesn't go on")
        if rng.random() < 0.3:
            ctx.check(daemon.restart(), "it can't be restarted")
            change(99)
        ctx.check(daemon.stop(), "it can't be stopped")
        ctx.check(
            core.wait_for(lambda: daemon.get_state_str() == "idle", 20),
            "it doesn't stop", state=daemon.get_state_str(),
            stacks=core.stacks(),
        )
        change(100)
        ctx.check(keeper.stop(), "the keeper can't be stopped")
        ctx.check(
            core.wait_for(lambda: not watch.held(), 5.0),
            "locks are held at rest", held=watch.held(),
        )
        watch.judge()
    ctx.distinct("clogged", len(idents))


UNITS = {
    "failures": (failures, 160, 3000),
    "loaded": (loaded, 16, 300),
    "preempted": (preempted, 20, 300),
    "pressure": (pressure, 48, 480),
}
