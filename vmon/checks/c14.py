"""C14: managed time advances by scaled elapsed time, alike for everyone."""

import math
import threading
from fractions import Fraction

from vmon import sched

RULE = (
    "a case drives a keeper on a virtual source through a random history of "
    "source steps, iterations, scale changes, slave additions, sleeps and "
    "manual changes and compares every time with exact arithmetic, or "
    "preempts concurrent iterations and scale changes at every line; "
    "distinct = (operation, scale, step, slaves) or preemption point"
)
ASSUME = ["scales and source readings are finite"]
REQUIRE = {
    "iterations": 3000,
    "slave_times": 5000,
    "scale_changes": 500,
    "refused": 200,
    "sleeps": 300,
    "interleavings": 80,
    "concurrent_iterations": 300,
    "daemon_runs": 10,
}


class Clock:
    """A virtual source."""

    def __init__(self, now):
        self.now = now
        self.slept = []
        self.on_sleep = None

    def time(self):
        return self.now

    def sleep(self, amount):
        self.slept.append(amount)
        if self.on_sleep is not None:
            self.on_sleep(amount)


def make_slave(rng, log=None):
    from vtelem.classes.time_entity import TimeEntity

    class Recording(TimeEntity):
        def set_time(self, time):
            if log is not None:
                log.append(time)
            super().set_time(time)

    return Recording(rng.choice([None, 0.0, 99.0]))


def daemon_slave(rng, keeper):
    from vtelem.channel.environment import ChannelEnvironment
    from vtelem.daemon import DaemonBase

    if rng.random() < 0.6:
        return DaemonBase(f"d{rng.random()}", time_keeper=keeper)
    env = ChannelEnvironment(rng.choice([64, 500]))
    keeper.add_slave(env)
    return env


class Model:
    """Exact managed time."""

    def __init__(self, start, scale):
        self.now = Fraction(start)
        self.source = Fraction(start)
        self.scale = Fraction(scale)

    def iterate(self, source):
        source = Fraction(source)
        self.now += (source - self.source) * self.scale
        self.source = source


def close(got, want, exact):
    if exact:
        return Fraction(got) == want
    return math.isclose(got, float(want), rel_tol=1e-9, abs_tol=1e-6)


def number(rng, exact):
    if exact:
        return rng.choice([0, 1, 1, 3, 5, 7, 64, 1000]) / rng.choice(
            [1, 2, 4, 8, 64]
        )
    return rng.choice([0.0, 1e-9, 0.1, 0.3, 1.0, 86400.7, rng.random() * 10])


def scripted(ctx, rng, index):
    from vtelem.classes.time_keeper import TimeKeeper

    exact = index % 3 != 0
    clock = Clock(
        rng.choice([0.0, 5.0, 1.0e6, 1.7e9]) if exact else 1.7e9 * rng.random()
    )
    scale = rng.choice([None, 1.0, 0.5, 2.0, 0.0, 16.0])
    if not exact and rng.random() < 0.5:
        scale = rng.choice([0.1, 3.7, 1e-3])
    kwargs = {} if scale is None else {"real_scalar": scale}
    start = clock.now
    keeper = TimeKeeper("t", 1.0, time_fn=clock.time, sleep_fn=clock.sleep, **kwargs)
    model = Model(start, 1.0 if scale is None else scale)
    slaves, logs = [], []
    manual = False
    backwards = rng.random() < 0.1
    ctx.check(
        close(keeper.get_time(), model.now, exact),
        "a new keeper has another time",
    )
    if index % 4 == 0:
        try:
            TimeKeeper(
                "t", 1.0, -rng.choice([1.0, 0.25, 1e-9]), time_fn=clock.time
            )
            ctx.fail("a negative scale was accepted by construction")
        except AssertionError:
            ctx.count("refused")
    given = float(model.scale)
    for _ in range(60):
        act = rng.choice(
            ["step", "step", "iterate", "iterate", "iterate", "scale",
             "negative", "slave", "sleep", "manual"]
        )
        shown = keeper.get_time()
        before = [s.get_time() for s in slaves]
        if act == "step":
            amount = number(rng, exact)
            if backwards and rng.random() < 0.2:
                amount = -amount
            clock.now += amount
            if exact and rng.random() < 0.02:
                clock.now += 2.0**20
        elif act == "iterate":
            keeper.iteration(*rng.choice([(), (1, "x")]))
            model.iterate(clock.now)
            ctx.count("iterations")
            ctx.check(
                close(keeper.get_time(), model.now, exact),
                "time advanced by another amount",
                got=keeper.get_time(), expected=float(model.now),
                scale=given, source=clock.now,
            )
            for slave in slaves:
                ctx.check(
                    slave.get_time() == keeper.get_time(),
                    "a slave has another time than its keeper",
                )
                ctx.count("slave_times")
            if not backwards and not manual:
                ctx.check(
                    shown <= keeper.get_time() and start <= keeper.get_time(),
                    "time went backwards",
                )
        elif act == "scale":
            given = rng.choice([0.0, 0.25, 0.5, 1.0, 2.0, 8.0])
            if not exact and rng.random() < 0.5:
                given = rng.choice([0.1, 3.3, 1e-6])
            keeper.scale(given)
            model.scale = Fraction(given)
            ctx.count("scale_changes")
        elif act == "negative":
            keeper.scale(-rng.choice([1.0, 0.5, 1e-9, 100.0, math.inf]))
            ctx.count("refused")
        elif act == "slave":
            if len(slaves) < 8:
                if rng.random() < 0.5:
                    slave = daemon_slave(rng, keeper)
                else:
                    slave = make_slave(rng)
                    keeper.add_slave(slave)
                slaves.append(slave)
                before.append(keeper.get_time())
                ctx.equal(
                    slave.get_time(), keeper.get_time(),
                    "a new slave didn't get the current time",
                )
        elif act == "sleep":
            amount = number(rng, exact)
            clock.slept.clear()
            if slaves and rng.random() < 0.5:
                daemons = [s for s in slaves if hasattr(s, "function")]
                via = rng.choice(daemons or [None])
                (via.function["sleep"] if via else keeper.sleep)(amount)
            else:
                keeper.sleep(amount)
            want = amount / given if given else amount
            ctx.check(
                len(clock.slept) == 1
                and math.isclose(clock.slept[0], want, rel_tol=1e-12),
                "slept another duration",
                slept=clock.slept, expected=want, scale=given, amount=amount,
            )
            ctx.count("sleeps")
        elif act == "manual" and rng.random() < 0.3:
            manual = True
            shift = number(rng, exact)
            if rng.random() < 0.5:
                keeper.set_time(start + shift)
                model.now = Fraction(start + shift)
            else:
                keeper.advance_time(shift)
                model.now += Fraction(shift)
        if act not in ("iterate", "manual"):
            ctx.check(
                keeper.get_time() == shown, "time changed between iterations",
                operation=act,
            )
        if act != "iterate":
            ctx.equal(
                [s.get_time() for s in slaves], before,
                "a slave's time changed between iterations",
            )
        ctx.distinct(act, given, len(slaves), exact, manual, backwards)
    if index < 3:
        ctx.sample({"scale": given, "time": keeper.get_time()})


def preempted(ctx, rng, index):
    """Iterations, scale changes, additions from two threads."""
    from vtelem.classes.time_keeper import TimeKeeper

    kind = ["iterate", "scale", "slave", "freeze"][index % 4]
    state = {}

    def make():
        readings = [0.0]
        steps = [rng.choice([1.0, 2.0, 4.0, 0.5]) for _ in range(64)]

        def read():
            readings.append(readings[-1] + steps[len(readings) % 64])
            return readings[-1]

        first, second = rng.sample([0.5, 1.0, 2.0, 4.0], 2)
        if kind == "freeze":
            second = 0.0
        keeper = TimeKeeper("t", 1.0, first, time_fn=read)
        base = readings[-1]
        state.update(readings=readings, first=first, second=second,
                     keeper=keeper, base=base, built=len(readings))
        logs = [[], []]
        slaves = [make_slave(rng, logs[0]), make_slave(rng, logs[1])]
        keeper.add_slave(slaves[0])
        state["slaves"], state["logs"] = slaves, logs

        def one():
            keeper.iteration()
            keeper.iteration()

        def two():
            if kind in ("scale", "freeze"):
                keeper.scale(second)
            elif kind == "slave":
                keeper.add_slave(slaves[1])
                return
            keeper.iteration()

        return [one, two]

    def verify(outs, runner):
        sched.no_errors(outs)
        read = state["readings"]
        begin = state["base"]
        used = [begin] + read[state["built"]:]
        diffs = [b - a for a, b in zip(used, used[1:])]
        wanted = set()
        if kind in ("scale", "freeze"):
            for cut in range(len(diffs) + 1):
                wanted.add(
                    begin + sum(diffs[:cut]) * state["first"]
                    + sum(diffs[cut:]) * state["second"]
                )
        else:
            wanted.add(begin + sum(diffs) * state["first"])
        got = state["keeper"].get_time()
        ctx.check(
            got in wanted, "elapsed time was lost or counted twice",
            got=got, expected=sorted(wanted), readings=used,
            trace=runner.trace,
        )
        slaves = state["slaves"] if kind == "slave" else state["slaves"][:1]
        for slave, log in zip(slaves, state["logs"]):
            ctx.equal(
                slave.get_time(), got,
                "a slave has another time than its keeper",
                trace=runner.trace,
            )
            ctx.check(
                log == sorted(log), "a slave's time went backwards", log=log,
                trace=runner.trace,
            )
            ctx.count("slave_times", len(log))
        ctx.count("iterations", 3)
        ctx.distinct("preempted", kind, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng, 30 if quick else None, 4 if quick else 25
    )


def stressed(ctx, rng, index):
    """Many threads, constant scale between barriers."""
    from vtelem.classes.time_keeper import TimeKeeper

    lock = threading.Lock()
    now = [64.0]

    def read():
        with lock:
            now[0] += 0.25
            return now[0]

    scale = rng.choice([0.5, 1.0, 4.0])
    keeper = TimeKeeper("t", 1.0, scale, time_fn=read)
    base = now[0]
    logs = [[] for _ in range(3)]
    slaves = [make_slave(rng, log) for log in logs]
    for slave in slaves[:2]:
        keeper.add_slave(slave)

    def body(which):
        def run():
            for num in range(8):
                keeper.iteration()
                if which == 0 and num == 4:
                    keeper.add_slave(slaves[2])
                if which == 1:
                    keeper.scale(-1.0)
        return run

    outs = sched.stress(ctx, rng, [body(n) for n in range(4)])
    sched.no_errors(outs)
    keeper.iteration()
    want = base + (now[0] - base) * scale
    ctx.equal(
        keeper.get_time(), want, "elapsed time was lost or counted twice"
    )
    for slave, log in zip(slaves, logs):
        ctx.equal(slave.get_time(), want, "a slave has another time")
        ctx.check(log == sorted(log), "a slave's time went backwards", log=log)
        ctx.count("slave_times", len(log))
    ctx.count("concurrent_iterations", 33)


def running(ctx, rng, index):
    """A running keeper, slaves and a sleeper, on a virtual source."""
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon import DaemonState

    clock = Clock(rng.choice([0.0, 1024.0]))
    scale = rng.choice([0.5, 1.0, 2.0])
    period = rng.choice([0.5, 1.0])
    enough = threading.Event()
    keeper = TimeKeeper(
        "t", period, scale, time_fn=clock.time, sleep_fn=clock.sleep
    )
    slave = make_slave(rng)
    keeper.add_slave(slave)
    start = clock.now
    rounds = [0]

    def on_sleep(amount):
        if threading.current_thread().name == "t":
            ctx.equal(slave.get_time(), keeper.get_time(), "another time")
            clock.now += amount
            rounds[0] += 1
            if rounds[0] >= 20:
                enough.set()
                # wait for the stop
                while keeper.get_state() == DaemonState.RUNNING:
                    threading.Event().wait(0.001)

    clock.on_sleep = on_sleep
    ctx.defer(keeper.stop)
    assert keeper.start()
    ctx.check(enough.wait(20), "a running keeper doesn't iterate")
    ctx.check(keeper.stop(), "can't stop a keeper")
    keeper.iteration()
    ctx.equal(
        keeper.get_time(), start + (clock.now - start) * scale,
        "a running keeper's time is wrong",
    )
    ctx.equal(slave.get_time(), keeper.get_time(), "a slave's time is wrong")

    # sleeping doesn't keep time from advancing
    clock.slept.clear()

    def during(_):
        clock.now += 8.0
        other = threading.Thread(target=keeper.iteration, daemon=True)
        other.start()
        other.join()

    clock.on_sleep = during
    before = keeper.get_time()
    keeper.sleep(1.0)
    ctx.equal(
        keeper.get_time(), before + 8.0 * scale,
        "time didn't advance while something slept",
    )
    ctx.count("daemon_runs")
    ctx.count("iterations", rounds[0])


def sleeping(ctx, rng, index):
    """Sleeps while the scale changes."""
    from vtelem.classes.time_keeper import TimeKeeper

    state = {}

    def make():
        first, second = rng.choice(
            [(1.0, 0.0), (0.0, 2.0), (0.5, 4.0), (2.0, 0.0)]
        )
        clock = Clock(0.0)
        keeper = TimeKeeper(
            "t", 1.0, first, time_fn=clock.time, sleep_fn=clock.sleep
        )
        state.update(first=first, second=second, clock=clock)
        return [lambda: keeper.sleep(3.0), lambda: keeper.scale(second)]

    def verify(outs, runner):
        sched.no_errors(outs)
        wanted = [
            3.0 / scale if scale else 3.0
            for scale in (state["first"], state["second"])
        ]
        slept = state["clock"].slept
        ctx.check(
            len(slept) == 1 and slept[0] in wanted,
            "slept another duration", slept=slept, expected=wanted,
            trace=runner.trace,
        )
        ctx.count("sleeps")
        ctx.distinct("sleeping", state["second"], tuple(runner.trace[:1]))

    for _ in range(4):
        sched.sweep(ctx, make, verify, rng)


UNITS = {
    "scripted": (scripted, 1440, 9000),
    "preempted": (preempted, 48, 240),
    "stressed": (stressed, 36, 300),
    "running": (running, 144, 300),
    "sleeping": (sleeping, 12, 30),
}
