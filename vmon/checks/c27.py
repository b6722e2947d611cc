"""C27: periodic daemons keep their pace."""

import logging
import random
import threading
import time
from fractions import Fraction

from vmon import core, sched
from vmon.checks.c14 import Clock

RULE = (
    "a case runs periodic daemons under a time keeper whose source is "
    "virtual; every call of the set-up, task, sleep and overrun functions is "
    "an event judged against an automaton that computes in exact numbers "
    "what's due, while a script makes tasks take time and changes rates, "
    "scales and states from within or from other threads; others run in real "
    "time, where they may not be faster than their pace, nor forget a rate; "
    "distinct = (kind, script)"
)
ASSUME = [
    "times in scripts are dyadic, so arithmetic on them is exact",
    "a time keeper's own iterations aren't judged",
    "what's left of the last period may be slept or not when stopped",
]
REQUIRE = {
    "starts": 300,
    "tasks": 4000,
    "sleeps": 2500,
    "overruns": 700,
    "exact_periods": 150,
    "paused_sleeps": 500,
    "rate_changes": 300,
    "rate_refused": 60,
    "scale_changes": 150,
    "uptimes": 3000,
    "default_overruns": 100,
    "raced_iterations": 1000,
    "real_iterations": 100,
}


def dyadic(rng, zero=False):
    """An exact duration."""
    if zero and rng.random() < 0.25:
        return 0.0
    return rng.choice([1, 1, 2, 3, 5, 8, 21, 64]) / rng.choice([1, 2, 8, 64])


class Pace:
    """A daemon in virtual time, and what it should do next."""

    def __init__(self, ctx, rng, callback=True):
        from vtelem.classes.time_keeper import TimeKeeper
        from vtelem.daemon.synchronous import Daemon
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.ctx, self.rng = ctx, rng
        self.clock = Clock(rng.choice([0.0, 8.0, 2.0 ** 20]))
        self.clock.on_sleep = self.guard(self.on_sleep)
        self.scale = rng.choice([1.0, 1.0, 0.5, 4.0, 0.125, 0.0])
        self.keeper = TimeKeeper(
            "keeper", 1.0, self.scale, self.clock.time, self.clock.sleep
        )
        self.env = None
        if rng.random() < 0.7:
            self.env = TelemetryEnvironment(
                2000, self.clock.now, metrics_rate=1.0
            )
        self.rate = dyadic(rng)
        self.metrics = None
        self.with_init = rng.random() < 0.7
        kwargs = {}
        if callback:
            kwargs["iter_overrun_cb"] = self.guard(self.on_overrun)
        if self.with_init:
            kwargs["init"] = self.guard(self.on_init)
        self.daemon = Daemon(
            "paced", self.guard(self.on_task), self.rate, env=self.env,
            time_keeper=self.keeper, **kwargs,
        )
        self.callback = callback
        # what's due: "init", "turn" (an iteration), "rest", "overrun"
        self.due = None
        self.args = None
        self.paused = False
        self.stopping = False
        self.current = None
        self.left = 0
        self.error = None
        self.over = threading.Event()
        self.managed = Fraction(self.clock.now)
        self.uptime = Fraction(0)
        self.cycle = Fraction(0)
        self.overruns = 0
        self.counted = 0
        self.log = []
        self.tasks = 0

    def guard(self, function):
        """What's found in the daemon's thread is raised elsewhere."""

        def guarded(*args, **kwargs):
            if self.error is not None:
                time.sleep(0.001)
                return
            try:
                function(*args, **kwargs)
            except BaseException as exc:  # pylint: disable=broad-except
                self.error = exc
                self.over.set()

        return guarded

    # the automaton ---------------------------------------------------------------
    def turn(self):
        """An iteration begins."""
        self.due = "turn"
        self.current = self.rate

    def on_init(self, *args, **kwargs):
        ctx = self.ctx
        ctx.equal(self.due, "init", "set up at another time", log=self.log[-6:])
        ctx.equal((args, kwargs), self.args, "arguments of the set-up")
        self.log.append("init")
        self.act()
        self.was_paused = self.paused
        self.due = "turn"

    def on_task(self, *args, **kwargs):
        ctx = self.ctx
        self.settled("a task")
        ctx.equal(self.due, "turn", "a task at another time",
                  log=self.log[-6:])
        ctx.check(not self.was_paused, "a task while paused",
                  log=self.log[-6:])
        ctx.check(not self.ended, "a task after the daemon was stopped",
                  log=self.log[-6:])
        ctx.equal((args, kwargs), self.args, "arguments of a task")
        self.tasks += 1
        ctx.count("tasks")
        self.judge()
        self.current = Fraction(self.rate)
        self.begin = self.managed
        self.log.append("task")
        pick = self.rng.random()
        if pick < 0.15:
            pass
        elif pick < 0.25 and self.scale:
            # exactly the period
            self.pass_time(self.current - (self.managed - self.begin))
            ctx.count("exact_periods")
            self.act(False)
        else:
            self.act()
            self.pass_time(Fraction(dyadic(self.rng, True)))
            self.act()
        self.end = self.managed
        self.spent(self.end - self.begin)
        if self.current - (self.end - self.begin) > 0:
            self.due = "rest"
        elif self.callback:
            self.due = "overrun"
            self.overruns += 1
        else:
            self.overruns += 1
            ctx.count("default_overruns")
            self.due = "turn"
        # as of when it's over
        self.mark()

    def spent(self, amount):
        self.uptime += amount
        self.cycle = amount

    def on_sleep(self, amount):
        ctx = self.ctx
        self.settled("a sleep")
        amount = Fraction(amount)
        if self.due == "turn":
            ctx.check(self.was_paused, "sleeps instead of a task",
                      log=self.log[-6:])
            want = Fraction(self.rate)
            ctx.count("paused_sleeps")
            self.log.append("paused")
        else:
            ctx.equal(self.due, "rest", "a sleep at another time",
                      log=self.log[-6:])
            self.judge()
            want = self.current - (self.end - self.begin)
            ctx.count("sleeps")
            self.log.append("sleep")
        if self.scale:
            want /= Fraction(self.scale)
        ctx.equal(float(amount), float(want), "slept another duration",
                  scale=self.scale, rate=float(self.rate),
                  log=self.log[-6:])
        # time goes by, maybe a little more
        self.act()
        amount = min(amount, Fraction(1 << 10))
        if self.rng.random() < 0.2:
            amount += Fraction(dyadic(self.rng, True))
        self.clock.now += float(amount)
        self.managed += amount * Fraction(self.scale)
        self.keeper.iteration()
        self.act()
        self.due = "turn"
        self.mark()

    def on_overrun(self, start, end, rate, _metrics):
        ctx = self.ctx
        self.settled("an overrun")
        ctx.equal(self.due, "overrun", "an overrun at another time",
                  log=self.log[-6:])
        ctx.equal(
            (start, end, rate),
            (float(self.begin), float(self.end), float(self.current)),
            "start, end and rate of an overrun",
        )
        self.log.append("overrun")
        ctx.count("overruns")
        self.act()
        if self.rng.random() < 0.3:
            self.pass_time(Fraction(dyadic(self.rng, True)))
        self.due = "turn"
        self.mark()

    def mark(self):
        """What's the case when the next event is decided on."""
        self.left -= 1
        if self.left <= 0 and self.paused:
            # those paused can't be stopped
            self.paused = not self.daemon.unpause()
        self.was_paused = self.paused
        self.ended = self.stopping
        if self.left <= 0 and not self.stopping:
            # it's stopped here
            self.over.set()
            ok = core.wait_for(
                lambda: self.daemon.get_state_str() == "stopping", 10.0
            )
            self.ctx.check(ok, "not stopping", log=self.log[-6:])
            self.stopping = self.ended = True

    def settled(self, what):
        """Nothing but what's left of a period after a stop."""
        if self.ended:
            self.ctx.check(
                what == "a sleep" and self.due == "rest"
                or what == "an overrun",
                "still at work after a stop", what=what, due=self.due,
                log=self.log[-6:],
            )

    # the script ------------------------------------------------------------------
    def pass_time(self, amount):
        """Managed time goes by."""
        if not self.scale:
            # real time does, at least
            self.clock.now += float(amount)
            self.keeper.iteration()
            return
        steps = self.rng.choice([1, 1, 2])
        for _ in range(steps):
            part = amount / steps
            self.clock.now += float(part / Fraction(self.scale))
            self.managed += part
            self.keeper.iteration()

    def act(self, some=True):
        """Change something, from here or another thread."""
        rng, daemon, ctx = self.rng, self.daemon, self.ctx
        if self.stopping or not some or rng.random() < 0.6:
            return
        pick = rng.choice(
            ["rate", "rate", "refused", "scale", "pause", "unpause",
             "unpause"]
        )

        def change():
            if pick == "rate":
                self.rate = dyadic(rng)
                daemon.set_rate(self.rate)
                ctx.count("rate_changes")
            elif pick == "refused":
                daemon.set_rate(rng.choice([0.0, -1.0, -0.125, -1e9]))
                ctx.count("rate_refused")
            elif pick == "scale":
                # what went by so far is scaled as before
                self.keeper.iteration()
                self.scale = rng.choice([0.0, 1.0, 0.5, 2.0, 16.0])
                self.keeper.scale(self.scale)
                ctx.count("scale_changes")
            elif pick == "pause" and not self.paused:
                self.paused = daemon.pause()
                ctx.check(self.paused, "can't be paused")
            elif pick == "unpause" and self.paused:
                self.paused = not daemon.unpause()
                ctx.check(not self.paused, "can't be unpaused")

        if rng.random() < 0.5:
            change()
        else:
            thread = threading.Thread(target=change)
            thread.start()
            thread.join()
        self.log.append(pick)
        ctx.equal(daemon.get_rate(), self.rate, "the rate set")

    def judge(self, last=False):
        """What's counted and measured."""
        if self.env is None:
            return
        ctx, daemon = self.ctx, self.daemon
        if self.due != "overrun" or last:
            ctx.equal(
                self.env.get_metric(daemon.get_metric_name("overruns")),
                self.overruns, "overruns counted", log=self.log[-6:],
            )
        if self.uptime < 1 << 16:
            ctx.equal(
                self.env.get_metric(daemon.get_metric_name("uptime")),
                float(self.uptime), "the time up", log=self.log[-6:],
            )
            ctx.count("uptimes")
        if self.cycle < 1 << 16:
            ctx.equal(
                self.env.get_metric(daemon.get_metric_name("cycle_time")),
                float(self.cycle), "the time of a cycle", log=self.log[-6:],
            )

    def run(self):
        """From start to stop."""
        ctx, rng, daemon = self.ctx, self.rng, self.daemon
        self.args = rng.choice([
            ((), {}), ((1, "x"), {}), ((), {"a": 5}), ((None,), {"b": []}),
        ])
        self.over.clear()
        self.paused = self.stopping = False
        self.left = rng.randint(1, 25)
        self.was_paused = self.ended = False
        self.due = "init" if self.with_init else "turn"
        begun = self.due
        self.log.append("start")
        ctx.check(daemon.start(*self.args[0], **self.args[1]), "no start")
        ctx.count("starts")
        try:
            ok = self.over.wait(30.0)
        finally:
            if daemon.get_state_str() == "paused":
                daemon.unpause()
            daemon.stop()
        if self.error is not None:
            raise self.error
        ctx.check(ok, "the daemon got stuck", log=self.log[-6:],
                  stacks=core.stacks())
        ctx.equal(daemon.get_state_str(), "idle", "not stopped")
        ctx.check(self.due != begun or begun == "turn", "no set-up")
        # whether the overrun at a stop is reported isn't judged
        self.judge(True)




def paced(ctx, rng, index):
    logging.disable(logging.WARNING)
    ctx.defer(lambda: logging.disable(logging.NOTSET))
    pace = Pace(ctx, rng, index % 4 != 0)
    for _ in range(rng.randint(1, 4)):
        pace.run()
        if rng.random() < 0.4:
            # while it doesn't run
            pace.rate = dyadic(rng)
            pace.daemon.set_rate(pace.rate)
    ctx.distinct("paced", pace.callback, tuple(pace.log))
    ctx.sample({"events": pace.log[:20]})


# the rate is changed at any moment -----------------------------------------------
def raced(ctx, rng, _index):
    """A period is one of those set at about that time."""
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon.synchronous import Daemon

    clock = Clock(0.0)
    keeper = TimeKeeper("keeper", 1.0, 1.0, clock.time, clock.sleep)
    done = []
    # (before it's set, after it's set, rate)
    sets = [(0, 0, 1.0)]
    ticks = iter(range(1, 1 << 60))
    tick = threading.Lock()

    def now():
        with tick:
            return next(ticks)

    turns = []
    busy = rng.choice([0.0, 0.25])

    def task():
        turns.append([now(), None, None, clock.now])
        clock.now += busy
        keeper.iteration()

    def slept(amount):
        turns[-1][1:3] = now(), amount
        clock.now += amount
        keeper.iteration()

    clock.on_sleep = slept
    daemon = Daemon("raced", task, 1.0, time_keeper=keeper)
    seed = rng.random()

    def change(num):
        own = random.Random(repr((seed, num)))
        # each sets its own rates
        for turn in range(30):
            rate = 1.0 + (num * 64 + turn) / 128
            before = now()
            daemon.set_rate(rate)
            done.append((before, now(), rate))
            time.sleep(own.choice([0, 0, 0.0005]))

    assert daemon.start()
    try:
        outs = sched.stress(
            ctx, rng, [lambda n=n: change(n) for n in range(2)], 0.03
        )
        sched.no_errors(outs)
        count = len(turns)
        core.wait_for(lambda: len(turns) > count + 3, 5.0)
    finally:
        daemon.stop()
    sets += done
    last_end = 0
    used = set()
    for begin, end, amount, _ in turns:
        if end is None:
            continue
        rate = amount + busy
        options = []
        for before, after, value in sets:
            if before > begin:
                # set after the iteration began
                continue
            # replaced for sure before the iteration before was over
            if any(after < b and a < last_end for b, a, _ in sets):
                continue
            options.append(value)
        ctx.check(rate in options, "a period that's not set then",
                  rate=rate, options=options)
        used.add(rate)
        last_end = end
        ctx.count("raced_iterations")
    ctx.equal(turns[-2][2] + busy, daemon.get_rate(), "the rate set last")
    ctx.distinct("raced", len(used), busy)


# in real time --------------------------------------------------------------------
def real(ctx, rng, _index):
    """Not faster than the pace, in real and managed time."""
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon.synchronous import Daemon

    logging.disable(logging.WARNING)
    ctx.defer(lambda: logging.disable(logging.NOTSET))
    scale = rng.choice([0.5, 1.0, 2.0, 4.0])
    grain = 0.002
    keeper = TimeKeeper("keeper", grain, scale)
    rate = rng.choice([0.03, 0.05]) * scale
    busy = rng.choice([0.0, 0.01])
    begins, managed, overran = [], [], []

    def task():
        begins.append(time.monotonic())
        managed.append(daemon.get_time())
        if busy:
            time.sleep(busy)

    daemon = Daemon(
        "real", task, rate, lambda *args: overran.append(args),
        time_keeper=keeper,
    )
    with keeper.booted():
        with daemon.booted():
            core.wait_for(lambda: len(begins) > 12, 5.0)
    ctx.check(len(begins) > 4, "hardly any iterations", count=len(begins))
    ctx.count("real_iterations", len(begins))
    # managed time is as of the keeper's last iteration: that may be late,
    # so single periods vary, but none is shorter than what's left of it
    if not overran:
        for left, right in zip(begins, begins[1:]):
            ctx.check(
                right - left >= busy * 0.99, "a period too short",
                took=right - left, busy=busy,
            )
        total = begins[-1] - begins[0]
        least = (len(begins) - 1) * rate / scale
        # time that's accounted to a task but went by before it
        slack = 0.2 + 0.35 * least
        ctx.check(total >= least - slack, "faster than the pace",
                  took=total, expected=least, scale=scale)
    ctx.distinct("real", scale, rate, busy)


UNITS = {
    "paced": (paced, 1200, 20000),
    "raced": (raced, 80, 600),
    "real": (real, 16, 60),
}
