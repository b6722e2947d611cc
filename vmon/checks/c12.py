"""C12: daemons follow their life cycle under any concurrent operations."""

import os
import random
import signal
import sys
import threading
import time
from queue import Queue

from vmon import core, sched, wire
from vmon.checks.c01 import drain

RULE = (
    "a case is a history of operations on a periodic, queue or custom daemon "
    "(work ending by itself, on request or by an exception), from one thread "
    "against a model, from many under noise, or with the daemon's thread or "
    "one operation held back at each of its lines while another operation "
    "is made; distinct = (daemon, operations, where preempted, outcomes)"
)
ASSUME = [
    "work reacts to a requested stop within the time-out, but in `outlast`",
    "a paused daemon is unpaused before it is stopped (stopping is refused)",
    "state-change callbacks operate on their daemon by name only, as listed",
]
REQUIRE = {
    "echoes": 200,
    "operations": 3000,
    "refused": 500,
    "transitions": 2500,
    "crashed": 60,
    "outlasted": 40,
    "interrupted": 6,
    "held": 150,
    "interleavings": 150,
    "stress_runs": 10,
    "state_events": 150,
}
LEGAL = {
    ("IDLE", "STARTING"),
    ("STARTING", "RUNNING"),
    ("RUNNING", "PAUSED"),
    ("PAUSED", "RUNNING"),
    ("RUNNING", "STOPPING"),
    ("RUNNING", "IDLE"),
    ("PAUSED", "IDLE"),
    ("STOPPING", "IDLE"),
}
MODEL = {
    # (state, operation): (result, new state)
    ("IDLE", "start"): (True, "RUNNING"),
    ("RUNNING", "stop"): (True, "IDLE"),
    ("RUNNING", "pause"): (True, "PAUSED"),
    ("PAUSED", "unpause"): (True, "RUNNING"),
    ("RUNNING", "restart"): (True, "RUNNING"),
}
SKIP = {
    "start": {"RUNNING"},
    "stop": {"IDLE"},
    "pause": {"PAUSED"},
    "unpause": {"IDLE", "RUNNING"},
    "restart": set(),
}


class Crash(Exception):
    """What crashing work raises."""


class Subject:
    """A daemon with its work and state changes watched."""

    def __init__(self, rng, kind=None, env=None, name="subject"):
        from vtelem.daemon import DaemonBase, DaemonState
        from vtelem.daemon.queue import QueueDaemon
        from vtelem.daemon.synchronous import Daemon

        self.kind = kind or rng.choice(["periodic", "queue", "custom"])
        self.name, self.env = name, env
        self.changes = []
        self.lock = threading.Lock()
        self.active, self.most = 0, 0
        self.begun, self.ended, self.iterations = 0, 0, 0
        self.bad = None
        self.finish = threading.Event()
        self.crash = None
        self.block = None
        self.inside = False
        subject = self

        def begin():
            with subject.lock:
                subject.active += 1
                subject.most = max(subject.most, subject.active)
                subject.begun += 1

        def end():
            with subject.lock:
                subject.active -= 1
                subject.ended += 1

        def step(*_, **__):
            subject.iterations += 1
            if subject.block is not None:
                subject.inside = True
                subject.block.wait(30)
                subject.inside = False
            if subject.crash is not None:
                error, subject.crash = subject.crash, None
                raise error

        def change(prev, new, _):
            subject.changes.append((prev.name, new.name))

        if self.kind == "periodic":

            class Watched(Daemon):
                def run(self, *args, **kwargs):
                    begin()
                    try:
                        super().run(*args, **kwargs)
                    finally:
                        end()

            self.daemon = Watched(
                name, step, 0.0005, state_change_cb=change, env=env,
                iter_overrun_cb=lambda *_: None,
            )
        elif self.kind == "queue":
            self.queue = Queue()

            class Watched(QueueDaemon):
                def run(self, *args, **kwargs):
                    begin()
                    try:
                        super().run(*args, **kwargs)
                    finally:
                        end()

            self.daemon = Watched(name, self.queue, step, env)
            self.daemon.function["state_change"] = change
        else:

            class Watched(DaemonBase):
                def run(self, *_, **__):
                    begin()
                    try:
                        while (
                            self.get_state() != DaemonState.STOPPING
                            and not subject.finish.is_set()
                        ):
                            if self.get_state() != DaemonState.PAUSED:
                                step()
                            time.sleep(0.0003)
                    finally:
                        end()

            self.daemon = Watched(name, env)
            self.daemon.function["state_change"] = change

    def state(self):
        return self.daemon.get_state().name

    def end_work(self, rng):
        """Have the work end on its own; how."""
        how = rng.choice(["finish", "crash", "crash", "interrupt", "exit"])
        if self.kind == "periodic" and how == "finish":
            how = "crash"
        if how == "finish":
            if self.kind == "queue":
                self.queue.put(None)
            else:
                self.finish.set()
        else:
            self.crash = {
                "crash": Crash, "interrupt": KeyboardInterrupt,
                "exit": SystemExit,
            }[how]()
            if self.kind == "queue":
                self.queue.put(1)
        return how

    def chain(self, ctx):
        """State changes have to follow each other, legally."""
        prev = "IDLE"
        for old, new in list(self.changes):
            ctx.check(
                old == prev and (old, new) in LEGAL,
                "a reported state change doesn't follow the one before it",
                changes=self.changes[-20:], at=(old, new), expected=prev,
            )
            prev = new
        ctx.equal(self.state(), prev, "the state isn't the one last reported")
        ctx.equal(
            self.most <= 1, True, "two instances of the work ran at a time"
        )
        ctx.count("transitions", len(self.changes))

    def metric(self, name):
        return self.env.get_metric(f"{self.name}.{name}")

    def counts(self, ctx):
        """Metrics against the reported changes."""
        if self.env is None:
            return
        ctx.equal(
            self.env.get_enum_metric(f"{self.name}.state").upper(),
            self.state(), "the published state is another",
        )
        for name, change in (
            ("starts", ("IDLE", "STARTING")),
            ("pauses", ("RUNNING", "PAUSED")),
            ("unpauses", ("PAUSED", "RUNNING")),
        ):
            ctx.equal(
                self.metric(name), self.changes.count(change),
                f"the number of {name} is wrong",
            )
        ctx.equal(
            self.metric("stops") + self.metric("errors"),
            self.changes.count(("RUNNING", "STOPPING")),
            "the number of stops is wrong",
        )


def only_crashes(error):
    return error["type"] in ("Crash", "SystemExit")


def new_env(rng, always=False):
    from vtelem.telemetry.environment import TelemetryEnvironment

    if not always and rng.random() < 0.4:
        return None
    return TelemetryEnvironment(3000, metrics_rate=1000.0)


def published(ctx, subject):
    """The events of the state metric since the last call."""
    env = subject.env
    from vtelem.classes.type_primitive import new_default

    types = {}
    reg = env.channel_registry
    for ident in range(reg.count()):
        types[ident] = reg.get_item(ident).type.name.lower()
    mine = reg.get_id(f"{subject.name}.state")
    env.dispatch_now(should_log=False)
    out = []
    for frame in drain(env):
        raw, size = frame.raw
        got = wire.parse(raw[:size], types, True)
        if got["type"] == wire.EVENT:
            out += [
                (e[1][0], e[2][0]) for e in got["elems"] if e[0] == mine
            ]
    return out


def states():
    from vtelem.enums.daemon import DaemonState

    return {s.value: s.name for s in DaemonState}


def history(ctx, rng, index):
    """Operations from one thread, with exact results."""
    ctx.allow_thread_errors = only_crashes
    env = new_env(rng)
    subject = Subject(rng, env=env)
    daemon = subject.daemon
    model = "IDLE"
    names = states()
    log = []
    seen_events = []
    starts = 0
    for _ in range(rng.choice([5, 15, 30])):
        act = rng.random()
        oper = rng.choice(["start", "stop", "pause", "unpause", "restart",
                           "start", "stop"])
        if model == "PAUSED" and rng.random() < 0.4:
            oper = "unpause"
        route = rng.choice(["method", "perform", "str", "STR"])
        if act < 0.12 and model == "RUNNING":
            how = subject.end_work(rng)
            ctx.check(
                core.wait_for(lambda: subject.state() == "IDLE"),
                "a daemon isn't idle after its work ended", how=how,
                state=subject.state(),
            )
            ctx.count("crashed", how != "finish")
            # the thread may still be on its way out
            core.wait_for(lambda: subject.ended == starts)
            subject.finish.clear()
            model = "IDLE"
            log.append(how)
            continue
        if act < 0.18:
            route = "wrong"
        expect, after = MODEL.get((model, oper), (False, model))
        if route != "method" and model in SKIP[oper]:
            expect, after = True, model
        begun = subject.begun
        if route == "wrong":
            oper = rng.choice(["none", "nope", "", "start ", "running"])
            expect, after = False, model
            result = daemon.perform_str(oper)
        elif route == "method":
            result = getattr(daemon, oper)()
        elif route == "perform":
            from vtelem.enums.daemon import DaemonOperation

            result = daemon.perform(DaemonOperation[oper.upper()])
        else:
            result = daemon.perform_str(
                oper if route == "str" else oper.upper()
            )
        log.append((route, oper, model))
        ctx.equal(
            bool(result), expect, "an operation's result is wrong",
            operation=oper, route=route, state=model, kind=subject.kind,
            log=log[-8:],
        )
        ctx.equal(
            subject.state(), after, "an operation left the wrong state",
            operation=oper, route=route, before=model, log=log[-8:],
        )
        if oper in ("start", "restart") and (model, after) in (
            ("IDLE", "RUNNING"), ("RUNNING", "RUNNING"),
        ) and not (route != "method" and oper == "start" and model == after):
            if not (route == "method" and oper == "start" and model != "IDLE"):
                starts += 1
        if model == "RUNNING" and after == "IDLE":
            ctx.equal(subject.active, 0, "a stopped daemon's work goes on")
        if after == "PAUSED" and subject.kind == "periodic":
            before = subject.iterations
            time.sleep(0.003)
            ctx.check(
                subject.iterations <= before + 1, "a paused daemon iterates"
            )
        ctx.count("operations")
        ctx.count("refused", not expect)
        ctx.distinct(subject.kind, route, oper, model, expect)
        model = after
        if env is not None and rng.random() < 0.3:
            seen_events += published(ctx, subject)
    if model == "PAUSED":
        daemon.unpause()
    if model != "IDLE":
        ctx.check(daemon.stop(), "the daemon isn't running any more")
    ctx.check(
        core.wait_for(lambda: subject.begun == starts == subject.ended),
        "the work didn't run once per start",
        begun=subject.begun, ended=subject.ended, starts=starts,
    )
    subject.chain(ctx)
    subject.counts(ctx)
    if env is not None:
        seen_events += published(ctx, subject)
        got = [(names[a], names[b]) for a, b in seen_events]
        got = [g for g in got if "ERROR" not in g]
        ctx.equal(
            got, subject.changes, "published state changes aren't the actual",
        )
        ctx.count("state_events", len(got))
    ctx.sample({"kind": subject.kind, "log": [repr(e) for e in log[:8]]})


def contexts(ctx, rng, index):
    """Booted, paused and served."""
    ctx.allow_thread_errors = only_crashes
    env = new_env(rng)
    subject = Subject(rng, env=env)
    daemon = subject.daemon
    for _ in range(3):
        raises = rng.random() < 0.4
        how = rng.choice(["booted", "serve", "paused"])
        inner = []
        try:
            if how == "serve":

                def main(*args, **kwargs):
                    inner.append((subject.state(), args[1:], kwargs))
                    if raises:
                        raise Crash()
                    return 17

                result = daemon.serve(1, 2, main_thread=main, key=3)
                ctx.equal(result, 17, "serving returns another result")
            else:
                with daemon.booted():
                    inner.append((subject.state(), (1, 2), {"key": 3}))
                    if how == "paused":
                        try:
                            with daemon.paused():
                                ctx.equal(
                                    subject.state(), "PAUSED", "isn't paused"
                                )
                                if raises:
                                    raise Crash()
                        finally:
                            ctx.equal(
                                subject.state(), "RUNNING", "is still paused"
                            )
                    elif raises:
                        raise Crash()
            ctx.check(not raises, "an exception was swallowed")
        except Crash:
            ctx.check(raises, "an exception out of nowhere")
        ctx.equal(
            inner, [("RUNNING", (1, 2), {"key": 3})],
            "the body didn't see a running daemon",
        )
        ctx.equal(
            (subject.state(), subject.active), ("IDLE", 0), "wasn't stopped"
        )
        # a daemon that ended inside
        with daemon.booted(require_stop=False):
            subject.end_work(rng)
            ctx.check(
                core.wait_for(lambda: subject.state() == "IDLE"),
                "a daemon isn't idle after its work ended",
            )
        core.wait_for(lambda: subject.active == 0)
        subject.finish.clear()
        ctx.count("operations", 6)
        ctx.count("crashed")
        ctx.distinct(how, raises, subject.kind)
    subject.chain(ctx)
    subject.counts(ctx)


def interrupted(ctx, rng, index):
    """Served without a main thread of its own, until it's interrupted."""
    subject = Subject(rng, env=new_env(rng))
    daemon = subject.daemon
    armed, seen, returned = [True], [], threading.Event()
    serving = threading.current_thread()

    def handler(*_):
        if armed and armed.pop():
            raise KeyboardInterrupt

    def asleep():
        frame = sys._current_frames().get(serving.ident)
        return frame is not None and "threading" not in frame.f_code.co_filename

    def interrupt():
        core.wait_for(lambda: subject.state() == "RUNNING")
        core.wait_for(asleep, 2)
        returned.wait(rng.choice([0.02, 0.05, 0.1]))
        core.wait_for(asleep, 2)
        seen.append(
            (subject.state(), subject.active, returned.is_set())
        )
        if not returned.is_set():
            os.kill(os.getpid(), signal.SIGINT)

    before = signal.signal(signal.SIGINT, handler)
    thread = threading.Thread(target=interrupt, daemon=True)
    thread.start()
    try:
        result = daemon.serve(*rng.choice([(), ("a", "b")]), key=3)
    finally:
        returned.set()
        thread.join(30)
        del armed[:]
        signal.signal(signal.SIGINT, before)
    ctx.equal(
        seen, [("RUNNING", 1, False)], "it doesn't serve until interrupted"
    )
    ctx.equal(result, 0, "serving returns another result")
    ctx.equal(
        (subject.state(), subject.active), ("IDLE", 0), "wasn't stopped"
    )
    ctx.count("interrupted")
    ctx.count("operations", 2)
    ctx.distinct("interrupted", subject.kind)
    subject.chain(ctx)
    subject.counts(ctx)


def race(ctx, rng, index):
    """Two operations, the first preempted at each of its lines."""
    pairs = [
        (a, b)
        for a in ("start", "stop", "pause", "unpause", "restart", "end")
        for b in ("start", "stop", "pause", "unpause", "restart")
    ]
    first, second = pairs[index % len(pairs)]
    begin = {"start": "IDLE", "unpause": "PAUSED"}.get(first, "RUNNING")
    if rng.random() < 0.2:
        begin = rng.choice(["IDLE", "RUNNING", "PAUSED"])
    ctx.allow_thread_errors = only_crashes
    kind = ["custom", "periodic", "queue"][index % 3]
    state = {}

    def make():
        subject = Subject(rng, kind, env=new_env(rng, True))
        state["subject"] = subject
        if begin != "IDLE":
            assert subject.daemon.start()
        if begin == "PAUSED":
            assert subject.daemon.pause()
        daemon = subject.daemon

        def call(name):
            if name == "end":
                return lambda: subject.end_work(random.Random(1))
            return getattr(daemon, name)

        return [call(first), call(second)]

    def verify(outs, runner):
        sched.no_errors(outs)
        subject = state["subject"]
        daemon = subject.daemon
        settle(ctx, subject)
        if first != "end":
            results = {True: [], False: []}
            results[bool(outs[0].value)].append(first)
            results[bool(outs[1].value)].append(second)
            tally(ctx, subject, results[True], begin)
        if subject.state() == "PAUSED":
            daemon.unpause()
        if subject.state() == "RUNNING":
            daemon.stop()
        settle(ctx, subject)
        ctx.check(
            core.wait_for(lambda: subject.state() == "IDLE"),
            "a daemon doesn't become idle", changes=subject.changes, trace=runner.trace, kind=kind, out=[(o.value) for o in outs],
        )
        core.wait_for(lambda: subject.active == 0)
        subject.chain(ctx)
        subject.counts(ctx)
        ctx.count("operations", 2)
        ctx.count(
            "refused", sum(not o.value for o in outs)
        )
        ctx.distinct(
            first, second, begin, kind, bool(outs[0].value),
            bool(outs[1].value), tuple(runner.trace[:1]),
        )

    sched.sweep(
        ctx, make, verify, rng, 8 if ctx.tier == "quick" else None,
        1 if ctx.tier == "quick" else 6,
    )


def settle(ctx, subject):
    core.wait_for(
        lambda: subject.state() in ("IDLE", "RUNNING", "PAUSED")
    )


def tally(ctx, subject, succeeded, begin):
    """Successes have to be the transitions made."""
    done = [c for c in subject.changes]
    skip = {"IDLE": 0, "RUNNING": 1, "PAUSED": 1}[begin]
    want = {
        ("IDLE", "STARTING"): skip
        + succeeded.count("start")
        + succeeded.count("restart"),
        ("RUNNING", "PAUSED"): (begin == "PAUSED") + succeeded.count("pause"),
        ("PAUSED", "RUNNING"): succeeded.count("unpause"),
    }
    for key, num in want.items():
        # a restart whose start is refused fails, but stopped
        have = done.count(key)
        ctx.check(
            have == num, "operations succeeded without their effect, or failed with it",
            transition=key, made=have, succeeded=succeeded, changes=done,
        )


def held(ctx, rng, index):
    """The daemon's own thread held back at a line, operations meanwhile."""
    ctx.allow_thread_errors = only_crashes
    kind = ["custom", "periodic", "queue"][index % 3]
    lines = list(range(1, 60))
    points = sorted(rng.sample(lines, 6)) if ctx.tier == "quick" else lines
    others = rng.choice(
        [["pause", "unpause"], ["stop"], ["stop", "start"], ["pause"],
         ["restart"], ["start"], ["stop", "start", "stop"]]
    )
    for point in points:
        subject = Subject(rng, kind, env=new_env(rng, True), name="watched")
        daemon = subject.daemon
        results = []

        def operate():
            for name in others:
                results.append((name, bool(getattr(daemon, name)())))

        ender = rng.random() < 0.4
        with sched.Hold(lambda n: n == "watched", point, 0.25) as hold:
            starter = threading.Thread(target=daemon.start, daemon=True)
            starter.start()
            if ender:
                subject.end_work(rng)
            reached = hold.reached.wait(0.02)
            worker = threading.Thread(target=operate, daemon=True)
            worker.start()
            worker.join(0.015)
            hold.released.set()
            starter.join()
            worker.join()
        settle(ctx, subject)
        if subject.state() == "PAUSED":
            daemon.unpause()
        if subject.state() == "RUNNING":
            daemon.stop()
        subject.finish.set()
        ctx.check(
            core.wait_for(lambda: subject.state() == "IDLE"),
            "a daemon doesn't become idle", state=subject.state(),
        )
        core.wait_for(lambda: subject.active == 0)
        subject.chain(ctx)
        subject.counts(ctx)
        ctx.equal(subject.begun, subject.ended, "work began but never ended")
        ctx.count("operations", len(results) + 1)
        ctx.count("refused", sum(not r for _, r in results))
        if reached:
            ctx.count("held")
        ctx.distinct(kind, tuple(results), hold.where, ender)


def prompt(ctx, rng, index):
    """Operations right after one that succeeded, the thread being slow."""
    ctx.allow_thread_errors = only_crashes
    kind = ["custom", "periodic", "queue"][index % 3]
    for _ in range(6):
        subject = Subject(rng, kind, env=new_env(rng, True), name="watched")
        daemon = subject.daemon
        script = rng.choice(
            [["start", "stop"], ["start", "pause", "unpause", "stop"],
             ["start", "stop", "start", "stop"], ["start", "restart", "stop"],
             ["start", "stop", "start", "pause", "unpause", "stop"],
             ["start", "restart", "pause", "unpause", "restart", "stop"]]
        )
        point = rng.randint(1, 30)
        with sched.Hold(lambda n: n == "watched", point, 0.03) as hold:
            for num, name in enumerate(script):
                ctx.check(
                    getattr(daemon, name)(), "refused right after a success",
                    script=script, at=num, held=hold.where,
                    state=subject.state(),
                )
        ctx.equal(subject.state(), "IDLE", "not idle after a stop")
        subject.chain(ctx)
        subject.counts(ctx)
        ctx.equal(subject.begun, subject.ended, "work began but never ended")
        ctx.count("prompt")
        ctx.distinct("prompt", kind, tuple(script), hold.where)


def outlast(ctx, rng, index):
    """Work that goes on after the stop gave up waiting for it."""
    from vtelem.enums.daemon import DaemonOperation

    ctx.allow_thread_errors = only_crashes
    subject = Subject(rng, env=new_env(rng, True))
    daemon = subject.daemon
    block = threading.Event()
    ctx.defer(block.set)
    given_up = 0
    for turn in range(rng.choice([1, 2, 3])):
        block.clear()
        subject.block = block
        ctx.check(daemon.start(), "an idle daemon can't be started")
        if subject.kind == "queue":
            subject.queue.put(turn)
        ctx.check(
            core.wait_for(lambda: subject.inside), "the work doesn't run"
        )
        begun = subject.begun
        ctx.check(
            daemon.stop(timeout=rng.choice([0.0, 0.001, 0.02])),
            "a running daemon can't be stopped",
        )
        given_up += 1
        ctx.equal(subject.state(), "STOPPING", "not stopping")
        ctx.equal(
            subject.metric("errors"), given_up,
            "a stop that gave up isn't counted as an error",
        )
        for name in rng.sample(
            ["start", "stop", "pause", "unpause", "restart"], 4
        ):
            if rng.random() < 0.5 or name == "stop":
                good = getattr(daemon, name)()
            else:
                good = daemon.perform(DaemonOperation[name.upper()])
            ctx.check(
                not good, "an operation succeeded while stopping",
                operation=name, state=subject.state(),
            )
            ctx.equal(subject.begun, begun, "work began while other ended")
            ctx.count("refused")
            ctx.count("operations")
        ctx.check(
            daemon.perform(DaemonOperation.STOP),
            "stopping again by name isn't skipped",
        )
        ctx.equal(subject.state(), "STOPPING", "not stopping")
        subject.block = None
        block.set()
        ctx.check(
            core.wait_for(lambda: subject.state() == "IDLE"),
            "a daemon doesn't become idle", state=subject.state(),
        )
        core.wait_for(lambda: subject.active == 0)
        subject.chain(ctx)
        subject.counts(ctx)
        ctx.count("outlasted")
        ctx.distinct("outlast", subject.kind, turn)
    ctx.check(daemon.start(), "an idle daemon can't be started")
    ctx.check(daemon.stop(), "a running daemon can't be stopped")
    ctx.equal(
        (subject.metric("errors"), subject.metric("stops")), (given_up, 1),
        "a stop is counted as another outcome",
    )
    subject.chain(ctx)


def crowd(ctx, rng, index):
    """Many threads operating at random."""
    ctx.allow_thread_errors = only_crashes
    subject = Subject(rng, env=new_env(rng, True))
    daemon = subject.daemon
    wins = []
    stale = []

    def body(seed):
        mine = random.Random(seed)

        def operate():
            for _ in range(12):
                oper = mine.choice(
                    ["start", "start", "stop", "stop", "pause", "unpause",
                     "unpause", "restart"]
                )
                begun, ended = subject.begun, subject.ended
                result = getattr(daemon, oper)()
                if result:
                    wins.append(oper)
                    if oper == "start" and subject.begun == begun:
                        # it may have been about to begin
                        if not core.wait_for(
                            lambda: subject.begun > begun, 2.0
                        ):
                            stale.append("started without running")
                    if oper == "stop" and subject.ended == ended:
                        stale.append("stopped without ending")

        return operate

    outs = sched.stress(
        ctx, rng, [body(rng.random()) for _ in range(3)],
        rng.choice([0.02, 0.1]), 0.0005,
    )
    sched.no_errors(outs)
    ctx.equal(stale, [], "an operation returned too early")
    if subject.state() == "PAUSED":
        daemon.unpause()
    if daemon.stop():
        wins.append("stop")
    core.wait_for(lambda: subject.state() == "IDLE")
    core.wait_for(lambda: subject.active == 0)
    subject.chain(ctx)
    subject.counts(ctx)
    made = subject.changes
    ctx.equal(
        made.count(("RUNNING", "PAUSED")), wins.count("pause"),
        "pauses succeeded without their effect, or failed with it",
    )
    restarts = wins.count("restart")
    ctx.check(
        made.count(("RUNNING", "STOPPING")) >= wins.count("stop") + restarts
        and made.count(("IDLE", "STARTING"))
        == wins.count("start") + restarts,
        "starts or stops succeeded without their effect, or failed with it",
        wins=wins, changes=made[-30:],
    )
    ctx.equal(
        subject.begun, made.count(("IDLE", "STARTING")),
        "the work didn't run once per start",
    )
    ctx.count("operations", 36)
    ctx.distinct("crowd", subject.kind, len(made), tuple(wins[:10]))


ECHO = {
    "STARTING": ["start"],
    "RUNNING": ["start", "unpause"],
    "PAUSED": ["pause"],
    "STOPPING": ["stop"],
    "IDLE": ["stop", "unpause"],
}


def listeners(ctx, rng, index):
    """Who is told of a state asks for what already holds: it's granted."""
    # those of the case before
    ctx.allow_thread_errors = only_crashes
    env = new_env(rng)
    subject = Subject(rng, env=env)
    daemon = subject.daemon
    told = daemon.function["state_change"]
    heard = []

    def change(prev, new, when):
        told(prev, new, when)
        oper = rng.choice(ECHO[new.name])
        # whatever this raises is judged as no answer
        heard.append((new.name, oper, None))
        good = daemon.perform_str(oper)
        heard[-1] = (new.name, oper, good)

    daemon.function["state_change"] = change
    starts, past = 0, []
    for _ in range(rng.choice([3, 6, 12])):
        now = subject.state()
        oper = rng.choice(
            {"IDLE": ["start"], "PAUSED": ["unpause"]}.get(
                now, ["stop", "stop", "pause"]
            )
        )
        ctx.check(getattr(daemon, oper)(), "an operation fails", oper=oper)
        starts += oper == "start"
        ctx.check(
            core.wait_for(
                lambda: len(heard) == len(subject.changes)
                and subject.state() not in ("STARTING", "STOPPING")
            ), "state changes aren't reported", heard=heard[-5:],
        )
        bad = [h for h in heard if h[2] is not True]
        ctx.check(not bad, "what already holds isn't granted", bad=bad)
        ctx.count("echoes", len(heard))
        ctx.distinct("listeners", subject.kind, tuple(heard))
        heard.clear()
        past += subject.changes
        del subject.changes[:]
    if subject.state() == "PAUSED":
        daemon.unpause()
    if subject.state() == "RUNNING":
        ctx.check(daemon.stop(), "the daemon isn't running any more")
    subject.changes[:0] = past
    core.wait_for(lambda: subject.begun == starts == subject.ended)
    ctx.equal((subject.begun, subject.ended), (starts, starts),
              "the work didn't run once per start")
    subject.chain(ctx)
    subject.counts(ctx)


UNITS = {
    "history": (history, 400, 6000),
    "contexts": (contexts, 40, 800),
    "race": (race, 120, 600),
    "prompt": (prompt, 60, 600),
    "interrupted": (interrupted, 12, 60),
    "outlast": (outlast, 60, 600),
    "held": (held, 150, 400),
    "crowd": (crowd, 80, 600),
    "listeners": (listeners, 80, 800),
}
