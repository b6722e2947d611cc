"""
Control over interleavings of the real code, through sys.monitoring.

Every line of the code under test that a thread starts is an event. Two users
of these events:

  Noise   makes threads yield or sleep at random lines (stress)
  serial  runs operations one at a time, switching threads at chosen lines
          (so one run is one interleaving; sweeping the switch point covers
          every line at which a thread can be preempted)
"""

import os
import random
import sys
import threading
import time

from . import core

TOOL = 3
_STATE = {"handler": None, "on": False}
PREFIX = os.path.join(core.REPO, "vtelem") + os.sep


def _on_line(code, line):
    if not code.co_filename.startswith(PREFIX):
        return sys.monitoring.DISABLE
    handler = _STATE["handler"]
    if handler is not None:
        handler(code, line)
    return None


def attach(handler):
    mon = sys.monitoring
    _STATE["handler"] = handler
    if not _STATE["on"]:
        mon.use_tool_id(TOOL, "vmon")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.set_events(TOOL, mon.events.LINE)
        _STATE["on"] = True


def detach():
    mon = sys.monitoring
    _STATE["handler"] = None
    if _STATE["on"]:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        _STATE["on"] = False


class Noise:
    """Random yields at lines of the code under test."""

    def __init__(self, rng, chance=0.05, longest=0.0008):
        self.seed = rng.random()
        self.chance, self.longest = chance, longest
        self.local = threading.local()
        self.numbers = iter(range(1 << 30))
        self.events = 0

    def __enter__(self):
        self.switch = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        attach(self.handle)
        return self

    def __exit__(self, *_):
        detach()
        sys.setswitchinterval(self.switch)

    def handle(self, _code, _line):
        self.events += 1
        rng = getattr(self.local, "rng", None)
        if rng is None:
            rng = random.Random(f"{self.seed}|{next(self.numbers)}")
            self.local.rng = rng
        pick = rng.random()
        if pick < self.chance:
            time.sleep(0 if pick < self.chance / 2 else rng.random() * self.longest)


class Outcome:
    """What an operation did."""

    def __init__(self):
        self.value = None
        self.error = None
        self.done = False


class Serial:
    """Run operations as threads, one at a time."""

    STALL = 5  # polls without progress before another thread gets its turn
    POLL = 0.0006
    DEADLOCK = 25.0

    def __init__(self, ops, switches, by_thread=False, start=0):
        self.ops = ops
        self.switches = set(switches)
        self.by_thread = by_thread
        self.cond = threading.Condition(threading.Lock())
        self.turn = start
        self.steps = 0
        self.counts = [0] * len(ops)
        self.out = [Outcome() for _ in ops]
        self.index = {}
        self.trace = []
        self.first_done_at = None
        self.switched = 0

    def _next(self, idx):
        for off in range(1, len(self.ops) + 1):
            cand = (idx + off) % len(self.ops)
            if not self.out[cand].done:
                return cand
        return idx

    def _handle(self, code, line):
        idx = self.index.get(threading.get_ident())
        if idx is None:
            return
        with self.cond:
            while self.turn != idx:
                self.cond.wait()
            self.steps += 1
            self.counts[idx] += 1
            key = (idx, self.counts[idx]) if self.by_thread else self.steps
            if key in self.switches:
                new = self._next(idx)
                if new != idx:
                    self.switched += 1
                    if len(self.trace) < 20:
                        self.trace.append(
                            f"{idx}->{new} at {os.path.basename(code.co_filename)}:{line}"
                        )
                    self.turn = new
                    self.cond.notify_all()
                    while self.turn != idx:
                        self.cond.wait()

    def _thread(self, idx):
        self.index[threading.get_ident()] = idx
        out = self.out[idx]
        with self.cond:
            while self.turn != idx:
                self.cond.wait()
        try:
            out.value = self.ops[idx]()
        except Exception as exc:  # pylint: disable=broad-except
            out.error = exc
        finally:
            # thread identifiers are reused
            self.index.pop(threading.get_ident(), None)
            with self.cond:
                out.done = True
                if self.first_done_at is None:
                    self.first_done_at = self.steps
                if self.turn == idx:
                    self.turn = self._next(idx)
                self.cond.notify_all()

    def run(self):
        threads = [
            threading.Thread(
                target=self._thread, args=(i,), daemon=True, name=f"op{i}"
            )
            for i in range(len(self.ops))
        ]
        attach(self._handle)
        try:
            for thread in threads:
                thread.start()
            last, same, progress = None, 0, time.monotonic()
            wait = self.POLL / 4
            while not all(o.done for o in self.out):
                # spin gently at first, operations are short
                time.sleep(wait)
                wait = min(self.POLL, wait * 1.5)
                frames = sys._current_frames()
                turn = self.turn
                frame = frames.get(threads[turn].ident)
                key = (
                    turn,
                    self.steps,
                    tuple(o.done for o in self.out),
                    None if frame is None else (id(frame.f_code), frame.f_lasti),
                )
                del frames, frame
                if key[1:3] != (last or key)[1:3]:
                    progress = time.monotonic()
                if key == last:
                    same += 1
                else:
                    same = 0
                last = key
                if same >= self.STALL:
                    same = 0
                    with self.cond:
                        if self.turn == turn:
                            self.turn = self._next(turn)
                            self.cond.notify_all()
                if time.monotonic() - progress > self.DEADLOCK:
                    raise core.Violation(
                        "deadlock: operations blocked each other",
                        stacks=core.stacks(),
                        trace=self.trace,
                    )
        finally:
            detach()
        for thread in threads:
            thread.join()
        return self.out


def serial(ctx, ops, switches, by_thread=False, start=0):
    """Run one interleaving; returns (outcomes, runner)."""
    runner = Serial(ops, switches, by_thread, start)
    out = runner.run()
    ctx.count("interleavings")
    ctx.count("line_events", runner.steps)
    ctx.count("preemptions", runner.switched)
    return out, runner


def sweep(ctx, make, verify, rng, points=None, extra=0):
    """
    Preempt each operation, begun first, at each of its lines (or 'points' of
    them for the first operation, half as many for others): make() gives fresh
    operations, verify(outcomes, runner) judges. 'extra' more runs use two or
    three random switches.
    """
    done, total, count, start = 0, 0, 1, 0
    while start < count:
        ops = make()
        count = len(ops)
        out, runner = serial(ctx, ops, [], start=start)
        verify(out, runner)
        total = max(total, runner.steps)
        todo = list(range(1, (runner.first_done_at or total) + 1))
        limit = points
        if points is not None and start:
            limit = max(1, points // (2 * (count - 1)))
        if limit is not None and len(todo) > limit:
            todo = sorted(rng.sample(todo, limit))
        for point in todo:
            out, runner = serial(ctx, make(), [point], start=start)
            verify(out, runner)
        done += len(todo)
        start += 1
    for _ in range(extra):
        many = [rng.randint(1, max(1, total)) for _ in range(rng.randint(2, 3))]
        out, runner = serial(
            ctx, make(), many, start=rng.randrange(count)
        )
        verify(out, runner)
    return done


def stress(ctx, rng, bodies, chance=0.05, longest=0.0008):
    """Run bodies in threads under noise; returns their outcomes."""
    outs = [Outcome() for _ in bodies]
    gate = threading.Barrier(len(bodies))

    def call(idx):
        gate.wait()
        try:
            outs[idx].value = bodies[idx]()
        except Exception as exc:  # pylint: disable=broad-except
            outs[idx].error = exc
        outs[idx].done = True

    threads = [
        threading.Thread(target=call, args=(i,), daemon=True, name=f"w{i}")
        for i in range(len(bodies))
    ]
    with Noise(rng, chance, longest) as noise:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    ctx.count("stress_runs")
    ctx.count("line_events", noise.events)
    return outs


def no_errors(outs):
    """Raise what an operation raised."""
    for out in outs:
        if out.error is not None:
            raise out.error


class Hold:
    """Hold back threads matching a name at one of their lines."""

    def __init__(self, match, at, limit=0.03):
        self.match, self.at, self.limit = match, at, limit
        self.lock = threading.Lock()
        self.count = 0
        self.reached = threading.Event()
        self.released = threading.Event()
        self.where = None
        self.names = {}

    def __enter__(self):
        attach(self.handle)
        return self

    def __exit__(self, *_):
        self.released.set()
        detach()

    def handle(self, code, line):
        ident = threading.get_ident()
        name = self.names.get(ident)
        if name is None:
            name = threading.current_thread().name
            self.names[ident] = name
        if not self.match(name):
            return
        with self.lock:
            self.count += 1
            mine = self.count == self.at
        if mine:
            self.where = f"{os.path.basename(code.co_filename)}:{line}"
            self.reached.set()
            self.released.wait(self.limit)
