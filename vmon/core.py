"""
Core of the monitoring framework: cases, verdicts, counters, watchdog.

A *check* module defines

    RULE      how cases are made and what makes one non-trivial
    UNITS     {unit name: (function, quick cases, thorough cases)}
    REQUIRE   {counter: minimum}, below which a silent run is inconclusive
    ASSUME    list of assumptions

A unit function is called as fn(ctx, rng, index) once per case; everything
random in a case comes from 'rng', which is derived from VERIF_SEED, the
property, the unit and the index, so every case can be replayed on its own.
"""

import errno
import faulthandler
import hashlib
import importlib
import importlib.machinery
import json
import logging
import os
import random
import signal
import sys
import threading
import time
import traceback

REPO = os.environ.get("VTELEM_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# VMON_OUT lets development runs keep away from /verif/evidence
OUT = os.environ.get("VMON_OUT", os.path.join(ROOT, "evidence"))


class Violation(Exception):
    """An observation that refutes the property."""

    def __init__(self, message, **data):
        super().__init__(message)
        self.message = message
        self.data = data


class Inconclusive(Exception):
    """The environment kept the case from being decided."""


ENV_ERRNOS = {
    errno.EADDRINUSE,
    errno.EADDRNOTAVAIL,
    errno.EMFILE,
    errno.ENFILE,
    errno.ENOMEM,
    errno.ENOSPC,
    errno.ENOBUFS,
}


def is_env_error(exc):
    """Whether an exception is the sandbox's fault, not the code's."""
    if isinstance(exc, MemoryError):
        return True
    if isinstance(exc, OSError) and exc.errno in ENV_ERRNOS:
        return True
    return isinstance(exc, RuntimeError) and "start new thread" in str(exc)


def prepare_import():
    """Import the code under test from REPO's working tree, never a cache."""

    sys.dont_write_bytecode = True
    loader = importlib.machinery.SourceFileLoader
    original = loader.path_stats

    def path_stats(self, path):
        # without stats, a cached .pyc is neither trusted nor written
        if str(path).startswith(REPO + os.sep):
            raise OSError("caches of the code under test are not trusted")
        return original(self, path)

    loader.path_stats = path_stats
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import vtelem

    where = os.path.dirname(os.path.abspath(vtelem.__file__))
    assert where == os.path.join(REPO, "vtelem"), where


def stacks():
    """All threads' stacks, as text."""
    out = {}
    names = {t.ident: t.name for t in threading.enumerate()}
    for ident, frame in sys._current_frames().items():
        out[f"{names.get(ident, '?')}:{ident}"] = "".join(
            traceback.format_stack(frame)[-8:]
        )
    return out


def stack_digest(skip):
    """A value that changes when any watched thread makes progress."""
    dig = []
    for ident, frame in sys._current_frames().items():
        if ident in skip:
            continue
        chain = []
        while frame is not None and len(chain) < 25:
            chain.append((id(frame.f_code), frame.f_lasti))
            frame = frame.f_back
        dig.append((ident, tuple(chain)))
    return hash(tuple(sorted(dig)))


def compact(value, depth=0):
    """Make something JSON-friendly and short."""
    if isinstance(value, (str, int, float, bool)) or value is None:
        return value if not isinstance(value, str) else value[:4000]
    if isinstance(value, (bytes, bytearray)):
        return value.hex()[:4000]
    if depth > 5:
        return repr(value)[:200]
    if isinstance(value, dict):
        return {
            str(k): compact(v, depth + 1) for k, v in list(value.items())[:200]
        }
    if isinstance(value, (list, tuple, set, frozenset)):
        return [compact(v, depth + 1) for v in list(value)[:200]]
    return repr(value)[:400]


class Ctx:
    """What a unit uses to report what it observed."""

    BLOCK_SAMPLES = 120  # watchdog samples (of >= 0.2 s) without progress
    CPU_LIMIT = 90.0  # cpu seconds for one case

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = {}
        self.seen = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.current = None
        self.case_started = (time.monotonic(), time.process_time())
        self.thread_errors = []
        self.allow_thread_errors = None
        self.lock = threading.Lock()
        self.cleanups = []

    # observation -----------------------------------------------------------
    def count(self, name, amount=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + amount

    def distinct(self, *key):
        digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        with self.lock:
            self.seen.add(digest)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(compact(obj))

    def fail(self, message, **data):
        raise Violation(message, **data)

    def check(self, cond, message, **data):
        self.count("oracle_evaluations")
        if not cond:
            raise Violation(message, **data)

    def equal(self, got, want, message, **data):
        self.count("oracle_evaluations")
        if got != want:
            raise Violation(message, got=got, expected=want, **data)

    def defer(self, fn, *args):
        """Run something when the case ends, however it ends."""
        self.cleanups.append((fn, args))

    # execution -------------------------------------------------------------
    def record(self, message, data, kind):
        unit, index = self.current
        self.violations.append(
            {
                "property": self.prop,
                "unit": unit,
                "index": index,
                "seed": self.seed,
                "tier": self.tier,
                "kind": kind,
                "message": message,
                "data": compact(data),
            }
        )

    def run_case(self, name, func, index):
        rng = random.Random(f"{self.seed}|{self.prop}|{name}|{index}")
        random.seed(rng.random())
        self.thread_errors = []
        self.allow_thread_errors = None
        self.cleanups = []
        self.case_started = (time.monotonic(), time.process_time())
        self.current = (name, index)
        ok = True
        try:
            try:
                func(self, rng, index)
            finally:
                while self.cleanups:
                    fn, args = self.cleanups.pop()
                    fn(*args)
            errs = [
                e
                for e in self.thread_errors
                if self.allow_thread_errors is None
                or not self.allow_thread_errors(e)
            ]
            if errs:
                raise Violation("a worker thread died", errors=errs)
        except Violation as exc:
            data = dict(exc.data)
            if self.thread_errors:
                data["thread_errors"] = self.thread_errors
            self.record(exc.message, data, "oracle")
            ok = False
        except Inconclusive as exc:
            self.notes.append(f"{name}[{index}]: {exc}")
            self.count("inconclusive_cases")
        except Exception as exc:  # pylint: disable=broad-except
            if is_env_error(exc):
                self.notes.append(f"{name}[{index}]: {exc!r}")
                self.count("inconclusive_cases")
            else:
                self.record(
                    f"unexpected {type(exc).__name__}: {exc}",
                    {"traceback": traceback.format_exc()[-3000:]},
                    "exception",
                )
                ok = False
        self.current = None
        self.count("cases")
        self.count(f"cases.{name}")
        return ok

    def install_hooks(self):
        def hook(args):
            exc = args.exc_value
            if exc is not None and is_env_error(exc):
                self.notes.append(f"thread: {exc!r}")
                return
            text = "".join(
                traceback.format_exception(
                    args.exc_type, exc, args.exc_traceback
                )
            )
            name = args.thread.name if args.thread else "?"
            with self.lock:
                self.thread_errors.append(
                    {
                        "thread": name,
                        "type": args.exc_type.__name__,
                        "text": text[-2500:],
                    }
                )

        threading.excepthook = hook


def retry(func, seconds=20.0):
    """Call until it works (something else may still be starting)."""
    end = time.monotonic() + seconds
    while True:
        try:
            return func()
        except OSError:
            if time.monotonic() > end:
                raise
        time.sleep(0.02)


def wait_for(cond, seconds=20.0, step=0.005):
    """Whether a condition came to hold in time."""
    end = time.monotonic() + seconds
    while not cond():
        if time.monotonic() > end:
            return bool(cond())
        time.sleep(step)
    return True


def run_worker(module, ctx, tasks, deadline, out_path):
    """Run cases in this (forked) process and write the result."""

    ctx.install_hooks()
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    done = threading.Event()

    def write():
        with ctx.lock:
            blob = {
                "counters": ctx.counters,
                "seen": [d.hex() for d in ctx.seen],
                "samples": ctx.samples,
                "violations": ctx.violations,
                "notes": ctx.notes[:50],
            }
        tmp = out_path + ".tmp"
        with open(tmp, "w", encoding="utf-8") as out:
            json.dump(blob, out)
        os.replace(tmp, out_path)

    def watchdog():
        me = {threading.get_ident()}
        last_case, last_dig, same = None, None, 0
        while not done.wait(0.2):
            current = ctx.current
            if current is None:
                same = 0
                continue
            dig = stack_digest(me)
            if current == last_case and dig == last_dig:
                same += 1
            else:
                same = 0
            last_case, last_dig = current, dig
            cpu = time.process_time() - ctx.case_started[1]
            stuck = same >= ctx.BLOCK_SAMPLES
            if stuck or cpu > ctx.CPU_LIMIT:
                what = (
                    "deadlock: no thread made progress"
                    if stuck
                    else f"no termination within {ctx.CPU_LIMIT} cpu seconds"
                )
                try:
                    ctx.record(what, {"stacks": stacks()}, "progress")
                    write()
                finally:
                    os._exit(0)

    threading.Thread(target=watchdog, daemon=True, name="vmon-wd").start()
    for name, index in tasks:
        if time.monotonic() > deadline:
            ctx.count("skipped_for_time")
            continue
        func = module.UNITS[name][0]
        if not ctx.run_case(name, func, index):
            break
    done.set()
    write()
    sys.stdout.flush()
    os._exit(0)
