"""
A lock monitor: every lock made through 'threading' is watched.

install() must run before the code under test is imported. While recording,
the monitor knows which thread holds which lock, and for every lock waited for
without limit which locks its thread held at that time. A pair of locks taken
in opposite orders by different threads, not both under a common third lock,
is a deadlock that only lacks its schedule.
"""

import os
import sys
import threading
import _thread

from . import core

RAW_LOCK = _thread.allocate_lock
RAW_RLOCK = _thread.RLock
GUARD = RAW_LOCK()
OWN = os.path.join(core.ROOT, "vmon") + os.sep


class State:
    """What is known about locks."""

    def __init__(self):
        self.on = False
        self.serial = 0
        self.reset()

    def reset(self):
        with GUARD:
            self.held = {}  # thread: [lock, ...]
            self.edges = {}  # (lock, lock): {thread: (held, where)}
            self.names = {}
            self.acquisitions = 0
            self.nested = 0


STATE = State()


def where(depth=2, limit=4):
    """Lines of interest on the stack."""
    out = []
    frame = sys._getframe(depth)
    while frame is not None and len(out) < limit:
        name = frame.f_code.co_filename
        if name.startswith(core.REPO) or "/checks/" in name:
            out.append(f"{os.path.basename(name)}:{frame.f_lineno}")
        frame = frame.f_back
    return " < ".join(out)


class Watched:
    """A lock that tells the monitor."""

    reentrant = False

    def __init__(self):
        self.raw = RAW_RLOCK() if self.reentrant else RAW_LOCK()
        with GUARD:
            STATE.serial += 1
            self.serial = STATE.serial
        self.site = where(3)
        self.count = 0
        self.owner = None

    def _before(self):
        """This thread is about to wait for this lock."""
        me = _thread.get_ident()
        if self.reentrant and self.owner == me:
            return
        held = STATE.held.get(me)
        if not held:
            return
        with GUARD:
            ids = frozenset(lock.serial for lock in held)
            for lock in held:
                STATE.nested += 1
                key = (lock.serial, self.serial)
                seen = STATE.edges.setdefault(key, {})
                STATE.names[lock.serial] = lock.site
                STATE.names[self.serial] = self.site
                # keep the smallest set of locks held
                if me not in seen or len(ids) < len(seen[me][0]):
                    seen[me] = (ids, where(4))

    def _got(self):
        me = _thread.get_ident()
        self.owner = me
        self.count += 1
        if self.count == 1 and STATE.on:
            with GUARD:
                STATE.acquisitions += 1
                STATE.held.setdefault(me, []).append(self)

    def acquire(self, blocking=True, timeout=-1):
        if STATE.on and blocking and timeout < 0:
            self._before()
        result = self.raw.acquire(blocking, timeout)
        if result:
            self._got()
        return result

    def _dropped(self):
        """Called while still held."""
        self.count -= 1
        if self.count == 0:
            owner, self.owner = self.owner, None
            if STATE.held:
                with GUARD:
                    mine = STATE.held.get(owner)
                    if mine and self in mine:
                        mine.remove(self)
                        if not mine:
                            del STATE.held[owner]

    def release(self):
        if self.reentrant:
            if self.owner == _thread.get_ident():
                self._dropped()
        elif self.count:
            self._dropped()
        self.raw.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def __repr__(self):
        return f"<lock {self.serial} of {self.site}>"

    def locked(self):
        return bool(self.count)

    def _at_fork_reinit(self):
        self.raw._at_fork_reinit()
        self.count, self.owner = 0, None


class WatchedLock(Watched):
    """A plain lock."""


class WatchedRLock(Watched):
    """A re-entrant lock."""

    reentrant = True

    def _is_owned(self):
        return self.raw._is_owned()

    def _release_save(self):
        count = self.count
        self.count = 1
        self._dropped()
        return count, self.raw._release_save()

    def _acquire_restore(self, state):
        if STATE.on:
            self._before()
        self.raw._acquire_restore(state[1])
        self._got()
        self.count = state[0]


def _mine(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(OWN)


def make_lock():
    """Stands in for threading.Lock."""
    return RAW_LOCK() if _mine() else WatchedLock()


def make_rlock():
    """Stands in for threading.RLock."""
    return RAW_RLOCK() if _mine() else WatchedRLock()


def install():
    """Watch every lock made from now on."""
    threading.Lock = make_lock
    threading.RLock = make_rlock


class Watch:
    """Record for a while."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        STATE.reset()
        STATE.on = True
        return self

    def __exit__(self, *_):
        STATE.on = False
        self.ctx.count("acquisitions", STATE.acquisitions)
        self.ctx.count("nested", STATE.nested)

    @staticmethod
    def held(ident=None):
        """Locks held (by a thread)."""
        with GUARD:
            if ident is not None:
                return [repr(x) for x in STATE.held.get(ident, [])]
            return [repr(x) for held in STATE.held.values() for x in held]

    def inversions(self):
        """Cycles of locks taken by different threads (up to three locks)."""
        with GUARD:
            edges = {k: dict(v) for k, v in STATE.edges.items()}
        names = STATE.names
        self.ctx.count("lock_pairs", len(edges))
        after = {}
        for first, second in edges:
            after.setdefault(first, set()).add(second)

        def compatible(path):
            """Different threads, nothing held in common, for each edge."""
            choices = [list(edges[edge].items()) for edge in path]

            def pick(idx, taken):
                if idx == len(choices):
                    return taken
                for ident, (held, place) in choices[idx]:
                    if all(
                        ident != other and not held & held2
                        for other, held2, _ in taken
                    ):
                        got = pick(idx + 1, taken + [(ident, held, place)])
                        if got:
                            return got
                return None

            return pick(0, [])

        found = []
        for first, second in edges:
            paths = []
            if (second, first) in edges and first < second:
                paths.append([(first, second), (second, first)])
            for third in after.get(second, ()):
                if third not in (first, second) and first in after.get(
                    third, ()
                ) and first < min(second, third):
                    paths.append(
                        [(first, second), (second, third), (third, first)]
                    )
            for path in paths:
                how = compatible(path)
                if how:
                    found.append(
                        {
                            "locks": [names[e[0]] for e in path],
                            "taken": [h[2] for h in how],
                        }
                    )
        return found

    def judge(self):
        """No two locks in opposite orders."""
        found = self.inversions()
        self.ctx.check(
            not found, "locks are taken in opposite orders", cycles=found
        )
