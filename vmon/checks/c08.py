"""C08: cached messages survive restarts, and are never made up."""

import binascii
import os
import tempfile

from vmon import sched, wire
from vmon.checks.c07 import Watch, content_for, ingest, mtypes, new_env

RULE = (
    "a case is a history of ingests, writes, reopenings and cleanings of one "
    "cache directory, or one ingestion ended (by _exit) at a line or file "
    "operation, with the file last touched also torn, then reopened; distinct "
    "= (where it ended, messages complete before and after)"
)
ASSUME = [
    "a process may end anywhere but within write()",
    "only one process uses a cache directory at a time",
    "no two different messages of one type have the same checksum",
]
REQUIRE = {
    "reopened": 200,
    "crashes": 150,
    "torn": 20,
    "survived_messages": 200,
    "cleaned": 50,
    "resumed": 50,
}
APP = 77


class Message:
    def __init__(self, rng, mtype, number):
        parts = rng.choice([1, 1, 2, 3, 5])
        size = rng.choice([1, 10, 200])
        self.mtype, self.number = mtype, number
        self.content = content_for(rng, size * parts)
        self.crc = binascii.crc32(self.content)
        self.key = (mtype, self.crc)
        self.raws = [
            wire.build_message(
                APP, 5, (mtype.value, number, self.crc, i, parts),
                self.content[i * size : (i + 1) * size],
            )
            for i in range(parts)
        ]


def messages(rng, count):
    out, seen, numbers = [], set(), {}
    several = rng.sample(mtypes(), rng.choice([1, 2, 3]))
    while len(out) < count:
        mtype = rng.choice(several)
        msg = Message(rng, mtype, numbers.get(mtype, 0))
        if msg.key in seen:
            continue
        numbers[mtype] = msg.number + 1
        seen.add(msg.key)
        out.append(msg)
    return out


def open_cache(path, watch):
    from vtelem.message.cache import MessageCache

    return MessageCache(
        path, {t: [watch.callback(t.name)] for t in mtypes()}
    )


def reported(cache):
    """Everything a cache says is complete."""
    out = {}
    for mtype in mtypes():
        for crc in cache.complete(mtype):
            number, data = cache.content(mtype, crc)
            out[(mtype, crc)] = (number, bytes(data))
    return out


def truth(known):
    return {m.key: (m.number, m.content) for m in known}


def check_reopened(ctx, cache, watch, known, must):
    """Nothing made up, nothing lost, callbacks for exactly what's there."""
    got, real = reported(cache), truth(known)
    for key, val in got.items():
        ctx.check(
            real.get(key) == val, "a message was made up", got=val,
            expected=real.get(key),
        )
    for key in must:
        ctx.check(key in got, "a complete message was lost", key=key)
    ctx.equal(
        sorted(watch.log, key=repr),
        sorted(
            ((k[0].name, k[0], v[0], v[1]) for k, v in got.items()), key=repr
        ),
        "callbacks aren't invoked for the messages present",
    )
    ctx.count("survived_messages", len(got))
    return set(got)


def files_under(path):
    out = []
    for base in (path, path + "_fragments"):
        for top, _, names in os.walk(base):
            out += [os.path.join(top, n) for n in names]
    return out


def history(ctx, rng, index):
    top = tempfile.TemporaryDirectory()
    ctx.defer(top.cleanup)
    path = os.path.join(top.name, "cache")
    env = new_env()
    known = messages(rng, rng.choice([1, 3, 6]))
    watch = Watch()
    cache = open_cache(path, watch)
    stored = {m.key: set() for m in known}
    complete, written, log = set(), set(), []
    todo = []
    for _ in range(rng.choice([10, 30])):
        act = rng.random()
        if act < 0.72:
            msg = rng.choice(known)
            idx = rng.randrange(len(msg.raws))
            before = len(watch.log)
            ingest(env, cache, msg.raws[idx])
            stored[msg.key].add(idx)
            full = len(stored[msg.key]) == len(msg.raws)
            news = full and msg.key not in complete
            if full:
                complete.add(msg.key)
            ctx.equal(
                watch.log[before:],
                [(msg.mtype.name, msg.mtype, msg.number, msg.content)]
                if news
                else [],
                "wrong callbacks",
            )
        elif act < 0.82:
            cache.write()
            written = set(complete)
        elif act < 0.95:
            watch = Watch()
            cache = open_cache(path, watch)
            ctx.count("reopened")
            complete = check_reopened(ctx, cache, watch, known, written)
            ctx.distinct("reopen", len(complete), len(written))
        else:
            for _ in range(rng.choice([1, 1, 2])):
                cache.clean()
            ctx.count("cleaned")
            ctx.equal(reported(cache), {}, "a cleaned cache isn't empty")
            ctx.equal(files_under(path), [], "a cleaned cache leaves files")
            if rng.random() < 0.5:
                other = Watch()
                again = open_cache(path, other)
                check_reopened(ctx, again, other, [], [])
                if rng.random() < 0.5:
                    cache, watch = again, other
            stored = {m.key: set() for m in known}
            complete, written = set(), set()
            continue
        ctx.equal(set(reported(cache)), complete, "wrong complete messages")
    # finally only what's missing is needed, in a new process's cache
    if rng.random() < 0.5:
        cache.write()
        written = set(complete)
    watch = Watch()
    cache = open_cache(path, watch)
    ctx.count("reopened")
    complete = check_reopened(ctx, cache, watch, known, written)
    resume(ctx, rng, env, cache, known, stored, complete)
    cache.write()
    watch = Watch()
    cache = open_cache(path, watch)
    check_reopened(ctx, cache, watch, known, truth(known))


def resume(ctx, rng, env, cache, known, stored, complete):
    """Supply only what was never stored."""
    order = list(known)
    rng.shuffle(order)
    for msg in order:
        need = [i for i in range(len(msg.raws)) if i not in stored[msg.key]]
        if not need and msg.key not in complete:
            # everything is there already, any repetition tells
            need = [rng.randrange(len(msg.raws))]
        rng.shuffle(need)
        for idx in need:
            ingest(env, cache, msg.raws[idx])
        got = cache.content(msg.mtype, msg.crc)
        ctx.check(
            got is not None, "stored fragments were needed again",
            stored=stored[msg.key], fragments=len(msg.raws), supplied=need,
        )
        ctx.equal(
            (got[0], bytes(got[1])), (msg.number, msg.content),
            "wrong content",
        )
        ctx.count("resumed")


def child(path, feed, known, stop, pipe):
    """Ingest until step 'stop', then end abruptly; reports each ingest."""
    steps = 0

    def step(*_):
        nonlocal steps
        steps += 1
        if steps == stop:
            os._exit(3)

    env = new_env()
    cache = open_cache(path, Watch())
    # both lines and file operations are places to end at
    armed = {"on": False}

    def audit(event, args):
        if armed["on"] and event in (
            "open", "os.mkdir", "os.rename", "os.remove", "os.rmdir",
            "os.truncate", "os.link",
        ):
            step()

    import sys

    sys.addaudithook(audit)
    sched.attach(step)
    armed["on"] = True
    for num, raw in enumerate(feed):
        ingest(env, cache, raw)
        os.write(pipe, bytes([num]))
    armed["on"] = False
    sched.detach()
    os.write(pipe, b"\xff" + steps.to_bytes(4, "big"))
    os._exit(0)


def run_child(path, feed, known, stop):
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            child(path, feed, known, stop, write)
        except BaseException:  # pylint: disable=broad-except
            import traceback

            traceback.print_exc()
        os._exit(4)
    os.close(write)
    out = b""
    while True:
        part = os.read(read, 4096)
        if not part:
            break
        out += part
    os.close(read)
    _, status = os.waitpid(pid, 0)
    return out, os.waitstatus_to_exitcode(status)


def crash(ctx, rng, index):
    """One ingestion history, ended at several points."""
    env = new_env()
    early = messages(rng, 6)
    known, late = early[:3], early[3:]
    feed = [(m, i) for m in late for i in range(len(m.raws))]
    feed += [(m, i) for m in known for i in range(len(m.raws))]
    rng.shuffle(feed)
    feed = feed[: rng.choice([3, 8])]
    raws = [m.raws[i] for m, i in feed]
    base_written = rng.random() < 0.7
    before = rng.randint(0, len(known))
    total = None
    for attempt in range(9):
        top = tempfile.TemporaryDirectory()
        try:
            path = os.path.join(top.name, "cache")
            # some messages are complete, some begun, before
            cache = open_cache(path, Watch())
            stored = {m.key: set() for m in early}
            for num, msg in enumerate(known):
                for idx, raw in enumerate(msg.raws):
                    if num < before or idx % 2:
                        ingest(env, cache, raw)
                        stored[msg.key].add(idx)
            must = set()
            if base_written:
                cache.write()
                must = set(reported(cache))
            if total is None:
                out, code = run_child(path, raws, known, -1)
                ctx.check(code == 0, "ingesting failed", code=code)
                total = int.from_bytes(out[-4:], "big")
                ctx.check(total > 0, "no steps were observed")
                finished, crashed = len(feed), False
            else:
                stop = rng.randint(1, total)
                out, code = run_child(path, raws, known, stop)
                ctx.check(code == 3, "the process did not end", code=code)
                ctx.count("crashes")
                finished, crashed = len(out), True
            base = {(k, i) for k, v in stored.items() for i in v}
            for msg, idx in feed[:finished]:
                stored[msg.key].add(idx)
            torn = False
            if crashed and rng.random() < 0.5:
                # the last one may have ended in the middle of its write
                last = feed[finished - 1] if finished else feed[0]
                if finished and last not in feed[: finished - 1]:
                    if (last[0].key, last[1]) not in base:
                        stored[last[0].key].discard(last[1])
                torn = tear(ctx, rng, path, last, stored)
                if not torn and finished:
                    stored[last[0].key].add(last[1])
            watch = Watch()
            cache = open_cache(path, watch)
            ctx.count("reopened")
            complete = check_reopened(ctx, cache, watch, early, must)
            ctx.distinct(
                crashed, torn, finished, len(feed), len(complete), len(must)
            )
            if rng.random() < 0.3:
                cache.write()
                watch = Watch()
                cache = open_cache(path, watch)
                complete = check_reopened(ctx, cache, watch, early, complete)
            resume(ctx, rng, env, cache, early, stored, complete)
        finally:
            top.cleanup()


def tear(ctx, rng, path, current, stored):
    """Leave only part of the fragment then being written, if it is there."""
    msg, idx = current
    if idx in stored[msg.key]:
        return False
    data = msg.raws[idx]
    fragment = wire.parse(data, {}, True)["fragment"]
    if sum(
        wire.parse(r, {}, True)["fragment"] == fragment for r in msg.raws
    ) > 1:
        return False  # can't tell which file is whose
    newest = None
    for name in files_under(path):
        with open(name, "rb") as src:
            body = src.read()
        if body == fragment and f"{os.sep}{msg.crc}{os.sep}" in name:
            newest = name
    if newest is None:
        return False
    with open(newest, "r+b") as dst:
        dst.truncate(rng.randint(0, len(fragment) - 1) if fragment else 0)
    ctx.count("torn")
    return True


def temporary(ctx, rng, index):
    """A temporary cache leaves nothing behind, whatever happens."""
    from vtelem.message.cache import from_temp_dir

    env = new_env()
    top = tempfile.TemporaryDirectory()
    ctx.defer(top.cleanup)
    shared = tempfile.tempdir
    ctx.defer(setattr, tempfile, "tempdir", shared)
    tempfile.tempdir = top.name  # other workers use the shared one
    before = sorted(os.listdir(tempfile.gettempdir()))
    fails = rng.random() < 0.5
    try:
        with from_temp_dir() as cache:
            for msg in messages(rng, 2):
                for raw in msg.raws:
                    ingest(env, cache, raw)
                ctx.check(
                    cache.content(msg.mtype, msg.crc) is not None,
                    "a complete message isn't there",
                )
            if rng.random() < 0.5:
                cache.write()
            if rng.random() < 0.3:
                cache.clean()
            if fails:
                raise KeyError
    except KeyError:
        pass
    after = sorted(os.listdir(tempfile.gettempdir()))
    ctx.equal(after, before, "a temporary cache leaves something behind")


UNITS = {
    "history": (history, 750, 12000),
    "crash": (crash, 144, 1500),
    "temporary": (temporary, 72, 200),
}
