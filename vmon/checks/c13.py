"""C13: operations on all daemons respect dependencies, once per daemon."""

import json
import random
import threading

from vmon import sched

RULE = (
    "a case builds a manager with a random dependency graph (chains, layers, "
    "diamonds, long chains) registered in random order, performs operations "
    "on all, on one and by command, with scripted failures, and checks the "
    "log of operations per daemon; distinct = (shape, size, operation, "
    "route, failures, outcome)"
)
ASSUME = [
    "dependencies are acyclic and on managed daemons",
    "no daemon is named 'results'",
]
REQUIRE = {
    "operations": 800,
    "performed": 5000,
    "edges_checked": 5000,
    "failures_injected": 300,
    "refused": 300,
    "commands": 200,
    "interleavings": 60,
    "real": 40,
}
OPS = ["start", "stop", "pause", "unpause", "restart"]


def shape_of(rng, size):
    """Dependencies over 0..size-1, on smaller numbers only."""
    kind = rng.choice(["random", "chain", "layers", "star", "sparse", "none"])
    deps = {}
    for num in range(size):
        if kind == "random":
            some = [d for d in range(num) if rng.random() < 0.4]
        elif kind == "chain":
            some = [num - 1] if num else []
        elif kind == "layers":
            base = num // 3 * 3
            some = list(range(max(0, base - 3), base))
        elif kind == "star":
            some = [0] if num else []
        elif kind == "sparse":
            some = rng.sample(range(num), min(num, rng.choice([0, 1, 2])))
        else:
            some = []
        rng.shuffle(some)
        if some and rng.random() < 0.1:
            some.append(some[0])
        deps[num] = some
    return kind, deps


class Site:
    """A manager of watched daemons."""

    def __init__(self, rng, size, real=False, shape=None):
        from vtelem.daemon import DaemonBase
        from vtelem.daemon.manager import DaemonManager

        self.log = []
        self.fate = {}
        self.real = real
        self.kind, numbers = shape or shape_of(rng, size)
        size = len(numbers)
        labels = [f"{rng.choice('abcxyz')}{n}" for n in range(size)]
        rng.shuffle(labels)
        self.deps = {
            labels[n]: [labels[d] for d in some]
            for n, some in numbers.items()
        }
        self.manager = DaemonManager()
        site = self

        class Watched(DaemonBase):
            def __init__(self, name):
                super().__init__(name)
                self.quit = threading.Event()
                self.function["inject_stop"] = self.quit.set

            def perform(self, action, *args, **kwargs):
                begin = len(site.log)
                site.log.append(
                    ["begin", self.name, action.name.lower(), args, kwargs,
                     threading.current_thread().name]
                )
                if site.real:
                    result = super().perform(action, *args, **kwargs)
                else:
                    result = site.fate.get(self.name, True)
                site.log.append(
                    ["end", self.name, action.name.lower(), result, begin,
                     threading.current_thread().name]
                )
                return result

            def run(self, *_, **__):
                self.quit.wait()
                self.quit.clear()

        self.make = Watched
        self.daemons = {}
        order = list(self.deps)
        style = rng.randrange(3)
        if style == 0:
            rng.shuffle(order)
        elif style == 1:
            order.sort(key=labels.index)
        else:
            order.sort(key=labels.index, reverse=True)
        self.order = order
        for name in order:
            self.daemons[name] = Watched(name)
            given = self.deps[name] or rng.choice([None, []])
            assert self.manager.add_daemon(self.daemons[name], given)

    def take(self):
        log = self.log[:]
        self.log.clear()
        return log


def judge_all(ctx, site, log, oper, args, kwargs, fates=None):
    """Everything once, dependencies first; returns results by name."""
    seen, results = set(), {}
    for entry in log:
        if entry[0] == "begin":
            _, name, what, got_args, got_kwargs, _ = entry
            ctx.equal(what, oper, "another operation was performed")
            ctx.equal(
                (got_args, got_kwargs), (args, kwargs),
                "a daemon got other arguments",
            )
            ctx.check(name not in seen, "an operation was performed twice")
            seen.add(name)
            for dep in site.deps[name]:
                ctx.check(
                    dep in results,
                    "an operation didn't wait for a dependency",
                    daemon=name, dependency=dep, operation=oper,
                )
                ctx.count("edges_checked")
        else:
            results[entry[1]] = entry[3]
    ctx.equal(
        sorted(results), sorted(site.deps),
        "an operation didn't reach every daemon",
    )
    ctx.count("performed", len(results))
    return results


def commander(site, rng):
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.factories.daemon_manager import (
        create_daemon_manager_commander,
    )

    daemon = CommandQueueDaemon("cmd")
    kwargs = {}
    name = "daemon"
    if rng.random() < 0.3:
        name = kwargs["command_name"] = "dm"
    create_daemon_manager_commander(site.manager, daemon, **kwargs)

    def run(data):
        got = []
        cmd = {"command": name, "data": data}
        if rng.random() < 0.5:
            cmd = json.loads(json.dumps(cmd))
        daemon.enqueue(cmd, lambda *a: got.append(a))
        daemon.queue.put(None)
        daemon.run()
        assert len(got) == 1, got
        return bool(got[0][0]), got[0][1]

    return run


def single(ctx, rng, site):
    """Operations that reach one daemon, or none."""
    from vtelem.enums.daemon import DaemonOperation

    manager = site.manager
    act = rng.randrange(7)
    oper = rng.choice(OPS)
    name = rng.choice(site.order)
    before = manager.states()
    if act <= 1:
        args, kwargs = ((1, "x"), {"key": 2}) if rng.random() < 0.5 else ((), {})
        if act == 0:
            result = manager.perform(
                name, DaemonOperation[oper.upper()], *args, **kwargs
            )
        else:
            result = manager.perform_str(
                name, rng.choice([oper, oper.upper()]), *args, **kwargs
            )
        log = site.take()
        ctx.equal(
            [e[:5] for e in log if e[0] == "begin"],
            [["begin", name, oper, args, kwargs]],
            "an operation didn't reach exactly its daemon",
        )
        ctx.equal(bool(result), bool(log[-1][3]), "another result")
    elif act == 2:
        result = manager.perform(
            rng.choice(["nope", "", name + "x"]), DaemonOperation[oper.upper()]
        )
        ctx.check(not result, "an unknown daemon succeeded")
        ctx.equal(site.take(), [], "an operation reached another daemon")
        ctx.count("refused")
    elif act == 3:
        what = rng.choice(["nope", "", "start ", "sta"])
        if rng.random() < 0.5:
            result = manager.perform_str(name, what)
        else:
            result = manager.perform_str_all(what)
        ctx.check(not result, "an unknown operation succeeded")
        ctx.equal(site.take(), [], "an unknown operation reached a daemon")
        ctx.count("refused")
    elif act == 4:
        ctx.equal(
            manager.add_daemon(site.make(name), rng.choice([None, [name]])),
            False, "a duplicate name was accepted",
        )
        ctx.check(
            manager.get(name) is site.daemons[name],
            "a duplicate replaced a daemon",
        )
        ctx.count("refused")
    elif act == 5:
        try:
            accepted = manager.add_daemon(site.make("all"))
        except AssertionError:
            accepted = False
        ctx.check(not accepted, "a reserved name was accepted")
        ctx.count("refused")
    else:
        ctx.check(manager.get(name) is site.daemons[name], "a wrong daemon")
        ctx.check(manager.get(name + "?") is None, "an unknown daemon")
    if not site.real:
        ctx.equal(manager.states(), before, "states changed")
    ctx.equal(
        sorted(manager.states()), sorted(site.deps),
        "the managed daemons changed",
    )
    ctx.count("operations")
    ctx.distinct("single", act, oper, site.kind)


def command(ctx, rng, site, run):
    """Operations by command."""
    act = rng.randrange(8)
    oper = rng.choice(OPS)
    manager = site.manager
    shown = rng.choice([oper, oper.upper()])
    if act <= 2:
        listed = ["all"]
        if rng.random() < 0.3:
            listed = rng.choice([[site.order[0], "all"], ["all", "nope"]])
        okay, answer = run({"operation": shown, "daemons": listed})
        results = judge_all(ctx, site, site.take(), oper, (), {})
        data = json.loads(answer)
    elif act <= 4:
        listed = rng.sample(
            site.order, rng.randint(0, min(4, len(site.order)))
        )
        if rng.random() < 0.3:
            listed.insert(rng.randint(0, len(listed)), "nope")
        okay, answer = run({"operation": shown, "daemons": listed})
        log = site.take()
        ctx.equal(
            [e[1:3] for e in log if e[0] == "begin"],
            [[n, oper] for n in listed if n != "nope"],
            "a command didn't reach exactly the requested daemons",
        )
        results = {e[1]: e[3] for e in log if e[0] == "end"}
        if "nope" in listed:
            results["nope"] = False
        data = json.loads(answer)
    elif act == 5:
        okay, answer = run({"operation": rng.choice(["states", "STATES"])})
        ctx.check(okay, "can't query states")
        ctx.equal(json.loads(answer), manager.states(), "other states")
        ctx.equal(site.take(), [], "a query performed an operation")
        ctx.count("commands")
        return
    else:
        bad = rng.choice(
            [
                {}, {"operation": "nope", "daemons": ["all"]},
                {"operation": oper}, {"operation": oper, "daemons": "all"},
                {"operation": oper, "daemons": None},
                {"operation": oper, "daemons": {"all": 1}},
                {"operation": None, "daemons": ["all"]},
                {"operation": 3, "daemons": ["all"]},
                {"operation": "", "daemons": ["all"]},
                {"daemons": ["all"]},
            ]
        )
        okay, answer = run(bad)
        ctx.check(not okay, "a malformed command succeeded", command=bad)
        ctx.equal(site.take(), [], "a malformed command reached a daemon")
        ctx.count("refused")
        ctx.count("commands")
        return
    ctx.equal(
        data.pop("results"), {k: bool(v) for k, v in results.items()},
        "a command reports other results",
    )
    ctx.equal(data, manager.states(), "a command reports other states")
    ctx.equal(okay, all(results.values()), "a command's result is wrong")
    ctx.count("commands")
    ctx.count("operations")
    ctx.distinct("command", act, oper, len(site.deps), okay)


def whole(ctx, rng, site):
    from vtelem.enums.daemon import DaemonOperation

    oper = rng.choice(OPS)
    args, kwargs = ((1, "x"), {"key": 2}) if rng.random() < 0.5 else ((), {})
    route = rng.randrange(3)
    if route == 0:
        result = site.manager.perform_all(
            DaemonOperation[oper.upper()], *args, **kwargs
        )
    else:
        result = site.manager.perform_str_all(
            oper if route == 1 else oper.title(), *args, **kwargs
        )
    results = judge_all(ctx, site, site.take(), oper, args, kwargs)
    ctx.equal(bool(result), all(results.values()), "a wrong overall result")
    ctx.count("operations")
    ctx.distinct(
        "whole", site.kind, len(site.deps), oper, route,
        sum(not r for r in results.values()),
    )
    return oper, results


def scripted(ctx, rng, index):
    size = rng.choice([1, 2, 3, 5, 8, 13, 30])
    site = Site(rng, size)
    run = commander(site, rng)
    for _ in range(12):
        site.fate = {}
        if rng.random() < 0.4:
            for name in rng.sample(site.order, rng.randint(1, len(site.order))):
                site.fate[name] = False
                ctx.count("failures_injected")
        pick = rng.random()
        if pick < 0.4:
            whole(ctx, rng, site)
        elif pick < 0.7:
            single(ctx, rng, site)
        else:
            command(ctx, rng, site, run)
    if index < 3:
        ctx.sample({"kind": site.kind, "deps": site.deps})


def lengthy(ctx, rng, index):
    """Long chains, many daemons."""
    size = rng.choice([100, 300, 600])
    kind = rng.choice(["chain", "wide", "ladder"])
    deps = {}
    for num in range(size):
        if kind == "chain":
            deps[num] = [num - 1] if num else []
        elif kind == "wide":
            deps[num] = [] if num < size - 1 else list(range(size - 1))
        else:
            deps[num] = [d for d in (num - 1, num - 2) if d >= 0]
    site = Site(rng, size, shape=(kind, deps))
    for _ in range(2):
        whole(ctx, rng, site)


def real(ctx, rng, index):
    """Real daemons really operated."""
    site = Site(rng, rng.choice([2, 4, 7]), real=True)
    run = commander(site, rng)
    for name in site.daemons:
        ctx.defer(
            lambda d=site.daemons[name]: (d.unpause(), d.stop())
        )
    for _ in range(6):
        pick = rng.random()
        if pick < 0.6:
            before = site.manager.states()
            oper, results = whole(ctx, rng, site)
            after = site.manager.states()
            for name, okay in results.items():
                want = {
                    "start": "running", "pause": "paused",
                    "restart": "running",
                    "unpause": before[name]
                    if before[name] == "idle" else "running",
                    "stop": "idle",
                }[oper]
                if okay:
                    ctx.equal(
                        after[name], want, "a daemon is in another state",
                        operation=oper, before=before[name],
                    )
                else:
                    ctx.equal(
                        after[name], before[name],
                        "a failed operation changed a daemon",
                    )
        elif pick < 0.8:
            single(ctx, rng, site)
        else:
            command(ctx, rng, site, run)
    ctx.count("real")


def preempted(ctx, rng, index):
    """Operations on all, or queries, while daemons are added or operated."""
    with_add, queried = index % 2, index % 3 == 2
    state = {}

    def make():
        site = Site(rng, rng.choice([3, 5]))
        state["site"] = site
        state["extra"] = None

        def one():
            if queried:
                return site.manager.states()
            return site.manager.perform_str_all("start")

        def two():
            if with_add:
                base = site.order[0]
                late = site.make("late")
                state["extra"] = base
                return site.manager.add_daemon(late, [base])
            return site.manager.perform_str_all("stop")

        return [one, two]

    def verify(outs, runner):
        sched.no_errors(outs)
        site = state["site"]
        log = site.take()
        ctx.check(outs[0].value and outs[1].value, "an operation failed")
        if queried:
            shown = dict(outs[0].value)
            if with_add:
                ctx.check(
                    shown.pop("late", "idle") == "idle", "another state",
                )
            else:
                judge_all(ctx, site, log, "stop", (), {})
            ctx.equal(
                shown, {n: "idle" for n in site.order},
                "the states aren't those of the managed daemons",
            )
        elif with_add:
            seen = {e[1] for e in log}
            if "late" in seen:
                site.deps["late"] = [state["extra"]]
            judge_all(ctx, site, log, "start", (), {})
            ctx.equal(
                set(site.manager.states()), set(site.order) | {"late"},
                "an addition was lost",
            )
        else:
            for oper in ("start", "stop"):
                judge_all(
                    ctx, site, [e for e in log if e[2] == oper], oper, (), {}
                )
        ctx.count("operations", 2)
        ctx.distinct("preempted", with_add, queried, tuple(runner.trace[:1]))

    sched.sweep(
        ctx, make, verify, rng, 12 if ctx.tier == "quick" else None,
        3 if ctx.tier == "quick" else 15,
    )


UNITS = {
    "scripted": (scripted, 1440, 8000),
    "lengthy": (lengthy, 18, 60),
    "real": (real, 480, 1500),
    "preempted": (preempted, 54, 180),
}
