"""C10: each command gets its results in order, and none stops the service."""

import json
import time
import threading

from vmon import core, sched

RULE = (
    "a case enqueues generated commands (well-formed, malformed, unknown, for "
    "handlers that succeed, fail, raise or answer nonsense) from one or "
    "several threads and compares the log of executions and callbacks with "
    "the model; distinct = (kind of command, handlers, data given, outcome)"
)
ASSUME = [
    "result callbacks return and do not raise",
    "handlers are registered before their commands are enqueued",
    "fewer than 256 commands wait at a time (submitters block beyond)",
]
REQUIRE = {
    "commands": 1500,
    "rejected": 300,
    "raised": 100,
    "results": 1500,
    "executed_synchronously": 100,
    "help": 60,
    "stress_runs": 4,
    "interleavings": 40,
    "websocket_commands": 40,
}
WRONG = [None, 1, "cmd", [], ["command"], {}, {"data": {}}, {"command": None},
         {"command": 3}, {"command": ["a"]}, {"command": {"a": 1}},
         {"Command": "a0"}, ("command",), b"command", {"command": True}]


class Boom(Exception):
    pass


def make_service(rng, metrics=None):
    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.telemetry.environment import TelemetryEnvironment

    if metrics is None:
        metrics = rng.random() < 0.6
    env = TelemetryEnvironment(1000, metrics_rate=1.0) if metrics else None
    return CommandQueueDaemon("cmd", env), env


class Table:
    """Handlers, and the log of everything that happens."""

    def __init__(self, ctx, rng, daemon, count):
        self.ctx, self.daemon = ctx, daemon
        self.log = []
        self.busy = 0
        self.handlers = {}
        self.helps = {}
        self.metrics = {"command": 0, "success": 0, "failure": 0, "rejected": 0}
        for num in range(count):
            name = rng.choice([f"a{num}", f"long name {num}", f"ü{num}"])
            for part in range(rng.choice([1, 1, 2, 3])):
                kind = rng.choice(
                    ["ok", "ok", "bad", "raise", "nonsense", "falsy"]
                )
                self.add(rng, name, part, kind)

    def add(self, rng, name, part, kind):
        own_cb = rng.random() < 0.5
        key = (name, part)

        def handler(data):
            self.busy += 1
            alone = self.busy == 1
            seen = dict(data)
            missing = data["a key that is not there"]
            data.pop("a key that is not there", None)
            self.log.append(("run", key, seen, alone, missing))
            self.busy -= 1
            if kind == "ok":
                return True, f"{key}:{json.dumps(seen, sort_keys=True)}"
            if kind == "bad":
                return False, f"{key} failed"
            if kind == "falsy":
                return 0, ""
            if kind == "raise":
                raise Boom(f"{key}")
            return None

        def result_cb(status, message):
            self.log.append(("own", key, bool(status), message))

        text = f"help for {key}"
        self.daemon.register_consumer(
            name, handler, result_cb if own_cb else None, text
        )
        self.handlers.setdefault(name, []).append((key, kind, own_cb))
        self.helps.setdefault(name, []).append(text)

    def generate(self, rng):
        """A command and its kind."""
        pick = rng.random()
        if pick < 0.2:
            return rng.choice(WRONG), "malformed"
        if pick < 0.3:
            return {"command": rng.choice(["", "A0", "zz", "a", "HELP"])}, "unknown"
        name = rng.choice(list(self.handlers))
        cmd = {"command": name}
        pick = rng.random()
        if pick < 0.6:
            cmd["data"] = {
                rng.choice("abc"): rng.choice([1, "x", None, [1], {"y": 2}])
                for _ in range(rng.randint(0, 3))
            }
        elif pick < 0.8:
            cmd["data"] = rng.choice([None, 1, "text", [1, 2], True])
        if rng.random() < 0.2:
            cmd["extra"] = 1
        return cmd, "known"

    def expect(self, cmd, kind, tag):
        """The log entries a command should leave; counts it."""
        self.metrics["command"] += 1
        if kind != "known":
            self.metrics["rejected"] += 1
            return [("cb", tag, False, None)]
        out = []
        data = cmd.get("data")
        data = dict(data) if isinstance(data, dict) else {}
        for key, how, own_cb in self.handlers[cmd["command"]]:
            out.append(("run", key, data, True, None))
            status = how == "ok"
            self.metrics["success" if status else "failure"] += 1
            message = None
            if how == "ok":
                message = f"{key}:{json.dumps(data, sort_keys=True)}"
            elif how == "bad":
                message = f"{key} failed"
            elif how == "falsy":
                message = ""
            if how == "raise":
                self.ctx.count("raised")
            if own_cb:
                out.append(("own", key, status, message))
            out.append(("cb", tag, status, message))
        return out

    def callback(self, tag):
        def call(status, message):
            self.log.append(("cb", tag, bool(status), message))

        return call

    def judge_metrics(self, env, helps=0):
        if env is None:
            return
        for name, want in self.metrics.items():
            self.ctx.equal(
                env.get_metric(f"cmd.{name}_count"), want,
                f"the count of {name} is wrong",
            )


def same_log(ctx, got, want, message):
    """Messages of the service's own (None expected) only need to be text."""
    ctx.equal(len(got), len(want), message, got_log=got, want_log=want)
    for have, need in zip(got, want):
        if need[0] in ("cb", "own") and need[3] is None:
            ctx.check(
                have[:3] == need[:3] and isinstance(have[3], str),
                message, got=have, expected=need,
            )
        else:
            ctx.equal(have, need, message)


def unordered_runs(log):
    """Group the callbacks of one execution: own before cb or after is fine."""
    out = []
    for entry in log:
        if entry[0] == "run":
            out.append(entry)
            continue
        idx = len(out)
        while (
            idx
            and out[idx - 1][0] != "run"
            and out[idx - 1][0] > entry[0]
            and idx == len(out)
        ):
            idx -= 1
        out.insert(idx, entry)
    return out


def sequence(ctx, rng, index):
    """One submitter, the service started and stopped in between."""
    daemon, env = make_service(rng)
    table = Table(ctx, rng, daemon, rng.choice([1, 2, 5]))
    want = []
    tag = 0
    for _ in range(rng.choice([1, 2, 3])):
        count = rng.choice([1, 5, 20])
        early = rng.randint(0, count)
        started = False
        for num in range(count):
            if num == early:
                ctx.check(daemon.start(), "the service can't be started")
                started = True
            cmd, kind = table.generate(rng)
            wants_cb = rng.random() < 0.8
            daemon.enqueue(cmd, table.callback(tag) if wants_cb else None)
            exp = table.expect(cmd, kind, tag)
            if not wants_cb:
                exp = [e for e in exp if e[0] != "cb"]
            want += exp
            tag += 1
            ctx.count("commands")
            ctx.count("rejected", kind != "known")
            ctx.distinct(
                kind, type(cmd).__name__,
                len(table.handlers.get(cmd["command"], []))
                if kind == "known" else repr(cmd)[:30],
                [e[2] for e in exp if e[0] == "cb"],
            )
            if started and rng.random() < 0.2:
                cmd, kind = table.generate(rng)
                exp = table.expect(cmd, kind, tag)
                results = [e for e in exp if e[0] == "cb"]
                want += [e for e in exp if e[0] != "cb"]
                got = daemon.execute(cmd)
                ctx.check(
                    any(
                        bool(got[0]) == r[2] and r[3] in (None, got[1])
                        for r in results
                    ),
                    "a synchronous command got another result",
                    got=got, expected=results, command=repr(cmd),
                )
                ctx.count("executed_synchronously")
        if not started:
            ctx.check(daemon.start(), "the service can't be started")
        ctx.check(daemon.stop(), "the service isn't running any more")
        same_log(
            ctx, unordered_runs(table.log), unordered_runs(want),
            "wrong executions or results",
        )
        ctx.count("results", sum(e[0] == "cb" for e in table.log))
        table.judge_metrics(env)
    ctx.sample([list(e) for e in table.log[:4]])


def helping(ctx, rng, index):
    """The help command lists exactly the commands with handlers."""
    daemon, env = make_service(rng)
    table = Table(ctx, rng, daemon, rng.choice([1, 2, 4]))
    with daemon.booted():
        for num in range(4):
            for _ in range(rng.randint(0, 3)):
                daemon.execute(rng.choice(WRONG))
                cmd, kind = table.generate(rng)
                daemon.execute(cmd)
            data = {}
            if rng.random() < 0.3:
                data["indent"] = rng.choice([True, False, 4])
            which = rng.random()
            ask = None
            if which < 0.4:
                ask = rng.choice(list(table.handlers) + ["help"])
            elif which < 0.6:
                ask = rng.choice(["zz", "", "A0"])
            if ask is not None:
                data["command"] = ask
            cmd = {"command": "help"}
            if data or rng.random() < 0.5:
                cmd["data"] = data
            okay, message = daemon.execute(cmd)
            if ask is not None and ask not in table.handlers and ask != "help":
                ctx.check(not okay, "help for an unknown command succeeded")
            else:
                ctx.check(okay, "help failed", answer=message)
                got = json.loads(message)
                want = dict(table.helps)
                if ask is not None:
                    want = {ask: want.get(ask)}
                own = got.pop("help", None)
                if ask in (None, "help"):
                    ctx.check(
                        isinstance(own, list) and len(own) == 1,
                        "help doesn't list itself",
                    )
                want.pop("help", None)
                ctx.equal(got, want, "help doesn't list what has handlers")
            ctx.count("help")
            ctx.distinct("help", okay, sorted(data), len(table.handlers))
            if rng.random() < 0.3:
                table.add(rng, f"late{num}", 0, "ok")


def submitters(ctx, rng, index):
    """Many threads submit at once; the service survives them all."""
    daemon, env = make_service(rng)
    table = Table(ctx, rng, daemon, 4)
    count = 12
    plans = []
    for who in range(rng.choice([2, 3, 4])):
        plans.append(
            [(table.generate(rng), (who, num)) for num in range(count)]
        )
    direct = []

    def body(plan):
        def submit():
            for num, ((cmd, kind), tag) in enumerate(plan):
                if num % 5 == 4:
                    direct.append((tag, daemon.execute(cmd)))
                else:
                    daemon.enqueue(cmd, table.callback(tag))

        return submit

    ctx.check(daemon.start(), "the service can't be started")
    if rng.random() < 0.5:
        outs = sched.stress(ctx, rng, [body(p) for p in plans])
    else:
        outs = sched.stress(
            ctx, rng, [body(p) for p in plans], 0.2, 0.0002
        )
    sched.no_errors(outs)
    ctx.check(daemon.stop(), "the service isn't running any more")
    # attribute executions to commands: each submitter's results in order
    results = {}
    executions = []
    for entry in table.log:
        if entry[0] == "cb":
            results.setdefault(entry[1][0], []).append(entry)
        elif entry[0] == "run":
            executions.append(entry)
    runs = 0
    for who, plan in enumerate(plans):
        want = []
        for num, ((cmd, kind), tag) in enumerate(plan):
            exp = table.expect(cmd, kind, tag)
            runs += sum(e[0] == "run" for e in exp)
            mine = [e for e in exp if e[0] == "cb"]
            if num % 5 == 4:
                got = [r for t, r in direct if t == tag]
                ctx.check(
                    len(got) == 1
                    and any(
                        bool(got[0][0]) == m[2] and m[3] in (None, got[0][1])
                        for m in mine
                    ),
                    "a synchronous command got another's result",
                    got=got, expected=mine,
                )
                ctx.count("executed_synchronously")
            else:
                want += mine
            ctx.count("commands")
            ctx.count("rejected", kind != "known")
        same_log(
            ctx, results.get(who, []), want, "results lost or out of order"
        )
        ctx.count("results", len(want))
    ctx.equal(len(executions), runs, "wrong number of executions")
    ctx.check(all(e[3] for e in executions), "two handlers ran at a time")
    table.judge_metrics(env)
    ctx.distinct("submitters", len(plans), runs, index)


def preempted(ctx, rng, index):
    """The service preempted by a submitter (and the other way round)."""
    state = {}
    direct = index % 2

    def make():
        daemon, env = make_service(rng, True)
        table = Table(ctx, rng, daemon, 2)
        first = [table.generate(rng) for _ in range(2)]
        later = [table.generate(rng) for _ in range(2)]
        results = []
        state.update(
            table=table, env=env, first=first, later=later, results=results
        )
        for num, (cmd, _) in enumerate(first):
            daemon.enqueue(cmd, table.callback(("f", num)))

        def serve():
            daemon.run()

        def submit():
            for num, (cmd, _) in enumerate(later):
                if direct:
                    begin = time.monotonic()
                    got = daemon.execute(cmd)
                    results.append((got, time.monotonic() - begin))
                else:
                    daemon.enqueue(cmd, table.callback(("l", num)))
            daemon.queue.put(None)

        return [serve, submit]

    def verify(outs, runner):
        sched.no_errors(outs)
        table = state["table"]
        want = []
        for who in ("first", "later"):
            for num, (cmd, kind) in enumerate(state[who]):
                exp = table.expect(cmd, kind, (who[0], num))
                if direct and who == "later":
                    got, took = state["results"][num]
                    mine = [e for e in exp if e[0] == "cb"]
                    ctx.check(
                        any(
                            bool(got[0]) == m[2] and m[3] in (None, got[1])
                            for m in mine
                        ) or (not got[0] and took >= 2.0),
                        "a synchronous command got another's result",
                        got=got, expected=mine, trace=runner.trace,
                    )
                    ctx.count("executed_synchronously")
                    exp = [e for e in exp if e[0] != "cb"]
                want += exp
        same_log(
            ctx, unordered_runs(table.log), unordered_runs(want),
            "wrong executions or results",
        )
        table.judge_metrics(state["env"])
        ctx.count("commands", 4)
        ctx.count("results", sum(e[0] == "cb" for e in want))

    sched.sweep(
        ctx, make, verify, rng, 12 if ctx.tier == "quick" else 60,
        4 if ctx.tier == "quick" else 20,
    )
    ctx.distinct("preempted", index)


def websocket(ctx, rng, index):
    """Commands over a WebSocket: one answer each, in order."""
    import websockets.sync.client as wsc

    from vtelem.factories.websocket_daemon import commandable_websocket_daemon
    from vtelem.mtu import Host, get_free_tcp_port

    daemon, env = make_service(rng)
    table = Table(ctx, rng, daemon, 3)
    port = get_free_tcp_port("127.0.0.1")
    server = commandable_websocket_daemon(
        "wscmd", daemon, Host("127.0.0.1", port), env
    )
    want = []
    with daemon.booted(), server.booted():
        conns = []
        try:
            for _ in range(rng.choice([1, 2])):
                conns.append(
                    core.retry(lambda: wsc.connect(f"ws://127.0.0.1:{port}"))
                )
            for num in range(10):
                conn = rng.choice(conns)
                cmd, kind = table.generate(rng)
                if isinstance(cmd, (bytes, tuple)):
                    cmd, kind = [], "malformed"
                text = json.dumps(cmd)
                if rng.random() < 0.2:
                    text = rng.choice(
                        ["", "{", '{"command": }', "[1", "nope", "{'a': 1}"]
                    )
                    kind = "not json"
                conn.send(text)
                answer = json.loads(conn.recv(timeout=20))
                ctx.equal(
                    sorted(answer), ["message", "success"],
                    "an answer has other keys",
                )
                got = (answer["success"], answer["message"])
                if kind == "not json":
                    ctx.check(not got[0], "malformed JSON succeeded")
                else:
                    exp = table.expect(cmd, kind, num)
                    want += [e for e in exp if e[0] != "cb"]
                    ctx.check(
                        any(
                            bool(got[0]) == r[2] and r[3] in (None, got[1])
                            for r in exp
                            if r[0] == "cb"
                        ),
                        "a command over a websocket got another result",
                        got=got, expected=exp, text=text,
                    )
                ctx.count("websocket_commands")
        finally:
            for conn in conns:
                conn.close()
    same_log(
        ctx, unordered_runs(table.log), unordered_runs(want),
        "wrong executions",
    )
    table.judge_metrics(env)
    ctx.distinct("websocket", len(conns), len(want))


def unserved(ctx, rng, index):
    """With nobody serving, a synchronous command fails, and runs later."""
    daemon, env = make_service(rng)
    table = Table(ctx, rng, daemon, 2)
    cmd, kind = table.generate(rng)
    okay, message = daemon.execute(cmd)
    ctx.check(not okay and isinstance(message, str), "nobody ran it")
    want = [e for e in table.expect(cmd, kind, 0) if e[0] != "cb"]
    with daemon.booted():
        pass
    same_log(
        ctx, unordered_runs(table.log), unordered_runs(want),
        "a waiting command was lost",
    )
    table.judge_metrics(env)


UNITS = {
    "sequence": (sequence, 720, 6000),
    "helping": (helping, 240, 1500),
    "submitters": (submitters, 36, 400),
    "preempted": (preempted, 24, 200),
    "websocket": (websocket, 24, 150),
    "unserved": (unserved, 3, 8),
}
