"""C28: event loops and servers end their work on stop, and serve again."""

import asyncio
import socket
import threading
import time

from vmon import core, net, sched

RULE = (
    "a case gives an event-loop daemon coroutines of many kinds over several "
    "sessions, or lets clients of a websocket server talk, leave, misbehave "
    "and return around stops, restarts and closes, or stops a daemon right "
    "after (or at any line of) its start; distinct = (unit, kinds, outcomes)"
)
ASSUME = [
    "tasks are in the loop before a stop begins",
    "initializations of a loop end by themselves",
]
REQUIRE = {
    "coroutines": 1500,
    "sessions": 300,
    "cancelled": 300,
    "early_stops": 150,
    "messages": 1500,
    "connections": 200,
    "closed_by_stop": 60,
    "listener_closes": 20,
    "taken_ports": 8,
}


class Work:
    """Coroutines that say what happens to them."""

    def __init__(self, rng, loop_daemon):
        self.rng, self.daemon = rng, loop_daemon
        self.lock = threading.Lock()
        self.items = []
        self.thread = None
        self.release = False

    def make(self, kind, num):
        item = {
            "kind": kind, "num": num, "began": 0, "ended": 0, "threads": set(),
            "cancels": 0, "cleaned": False, "result": None,
        }
        self.items.append(item)
        delay = self.rng.choice([0, 0, 0.001, 0.01])
        cleanup = self.rng.choice([0, 0.001, 0.03, 0.1])

        async def body():
            item["began"] += 1
            item["threads"].add(threading.current_thread().name)
            try:
                if kind == "quick":
                    for _ in range(num % 3):
                        await asyncio.sleep(delay)
                elif kind == "raise":
                    await asyncio.sleep(delay)
                    raise KeyError(num)
                elif kind == "spawn":
                    # several more of them
                    kids = [
                        asyncio.ensure_future(asyncio.sleep(delay, n))
                        for n in range(3)
                    ]
                    assert await asyncio.gather(*kids) == [0, 1, 2]
                elif kind == "stubborn":
                    while not self.release:
                        try:
                            await asyncio.sleep(0.004)
                        except asyncio.CancelledError:
                            item["cancels"] += 1
                elif kind == "family":
                    kids = [
                        asyncio.ensure_future(asyncio.sleep(1000))
                        for _ in range(2)
                    ]
                    item["kids"] = kids
                    await asyncio.sleep(1000)
                else:
                    await asyncio.sleep(1000)
                return num
            except asyncio.CancelledError:
                item["cancels"] += 1
                await asyncio.sleep(cleanup)
                item["cleaned"] = True
                raise
            finally:
                item["ended"] += 1

        async def waiting():
            # as servers and clients do it
            with self.daemon.lock:
                self.daemon.wait_count += 1
            try:
                return await body()
            finally:
                self.daemon.wait_poster.release()

        return item, (waiting() if kind == "waiter" else body())

    def submit(self, kind, num):
        with self.lock:
            item, coro = self.make(kind, num)
        item["future"] = asyncio.run_coroutine_threadsafe(
            coro, self.daemon.eloop
        )
        return item


LASTING = ("slow", "waiter", "family")


def judge_done(ctx, item, stopped):
    """An ended coroutine delivered what it should have."""
    kind, future = item["kind"], item["future"]
    ctx.check(future.done(), "a coroutine's result is missing", kind=kind)
    ctx.equal(
        (item["began"], item["ended"]), (1, 1), "a coroutine ran not once",
        kind=kind,
    )
    ctx.equal(
        item["threads"], {item["name"]}, "a coroutine ran in another thread"
    )
    if kind in LASTING:
        ctx.check(stopped, "a coroutine ended before the daemon", kind=kind)
        ctx.check(future.cancelled(), "a coroutine wasn't cancelled", kind=kind)
        ctx.equal(item["cancels"], 1, "cancelled not once", kind=kind)
        ctx.check(item["cleaned"], "a coroutine couldn't clean up", kind=kind)
        ctx.check(
            all(k.cancelled() for k in item.get("kids", [])),
            "a task of a coroutine goes on",
        )
        ctx.count("cancelled")
    elif kind == "raise":
        ctx.check(
            isinstance(future.exception(0), KeyError), "an error got lost"
        )
    else:
        ctx.equal(future.result(0), item["num"], "another result", kind=kind)


def make_daemon(rng, name, grace, with_env):
    from vtelem.daemon.event_loop import EventLoopDaemon
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = (
        TelemetryEnvironment(2**10, 0.0, 1.0, app_id_basis=1.0)
        if with_env else None
    )
    return EventLoopDaemon(name, env, stop_grace=grace), env


def tasks(ctx, rng, index):
    """Sessions of an event-loop daemon with work of all kinds."""
    stubborn = index % 10 == 3
    grace = 0.3 if stubborn else 30.0
    name = f"loop{index}"
    daemon, env = make_daemon(rng, name, grace, index % 3 == 0)
    inits = []
    if rng.random() < 0.6:
        takes = rng.choice([0, 0, 0.002, 0.02])

        def run_init(*args, **kwargs):
            daemon.eloop.run_until_complete(asyncio.sleep(takes))
            inits.append((args, kwargs, threading.current_thread().name))

        daemon.function["run_init"] = run_init
    work = Work(rng, daemon)
    left, wanted, seen = [], [], []
    num = 0
    for session in range(rng.randint(1, 4)):
        early = []
        if rng.random() < 0.3:
            # before it runs
            for _ in range(rng.randint(1, 3)):
                num += 1
                early.append(work.submit("quick", num))
        args = rng.choice([(), (session,)])
        kwargs = rng.choice([{}, {"first": session}])
        ctx.check(daemon.start(*args, **kwargs), "it can't be started")
        wanted.append((args, kwargs, name))
        work.release = True
        for item in left:
            # what was left goes on
            ctx.equal(
                item["future"].result(20), item["num"],
                "what refused to be cancelled got lost",
            )
        left = []
        mine = early[:]

        def submitter(base, count):
            def body():
                for off in range(count):
                    kind = srng[base].choice(
                        ["quick", "quick", "raise", "spawn", *LASTING]
                    )
                    item = work.submit(kind, base * 1000 + off)
                    with work.lock:
                        mine.append(item)
            return body

        work.release = False
        bases = [num + n + 1 for n in range(rng.randint(1, 3))]
        num = bases[-1]
        srng = {b: type(rng)(rng.random()) for b in bases}
        threads = [
            threading.Thread(target=submitter(b, rng.randint(0, 6)), daemon=True)
            for b in bases
        ]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(20)
        if stubborn:
            num += 1
            item = work.submit("stubborn", num)
            left.append(item)
        for item in mine + left:
            item["name"] = name
        ctx.check(
            core.wait_for(
                lambda: all(i["began"] for i in mine + left)
                and all(
                    i["future"].done() for i in mine
                    if i["kind"] not in LASTING
                )
            ),
            "coroutines don't run", state=daemon.get_state_str(),
        )
        for item in mine:
            if item["kind"] not in LASTING:
                judge_done(ctx, item, False)
        for item in mine:
            if item["kind"] in LASTING:
                ctx.check(
                    not item["ended"], "a coroutine ended before the daemon",
                    kind=item["kind"],
                )
        begin = time.monotonic()
        ctx.check(daemon.stop(), "it can't be stopped")
        took = time.monotonic() - begin
        for item in mine:
            judge_done(ctx, item, True)
            ctx.count("coroutines")
        for item in left:
            ctx.equal(
                (item["cancels"], item["ended"]), (1, 0),
                "what refuses was cancelled not once, or ended",
            )
        ctx.check(
            took < grace + 15.0, "a stop takes longer than its grace",
            took=took, grace=grace,
        )
        ctx.equal(daemon.get_state_str(), "idle", "it's in another state")
        ctx.check(not daemon.eloop.is_running(), "the loop goes on")
        ctx.check(not daemon.stop(), "it was stopped again")
        ctx.count("sessions")
        seen.append((len(mine), len(left)))
    if inits:
        ctx.equal(inits, wanted, "it was initialized otherwise")
    if left:
        work.release = True
        with daemon.booted():
            for item in left:
                ctx.equal(
                    item["future"].result(20), item["num"],
                    "what refused to be cancelled got lost",
                )
                item["name"] = name
                judge_done(ctx, item, True)
    if env is not None:
        starts = env.get_value(env.channel_registry.get_id(f"{name}.starts"))
        ctx.equal(
            starts, len(wanted) + bool(left), "starts were counted otherwise"
        )
    ctx.distinct(
        "tasks", tuple(seen), bool(inits), stubborn,
        tuple(sorted({i["kind"] for i in work.items})),
    )
    daemon.eloop.close()


def early(ctx, rng, index):
    """Stops right after starts, and at any line of the daemon's thread."""
    name = f"early{index}"
    daemon, _ = make_daemon(rng, name, 20.0, False)
    takes = rng.choice([0, 0, 0.001, 0.01])
    inits, ends = [], []

    def run_init(*_, **__):
        inits.append(1)
        daemon.eloop.run_until_complete(asyncio.sleep(takes))
        ends.append(1)

    daemon.function["run_init"] = run_init
    work = Work(rng, daemon)
    count = rng.randint(2, 6)
    held = None
    for num in range(count):
        if rng.random() < 0.7:
            hold = sched.Hold(lambda n: n == name, rng.randint(1, 50), 0.02)
            with hold:
                ctx.check(daemon.start(), "it can't be started")
                stopped = daemon.stop()
            held = hold.where
        else:
            ctx.check(daemon.start(), "it can't be started")
            stopped = daemon.stop()
        ctx.check(stopped, "it can't be stopped right after its start")
        ctx.equal(
            (daemon.get_state_str(), len(inits), len(ends)),
            ("idle", num + 1, num + 1),
            "a stop broke a start off", held=held,
        )
        ctx.count("early_stops")
        if rng.random() < 0.4:
            # and it works
            ctx.check(daemon.start(), "it can't be started")
            inits.pop()
            ends.pop()
            item = work.submit("quick", num)
            item["name"] = name
            ctx.check(
                core.wait_for(item["future"].done),
                "a daemon that was stopped early doesn't work any more",
                state=daemon.get_state_str(), held=held,
            )
            judge_done(ctx, item, False)
            ctx.check(daemon.stop(), "it can't be stopped")
            ctx.count("sessions")
        ctx.distinct("early", held, takes)
    daemon.eloop.close()


# websocket servers -----------------------------------------------------------
class Site:
    """A websocket server whose consumer notes and answers."""

    def __init__(self, ctx, rng, index, custom=False):
        from vtelem.daemon.websocket import WebsocketDaemon
        from vtelem.mtu import Host
        from vtelem.registry.service import ServiceRegistry
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.ctx, self.rng = ctx, rng
        self.log = {}
        self.services = ServiceRegistry()
        self.dynamic = rng.random() < 0.3
        env = (
            TelemetryEnvironment(2**10, 0.0, 1.0, app_id_basis=1.0)
            if index % 3 == 0 else None
        )
        self.name = f"ws{index}"
        self.begun = 0

        async def consumer(conn, message, path):
            kind = "b" if isinstance(message, bytes) else "t"
            text = message.decode() if kind == "b" else message
            who, num, what = text.split("|")[:3]
            self.log.setdefault(who, []).append((int(num), kind, path))
            if what == "boom":
                raise ValueError("boom")
            if what == "bye":
                await conn.close()
                return
            if what == "wait":
                self.begun += 1
                await asyncio.sleep(1000)
            for _ in range(2 if what == "twice" else 1):
                answer = f"{who}|{num}|{path}|{len(message)}"
                await conn.send(
                    answer.encode() if kind == "b" else answer
                )

        async def handler(conn, path):
            async for message in conn:
                await consumer(conn, message, path)

        kwargs = {"ws_handler": handler} if custom else {}
        port = 0 if self.dynamic else net.port()
        self.daemon = WebsocketDaemon(
            self.name, None if custom else consumer, Host("127.0.0.1", port),
            env, **kwargs,
        )
        self.port = port
        ctx.defer(self.end)

    def end(self):
        if self.daemon.get_state_str() == "running":
            self.daemon.stop()
        core.wait_for(lambda: self.daemon.get_state_str() == "idle", 20)
        self.daemon.close()
        self.daemon.eloop.close()

    def fail(self):
        """Start it while its port is taken."""
        ctx = self.ctx
        ctx.allow_thread_errors = lambda e: e["type"] == "OSError"
        with socket.socket() as holder:
            holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            holder.bind(("127.0.0.1", self.port))
            holder.listen()
            self.daemon.start(
                first_start=True, service_registry=self.services
            )
            ctx.check(
                core.wait_for(lambda: self.daemon.get_state_str() == "idle"),
                "it isn't idle though it can't serve",
                state=self.daemon.get_state_str(),
            )
            ctx.check(not self.daemon.stop(), "it's stopped while idle")
        ctx.equal(self.services.count(), 0, "it's registered, not serving")
        ctx.count("taken_ports")

    def start(self, first):
        kwargs = {}
        if first:
            kwargs = {"first_start": True, "service_registry": self.services}
        elif self.rng.random() < 0.5:
            kwargs = {"service_registry": self.services}
        self.ctx.check(self.daemon.start(**kwargs), "it can't be started")

    def settle(self):
        """Wait until it serves."""
        if self.port == 0:
            self.ctx.check(
                core.wait_for(lambda: self.daemon.address[1] != 0),
                "no port was chosen",
            )
            self.port = self.daemon.address[1]
        self.ctx.check(net.listening(self.port), "it doesn't listen")
        self.ctx.equal(
            tuple(self.daemon.address), ("127.0.0.1", self.port),
            "it has another address",
        )

    def connect(self, who, path="/"):
        return Client(self, who, path)


class Client:
    """A client that knows what it should receive."""

    def __init__(self, site, who, path):
        import websockets.sync.client as wsc

        self.site, self.who, self.path = site, who, path
        self.conn = core.retry(
            lambda: wsc.connect(
                f"ws://127.0.0.1:{site.port}{path}", close_timeout=2,
                open_timeout=30,
            )
        )
        self.num = 0
        self.sent = []
        self.due = []
        site.ctx.count("connections")

    def send(self, what="echo", binary=False, pad=0):
        self.num += 1
        text = f"{self.who}|{self.num}|{what}|" + "x" * pad
        self.conn.send(text.encode() if binary else text)
        self.sent.append((self.num, "b" if binary else "t", self.path))
        answer = f"{self.who}|{self.num}|{self.path}|{len(text)}"
        if what in ("echo", "twice"):
            answer = answer.encode() if binary else answer
            self.due += [answer] * (2 if what == "twice" else 1)
        self.site.ctx.count("messages")

    def receive(self):
        for want in self.due:
            self.site.ctx.equal(
                self.conn.recv(timeout=20), want, "another answer"
            )
        self.due = []

    def ended(self, message):
        """The connection ends; returns what came before that."""
        import websockets.exceptions as wse

        got = []
        try:
            while True:
                got.append(self.conn.recv(timeout=20))
        except wse.ConnectionClosed:
            pass
        except TimeoutError:
            self.site.ctx.fail(message, got=got)
        self.conn.close()
        self.site.ctx.equal(
            got, self.due[: len(got)], "other answers before an end"
        )
        return got

    def judge(self, whole=True):
        log = self.site.log.get(self.who, [])
        if whole:
            self.site.ctx.equal(log, self.sent, "messages were consumed otherwise")
        else:
            self.site.ctx.equal(
                log, self.sent[: len(log)], "messages were consumed otherwise"
            )


def served(ctx, rng, index):
    """Clients talk, leave and misbehave; the server stops and returns."""
    site = Site(ctx, rng, index, index % 4 == 1)
    serial = 0
    done, shape, registered = [], [], False
    for session in range(rng.randint(1, 3)):
        first = session == 0 and rng.random() < 0.7
        if session == 0 and not site.dynamic and rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                site.fail()
            shape.append("taken")
        site.start(first)
        site.settle()
        if first:
            registered = True
        if registered:
            ctx.check(
                core.wait_for(lambda: site.services.count() == 1),
                "it isn't registered",
            )
            ctx.equal(
                [tuple(a) for a in site.services.get_item(
                    site.services.get_id(site.name)
                )],
                [("127.0.0.1", site.port)], "it's registered otherwise",
            )
        else:
            ctx.equal(site.services.count(), 0, "it's registered too early")
        clients, raw = [], []
        for turn in range(rng.randint(4, 14)):
            pick = rng.random()
            if not clients or pick < 0.2:
                serial += 1
                clients.append(
                    site.connect(
                        f"c{serial}", rng.choice(["/", "/a", "/x/y?q=1", "/%20"])
                    )
                )
            elif pick < 0.65:
                for client in rng.sample(
                    clients, rng.randint(1, len(clients))
                ):
                    for _ in range(rng.randint(1, 5)):
                        client.send(
                            rng.choice(["echo", "echo", "twice"]),
                            rng.random() < 0.4, rng.choice([0, 3, 130, 70000]),
                        )
                for client in rng.sample(clients, len(clients)):
                    client.receive()
            elif pick < 0.75:
                # one leaves
                client = clients.pop(rng.randrange(len(clients)))
                client.receive()
                client.conn.close()
                client.judge()
                done.append(client)
            elif pick < 0.85:
                # one is sent away
                client = clients.pop(rng.randrange(len(clients)))
                client.receive()
                client.send(rng.choice(["boom", "bye"]))
                client.ended("a failed client's connection stays open")
                client.judge()
                done.append(client)
                shape.append("away")
            else:
                # none of ours
                sock = socket.create_connection(("127.0.0.1", site.port), 20)
                blob = rng.choice(
                    [b"", b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n",
                     b"GET / HTTP/1.1\r\nUpgrade: web", bytes(range(256))]
                )
                try:
                    sock.sendall(blob)
                    if rng.random() < 0.5:
                        sock.close()
                    else:
                        raw.append(sock)
                except OSError:
                    sock.close()
                shape.append("raw")
        if rng.random() < 0.3:
            ctx.check(
                not site.daemon.close(), "a running server was closed"
            )
            serial += 1
            clients.append(site.connect(f"c{serial}"))
            clients[-1].send()
            clients[-1].receive()
        for client in clients:
            client.receive()
        if rng.random() < 0.4:
            # in the middle of a message
            before = site.begun
            for client in clients:
                client.send("wait")
            ctx.check(
                core.wait_for(lambda: site.begun - before == len(clients)),
                "messages aren't consumed",
            )
            shape.append("waits")
        ctx.check(site.daemon.stop(), "it can't be stopped")
        ctx.check(
            core.wait_for(lambda: site.daemon.get_state_str() == "idle"),
            "it doesn't stop", state=site.daemon.get_state_str(),
        )
        for client in clients:
            client.ended("a stopped server's client stays connected")
            client.judge()
            ctx.count("closed_by_stop")
        for sock in raw:
            sock.close()
        done += clients
        ctx.count("sessions")
        if rng.random() < 0.5:
            ctx.check(site.daemon.close(), "an idle server can't be closed")
            ctx.check(not site.daemon.close(), "it was closed again")
            ctx.check(not net.accepts(site.port), "it still listens")
            with socket.socket() as probe:
                probe.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                probe.bind(("127.0.0.1", site.port))
                probe.listen()
            ctx.count("listener_closes")
            shape.append("closed")
    # nothing came late
    for client in done:
        client.judge()
    ctx.distinct("served", tuple(shape[:6]), len(done))


def hasty(ctx, rng, index):
    """Servers stopped right after they start, then used."""
    site = Site(ctx, rng, index)
    ends = 0
    for num in range(rng.randint(1, 4)):
        if rng.random() < 0.6:
            with sched.Hold(
                lambda n: n == site.name, rng.randint(1, 70), 0.02
            ):
                site.start(num == 0)
                stopped = site.daemon.stop()
        else:
            site.start(num == 0)
            stopped = site.daemon.stop()
        ctx.check(stopped, "it can't be stopped right after its start")
        ctx.equal(site.daemon.get_state_str(), "idle", "another state")
        ctx.count("early_stops")
        if rng.random() < 0.3:
            ends += bool(site.daemon.close())
    site.start(False)
    site.settle()
    client = site.connect("c0", "/p")
    for _ in range(3):
        client.send()
    client.receive()
    ctx.check(site.daemon.stop(), "it can't be stopped")
    client.ended("a stopped server's client stays connected")
    client.judge()
    ctx.count("closed_by_stop")
    ctx.count("sessions")
    ctx.distinct("hasty", num, ends)


def talking(ctx, rng, index):
    """Stops while clients talk."""
    import websockets.exceptions as wse

    site = Site(ctx, rng, index)
    site.start(True)
    site.settle()
    for session in range(rng.randint(1, 2)):
        clients = [
            site.connect(f"c{session}x{n}") for n in range(rng.randint(1, 4))
        ]

        def body(client, crng):
            def run():
                try:
                    for _ in range(400):
                        client.send("echo", crng.random() < 0.3,
                                    crng.choice([0, 200, 9000]))
                        if crng.random() < 0.5:
                            client.receive()
                except wse.ConnectionClosed:
                    return
            return run

        threads = [
            threading.Thread(
                target=body(c, type(rng)(rng.random())), daemon=True
            )
            for c in clients
        ]
        for thread in threads:
            thread.start()
        time.sleep(rng.choice([0, 0.005, 0.05, 0.2]))
        ctx.check(site.daemon.stop(), "it can't be stopped")
        ctx.check(
            core.wait_for(lambda: site.daemon.get_state_str() == "idle"),
            "it doesn't stop", state=site.daemon.get_state_str(),
        )
        for thread in threads:
            thread.join(40)
            ctx.check(
                not thread.is_alive(),
                "a stopped server's client stays connected",
            )
        for client in clients:
            client.conn.close()
            # an interrupted send may or may not have left
            log = site.log.get(client.who, [])
            if len(log) > len(client.sent):
                client.sent.append((client.num, log[-1][1], client.path))
            client.judge(False)
            ctx.count("closed_by_stop")
        ctx.count("sessions")
        site.start(False)
        site.settle()
    last = site.connect("last")
    last.send()
    last.receive()
    ctx.check(site.daemon.stop(), "it can't be stopped")
    last.ended("a stopped server's client stays connected")
    ctx.distinct("talking", len(clients))


UNITS = {
    "tasks": (tasks, 160, 3000),
    "early": (early, 60, 1500),
    "served": (served, 60, 900),
    "hasty": (hasty, 40, 600),
    "talking": (talking, 16, 240),
}
