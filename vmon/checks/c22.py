"""C22: clients receive exactly the frames sent while they're connected."""

import queue
import random
import socket
import threading
import time

from vmon import core, net, sched, wire
from vmon.checks import c02
from vmon.checks.c01 import drain, prim

RULE = (
    "a case connects clients of the three kinds to a foreign server that "
    "sends frames, garbage and partial frames in arbitrary portions, or to "
    "the telemetry servers of a running writer, and lets them connect and "
    "disconnect around quiet or concurrent traffic and restarts; distinct = "
    "(kind, history, frames received)"
)
ASSUME = [
    "frames are no longer than the client's mtu",
    "datagrams are not lost (bursts stay below the sockets' buffers)",
    "a client is connected once it received something; what was sent in the "
    "meantime may or may not be received",
    "an empty datagram is the signal to stop",
]
REQUIRE = {
    "frames_received": 3000,
    "foreign_skipped": 200,
    "garbage_skipped": 200,
    "sessions.tcp": 60,
    "sessions.udp": 60,
    "full_datagrams": 20,
    "sessions.websocket": 40,
    "stream_ends": 80,
    "restarts": 40,
    "server_stops": 10,
    "cleared": 20,
    "flow_frames": 400,
    "late_clients": 100,
}
MTU = 1400


class Cast:
    """An environment's channels and their frames."""

    def __init__(self, rng):
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.rng = rng
        self.crc = rng.random() < 0.5
        self.env = env = TelemetryEnvironment(
            rng.choice([64, 256, MTU]), 0.0, metrics_rate=1.0,
            app_id_basis=0.5, use_crc=self.crc,
        )
        self.ids = {}
        for num, kind in enumerate(rng.sample(list(wire.TYPES), 4)):
            self.ids[env.add_channel(f"c{num}", prim(kind), 0.0, True)] = kind
        self.app = env.app_id.get()
        self.clock = 1.0

    def types(self):
        """All channels' types, those of metrics too."""
        reg = self.env.channel_registry
        return {
            n: reg.get_channel_type(n).name.lower() for n in range(reg.count())
        }

    def channels(self):
        reg = self.env.channel_registry
        return {n: reg.get_item(n) for n in range(reg.count())}

    def frames(self, count):
        """At least that many frames of this application (or another)."""
        from vtelem.message.framer import MessageFramer

        rng, env, out = self.rng, self.env, []
        while len(out) < count:
            self.clock += rng.choice([0.25, 1.0])
            how = rng.randrange(4)
            if how < 2:
                for ident in self.ids:
                    if self.ids[ident] != "bool":
                        env.set_now(ident, rng.randrange(100))
                env.dispatch(self.clock, False)
                out += drain(env)
                continue
            basis = 0.5 if how == 2 else 0.75
            framer = MessageFramer(rng.choice([64, 300, MTU]), basis, self.crc)
            stamp = self.clock
            size = rng.choice([1, 30, 700])
            out += framer.serialize_message(
                rng.randbytes(size) + repr(stamp).encode(), time=stamp
            )[0]
        # the first of equal ones only
        seen, unique = set(), []
        for frame in out:
            raw = raw_of(frame)
            if raw not in seen:
                seen.add(raw)
                unique.append(frame)
        return unique

    def expect(self, raws):
        """What has to be decoded of these frames."""
        types = self.types()
        out = [(raw, c02.reference(raw, types, (), self.app)) for raw in raws]
        return [(r, w) for r, w in out if w is not None and w != "crc"]

    def judge(self, ctx, got, wants):
        """Decoded frames against references."""
        ctx.equal(
            len(got), len(wants), "not as many frames as were sent",
            received=[tuple(g.header) if g else None for g in got],
            wanted=[w[1][:4] for w in wants if w[1] != "any"],
        )
        for frame, (raw, want) in zip(got, wants):
            ctx.check(frame is not None, "the stream ended early")
            if want == "any":
                continue
            c02.judge(ctx, frame, want, raw, self.channels())
        ctx.count("frames_received", len(got))


def raw_of(frame):
    raw, size = frame.raw
    return bytes(raw[:size])


def take(tap):
    out = []
    while True:
        try:
            out.append(tap.get_nowait())
        except queue.Empty:
            return out


class Tap(queue.Queue):
    """A client's output."""

    def __init__(self):
        super().__init__()
        self.kept = []

    def all(self):
        self.kept += take(self)
        return self.kept

    def frames(self):
        return [f for f in self.all() if f is not None]

    def ends(self):
        return len(self.all()) - len(self.frames())

    def clear(self):
        self.all()
        self.kept = []


def ident_of(want):
    return repr(want)


# foreign servers ---------------------------------------------------------------
def script(rng, cast, count):
    """Frames to send (own, foreign, damaged), and what is decoded of them."""
    raws = []
    types = cast.types()
    for frame in cast.frames(count):
        raw = raw_of(frame)
        pick = rng.random()
        if pick < 0.2:
            raw = c02.mutate(rng, raw, raw[::-1])[1][:MTU]
        elif pick < 0.4:
            app = rng.choice([cast.app, (cast.app + 1) % 65536])
            raw = c02.encode(rng, types, (), app, rng.random() < 0.5)[1]
            if len(raw) > MTU:
                continue
        raws.append(raw)
    return raws


def portions(rng, data):
    """Any segmentation of a stream."""
    if rng.random() < 0.1:
        return [data[i : i + 1] for i in range(len(data))][:4000] + (
            [data[4000:]] if len(data) > 4000 else []
        )
    out, pos = [], 0
    while pos < len(data):
        size = rng.choice([1, 2, 3, 4, 5, 17, 100, 1000, 5000])
        out.append(data[pos : pos + size])
        pos += size
    return out


def prefixed(raw):
    return wire.SIZE.pack(len(raw)) + raw


def count_skips(ctx, cast, raws):
    for raw in raws:
        app = int.from_bytes(raw[:2], "big") if len(raw) > 1 else None
        if cast.expect([raw]):
            continue
        ctx.count("foreign_skipped" if app != cast.app else "garbage_skipped")


def ended(ctx, client, tap, kind):
    """A client's stream is over: once, after its frames, for good."""
    from vtelem.daemon import DaemonState

    ctx.check(
        core.wait_for(lambda: client.get_state() == DaemonState.IDLE),
        "a client doesn't stop", stacks=core.stacks(), kind=kind,
    )
    got = tap.all()
    ctx.check(
        got and got[-1] is None and got.count(None) == 1,
        "a stream doesn't end with one end marker",
        got=["end" if g is None else "frame" for g in got[-5:]], kind=kind,
    )
    ctx.count("stream_ends")


def tcp_foreign(ctx, rng, index):
    """A TCP client of any server, which may end anywhere."""
    from vtelem.client.tcp import TcpClient
    from vtelem.mtu import Host

    cast = Cast(rng)
    tap = Tap()
    listener = socket.create_server(("127.0.0.1", 0))
    ctx.defer(listener.close)
    client = TcpClient(
        Host(*listener.getsockname()), tap, cast.env.channel_registry,
        cast.env.app_id, cast.env, MTU,
    )
    ctx.defer(client.close)
    ctx.defer(client.stop)
    ended_by = []
    for session in range(rng.randint(1, 4)):
        raws = script(rng, cast, rng.choice([1, 5, 40]))
        assert not client.get_state().value == 0
        sender = {}

        def serve():
            conn, _ = listener.accept()
            conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            data = b"".join(map(prefixed, raws))
            # cut in the middle of the next frame
            data += prefixed(raws[0])[: rng.randrange(12)]
            for part in portions(rng, data):
                conn.sendall(part)
                if rng.random() < 0.02:
                    time.sleep(0.001)
            sender["conn"] = conn

        thread = threading.Thread(target=serve, daemon=True)
        thread.start()
        ctx.check(client.start(), "a client can't be started")
        wants = cast.expect(raws)
        thread.join(30)
        conn = sender["conn"]
        by_server = rng.random() < 0.5
        ctx.check(
            core.wait_for(lambda: len(tap.frames()) >= len(wants)),
            "frames are missing", got=len(tap.frames()), expected=len(wants),
        )
        if by_server:
            how = rng.choice(["close", "shutdown", "reset"])
            if how == "reset":
                conn.setsockopt(
                    socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0"
                )
            if how == "shutdown":
                conn.shutdown(socket.SHUT_WR)
            else:
                conn.close()
            ended(ctx, client, tap, how)
            ctx.check(not client.stop(), "a client stopped twice")
            ended_by.append(how)
        else:
            if rng.random() < 0.2:
                # both at once
                threading.Thread(target=conn.close, daemon=True).start()
                client.stop()
            else:
                ctx.check(client.stop(), "a client can't be stopped")
            ended(ctx, client, tap, "stop")
            ended_by.append("stop")
        conn.close()
        cast.judge(ctx, tap.frames(), wants)
        count_skips(ctx, cast, raws)
        tap.clear()
        ctx.count("sessions.tcp")
        ctx.count("restarts", bool(session))
        ctx.distinct("tcp", ended_by[-1], len(raws), len(wants), session)
    client.close()
    ctx.equal(tap.all(), [], "a stream that ended ended again")


def udp_foreign(ctx, rng, index):
    """A UDP client that anyone sends to."""
    from vtelem.client.udp import UdpClient
    from vtelem.mtu import Host

    cast = Cast(rng)
    tap = Tap()

    address = []

    def make():
        address[:] = "127.0.0.1", net.port()
        return UdpClient(
            Host(*address), tap, cast.env.channel_registry,
            cast.env.app_id, cast.env, MTU,
        )

    client = core.retry(make)
    address = tuple(address)
    ctx.defer(client.close)
    ctx.defer(client.stop)
    out = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    ctx.defer(out.close)
    for session in range(rng.randint(1, 3)):
        raws = script(rng, cast, rng.choice([1, 5, 40]))
        # a datagram has the size of a frame and all of it, at least
        mtu = rng.choice([8192, max(map(len, raws), default=MTU)])
        client.update_mtu(mtu)
        ctx.check(client.start(), "a client can't be started")
        ctx.check(net.bound(address), "a client doesn't listen")
        ctx.count("full_datagrams", mtu != 8192)
        wants, pos, done = [], 0, 0
        while pos < len(raws):
            many = rng.choice([1, 1, 2, 5])
            group = raws[pos : pos + many]
            pos += many
            data = b"".join(map(prefixed, group))
            pick = rng.random()
            if len(data) > min(mtu + 4, 8000):
                pos += 1 - many
                data, group = prefixed(group[0]), group[:1]
            if pick < 0.15:
                # no frame, or a part of one
                junk = rng.choice(
                    [b"\0", b"\xff" * 3, rng.randbytes(rng.randint(1, 30)),
                     data[: rng.randint(1, len(data))]]
                )
                whole = split(junk, mtu)
                out.sendto(junk, address)
                wants += cast.expect(whole)
                done += 1
            elif pick < 0.25:
                # one and a part
                more = prefixed(raws[0])[: rng.randint(1, 10)]
                data += more[: mtu + 4 - len(data)]
            out.sendto(data, address)
            wants += cast.expect(group)
            count_skips(ctx, cast, group)
            done += 1
            if done % 20 == 0:
                ctx.check(
                    core.wait_for(lambda: len(tap.frames()) >= len(wants)),
                    "frames are missing", got=len(tap.frames()),
                    expected=len(wants),
                )
        ctx.check(
            core.wait_for(lambda: len(tap.frames()) >= len(wants)),
            "frames are missing", got=len(tap.frames()), expected=len(wants),
        )
        ctx.check(client.stop(), "a client can't be stopped")
        ended(ctx, client, tap, "udp")
        cast.judge(ctx, tap.frames(), wants)
        tap.clear()
        ctx.count("sessions.udp")
        ctx.count("restarts", bool(session))
        ctx.distinct("udp", done, len(wants), session)


def split(data, mtu):
    """The frames at the start of a datagram."""
    out, pos = [], 0
    while pos + 4 <= len(data):
        size = wire.SIZE.unpack_from(data, pos)[0]
        if size > mtu or pos + 4 + size > len(data):
            break
        out.append(data[pos + 4 : pos + 4 + size])
        pos += 4 + size
    return out


def websocket_foreign(ctx, rng, index):
    """A WebSocket client of any server."""
    from websockets.sync.server import serve

    from vtelem.client.websocket import WebsocketClient
    from vtelem.mtu import Host

    cast = Cast(rng)
    tap = Tap()
    todo, left = queue.Queue(), threading.Event()

    joined = threading.Event()

    def handle(conn):
        joined.set()
        try:
            while True:
                part = todo.get()
                if part is None:
                    return
                conn.send(part)
        except Exception:  # pylint: disable=broad-except
            # the client went away
            pass
        finally:
            left.set()

    num = core.retry(net.port)
    server = serve(handle, "127.0.0.1", num)
    thread = threading.Thread(target=server.serve_forever, daemon=True)
    thread.start()
    ctx.defer(server.shutdown)
    ctx.defer(todo.put, None)
    client = WebsocketClient(
        Host("127.0.0.1", num), tap, cast.env.channel_registry,
        app_id=cast.env.app_id, env=cast.env, mtu=MTU,
    )
    ctx.defer(client.stop)
    for session in range(rng.randint(1, 3)):
        ctx.check(client.start(), "a client can't be started")
        ctx.check(joined.wait(20), "a client doesn't connect")
        joined.clear()
        raws = script(rng, cast, rng.choice([1, 5, 30]))
        wants = cast.expect(raws)
        data = b"".join(map(prefixed, raws))
        if rng.random() < 0.5:
            # it may end in the middle of another frame
            data += prefixed(raws[0])[: rng.randrange(12)]
        for part in portions(rng, data):
            todo.put(part)
        ctx.check(
            core.wait_for(lambda: len(tap.frames()) >= len(wants)),
            "frames are missing", got=len(tap.frames()), expected=len(wants),
        )
        if rng.random() < 0.5:
            todo.put(None)
            ctx.check(left.wait(20), "a connection doesn't end")
        begin = time.monotonic()
        ctx.check(client.stop(), "a client can't be stopped")
        took = time.monotonic() - begin
        todo.put(b"")
        todo.put(None)
        ctx.check(left.wait(20), "a client stays connected")
        left.clear()
        # the server's next connection gets its own
        while not todo.empty():
            todo.get_nowait()
        cast.judge(ctx, tap.frames(), wants)
        count_skips(ctx, cast, raws)
        tap.clear()
        ctx.count("sessions.websocket")
        ctx.count("restarts", bool(session))
        ctx.distinct("websocket", len(raws), len(wants), session)
        stopped(ctx, client, took)


def stopped(ctx, client, took):
    from vtelem.daemon import DaemonState

    ctx.check(
        core.wait_for(lambda: client.get_state() == DaemonState.IDLE),
        "a daemon doesn't stop", stacks=core.stacks(),
    )
    ctx.check(took < 4.0, "stopping waited for a time-out", seconds=took)


# our servers -------------------------------------------------------------------
class Site:
    """A writer and its servers."""

    def __init__(self, ctx, rng):
        from vtelem.classes.udp_client_manager import UdpClientManager
        from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
        from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
        from vtelem.mtu import Host
        from vtelem.stream.writer import default_writer

        self.ctx, self.rng = ctx, rng
        self.cast = cast = Cast(rng)
        self.writer, self.input = default_writer("writer", env=cast.env)
        self.manager = UdpClientManager(self.writer)
        self.tcp = TcpTelemetryDaemon(
            "tcp", self.writer, cast.env, Host("127.0.0.1", 0)
        )
        self.port = net.port()
        self.websocket = WebsocketTelemetryDaemon(
            "websocket", self.writer, Host("127.0.0.1", self.port), cast.env
        )
        # what has been handled, at least
        _, self.witness = self.writer.registered_queue(None, 0)
        assert self.writer.start()
        self.up()
        # everything handed to the writer
        self.sent = []
        self.ready = []

    def up(self):
        for daemon in (self.tcp, self.websocket):
            self.ctx.check(daemon.start(), "a server can't be started")
        self.ctx.check(net.listening(self.port), "a server doesn't listen")

    def down(self):
        for daemon in (self.tcp, self.websocket):
            begin = time.monotonic()
            self.ctx.check(daemon.stop(), "a server can't be stopped")
            stopped(self.ctx, daemon, time.monotonic() - begin)
        self.ctx.count("server_stops")

    def send(self, count):
        for _ in range(count):
            if not self.ready:
                self.ready = self.cast.frames(20)
            frame = self.ready.pop(0)
            self.sent.append(raw_of(frame))
            self.input.put(frame)

    def close(self):
        for daemon in (self.tcp, self.websocket, self.writer):
            daemon.stop()
        self.tcp.server.server_close()
        self.manager.remove_all()


class Member:
    """A client, and the frames it may and must have received."""

    def __init__(self, site, kind):
        self.site, self.kind = site, kind
        self.tap, self.client, self.udp = Tap(), None, None
        self.begin = self.known = self.finish = self.over = 0

    def make_udp(self):
        from vtelem.client.udp import UdpClient
        from vtelem.mtu import Host

        env = self.site.cast.env
        self.address = "127.0.0.1", net.port()
        return UdpClient(
            Host(*self.address), self.tap, env.channel_registry, env.app_id,
            env, MTU,
        )

    def connect(self):
        from vtelem.client.tcp import TcpClient
        from vtelem.client.websocket import WebsocketClient
        from vtelem.mtu import Host

        site, env = self.site, self.site.cast.env
        reg, app = env.channel_registry, env.app_id
        self.tap.clear()
        self.begin = site.witness.qsize()
        if self.client is None:
            if self.kind == "tcp":
                self.client = TcpClient(
                    Host(*site.tcp.address), self.tap, reg, app, env, MTU
                )
            elif self.kind == "udp":
                self.client = core.retry(self.make_udp)
            else:
                self.client = WebsocketClient(
                    Host("127.0.0.1", site.port), self.tap, reg, app_id=app,
                    env=env, mtu=MTU,
                )
        else:
            site.ctx.count("restarts")
        site.ctx.check(self.client.start(), "a client can't be started")
        if self.kind == "udp":
            site.ctx.check(net.bound(self.address), "a client doesn't listen")
            ident, mtu = site.manager.add_client(
                Host(*self.address), True
            )
            self.client.update_mtu(mtu)
            self.udp = ident
        site.ctx.count(f"sessions.{self.kind}")

    def attached(self):
        """It has received something, so everything from now on."""
        return bool(self.tap.frames())

    def know(self):
        self.known = len(self.site.sent)

    def disconnect(self):
        self.finish = len(self.site.sent)
        if self.udp is not None:
            self.site.manager.remove_client(self.udp)
            self.udp = None
        began = time.monotonic()
        self.client.stop()
        stopped(self.site.ctx, self.client, time.monotonic() - began)
        self.over = len(self.site.sent)

    def judge(self, exact):
        """The frames received are all those of the time connected."""
        ctx, cast = self.site.ctx, self.site.cast
        if self.kind != "websocket":
            ended(ctx, self.client, self.tap, self.kind)
        wants = cast.expect(self.site.sent)
        at = {raw: num for num, raw in enumerate(self.site.sent)}
        where = [at[raw] for raw, _ in wants]
        got = self.tap.frames()
        # which run of the frames is it
        starts = [
            n for n in range(len(wants) + 1)
            if n == len(wants) or where[n] >= self.begin
        ]
        if not got:
            ctx.check(not exact or not [
                w for w in where if self.known <= w < self.finish
            ], "nothing was received")
            return
        first = None
        for num in starts:
            if num < len(wants) and same(got[0], wants[num]):
                first = num
                break
        ctx.check(
            first is not None,
            "the first frame received isn't one sent since connecting",
            kind=self.kind, got=tuple(got[0].header), begin=self.begin,
        )
        ctx.check(
            where[first] < max(self.known, 1)
            or not [w for w in where[:first] if w >= self.known],
            "a frame sent after connecting is missing", kind=self.kind,
            first=where[first], known=self.known,
        )
        need = wants[first : first + len(got)]
        if exact:
            # all of those before it began to disconnect
            must = len([n for n in where[first:] if n < self.finish])
            need = wants[first : first + max(len(got), must)]
        cast.judge(ctx, got, need)
        ctx.check(
            where[first + len(got) - 1] < self.over,
            "a frame from after the end was received",
        )
        ctx.distinct("member", self.kind, len(got), self.begin)


def same(got, want):
    """Whether a decoded frame can be this one."""
    raw, ref = want
    if ref == "any":
        return True
    head = got.header
    return (
        (head.app_id, int(head.type), head.timestamp, head.size) == ref[:4]
        and head.length == len(raw) and got.footer.crc == ref[5]
        and _body(got, ref)
    )


def _body(got, ref):
    if ref[1] == wire.MESSAGE:
        return (
            bytes(got.body["fragment_bytes"]) == bytes(ref[4][1])
            and got.body["fragment_index"] == ref[4][0][3]
        )
    if ref[1] == wire.DATA:
        have = [(c["id"], c["value"]) for c in got.body["channels"]]
    else:
        have = [
            (e["id"], e["previous"]["value"], e["previous"]["time"],
             e["current"]["value"], e["current"]["time"])
            for e in got.body["events"]
        ]
    return len(have) == len(ref[4]) and all(
        c02.same_values(a, b) for a, b in zip(have, ref[4])
    )


def attach(ctx, site, members):
    """Send frames until all members got one."""
    turns = 0
    while not all(m.attached() for m in members):
        turns += 1
        ctx.check(
            turns < 400, "a connected client receives nothing",
            kinds=[m.kind for m in members if not m.attached()],
            stacks=core.stacks() if turns >= 400 else None,
        )
        site.send(1)
        time.sleep(0.005 if turns < 100 else 0.05)
    for member in members:
        member.know()


def settle(ctx, site, members):
    """Wait until everything sent was received."""
    wants = site.cast.expect(site.sent)
    if not wants:
        return
    for member in members:
        last = wants[-1]
        ctx.check(
            core.wait_for(
                lambda m=member: m.tap.frames()
                and same(m.tap.frames()[-1], last)
            ),
            "the last frame isn't received", kind=member.kind,
        )


def steps(ctx, rng, index):
    """Clients come and go between frames."""
    site = Site(ctx, rng)
    ctx.defer(site.close)
    kinds = ["tcp", "udp", "websocket"]
    active, idle = [], []
    log = []
    for _ in range(rng.randint(4, 9)):
        pick = rng.random()
        if (pick < 0.5 and len(active) < 6) or not active:
            fresh = []
            for _ in range(rng.choice([1, 1, 2])):
                if idle and rng.random() < 0.5:
                    member = idle.pop(rng.randrange(len(idle)))
                else:
                    member = Member(site, rng.choice(kinds))
                member.connect()
                fresh.append(member)
                log.append("+" + member.kind)
            active += fresh
            attach(ctx, site, active)
        elif pick < 0.8:
            settle(ctx, site, active)
            member = active.pop(rng.randrange(len(active)))
            member.disconnect()
            member.judge(True)
            idle.append(member)
            log.append("-" + member.kind)
        elif pick < 0.9:
            settle(ctx, site, active)
            # the servers' clients end with them
            for member in active:
                member.finish = len(site.sent)
            site.down()
            site.send(3)
            for member in list(active):
                if member.kind == "tcp":
                    ended(ctx, member.client, member.tap, "server")
                if member.kind == "websocket":
                    ctx.check(
                        core.wait_for(lambda m=member: not m.client.connected),
                        "a websocket outlives its server",
                    )
                if member.kind != "udp":
                    member.over = len(site.sent)
                    member.client.stop()
                    member.judge(True)
                    active.remove(member)
                    idle.append(member)
            site.up()
            log.append("restart")
        # frames for everybody
        for _ in range(rng.choice([0, 1, 4])):
            site.send(rng.choice([1, 10]))
            settle(ctx, site, active)
    settle(ctx, site, active)
    for member in active:
        member.disconnect()
        member.judge(True)
    # a WebSocket's end is noticed, a TCP client's with the next frames
    env = site.cast.env
    ctx.check(
        core.wait_for(lambda: env.get_metric("writer.queue_count") == 1),
        "a client that's gone keeps its queue", log=log,
        queues=env.get_metric("writer.queue_count"),
    )

    def nobody():
        site.send(1)
        time.sleep(0.01)
        return env.get_metric("writer.stream_count") == 0 and (
            env.get_metric("tcp.clients") == 0
        )

    ctx.check(
        core.wait_for(nobody), "a client that's gone keeps its stream",
        streams=env.get_metric("writer.stream_count"), log=log,
    )
    ctx.count("cleared")
    # it's closed when it's stopped, once
    ctx.check(not site.tcp.close(), "a running server was closed")
    site.down()
    ctx.check(site.tcp.close(), "a stopped server can't be closed")
    ctx.check(not site.tcp.close(), "a server was closed twice")
    ctx.distinct("steps", tuple(log))
    if index < 2:
        ctx.sample({"history": log, "frames": len(site.sent)})


def flow(ctx, rng, index):
    """Clients come and go while frames are sent."""
    site = Site(ctx, rng)
    ctx.defer(site.close)
    stop, lock = threading.Event(), threading.Lock()
    errors = []

    def produce():
        while not stop.is_set() and len(site.sent) < 600:
            with lock:
                site.send(1)
            time.sleep(0.002)

    done = []

    def visit(seed):
        mine = random.Random(seed)
        try:
            member = Member(site, mine.choice(["tcp", "udp", "websocket"]))
            for _ in range(mine.randint(1, 3)):
                with lock:
                    member.connect()
                core.wait_for(member.attached, 3.0)
                if member.attached():
                    member.know()
                time.sleep(mine.random() * 0.2)
                known = member.attached() and member.known
                member.disconnect()
                if known:
                    done.append((
                        member.kind, list(member.tap.all()), member.begin,
                        member.known, member.finish, member.over,
                    ))
                    with lock:
                        member.judge(False)
        except core.Violation as exc:
            errors.append(exc)
        except Exception as exc:  # pylint: disable=broad-except
            errors.append(exc)

    feeder = threading.Thread(target=produce, daemon=True)
    feeder.start()
    visitors = [
        threading.Thread(target=visit, args=(rng.random(),), daemon=True)
        for _ in range(rng.randint(2, 5))
    ]
    for thread in visitors:
        thread.start()
    for thread in visitors:
        thread.join()
    stop.set()
    feeder.join()
    if errors:
        raise errors[0]
    ctx.count("flow_frames", len(site.sent))
    ctx.distinct("flow", tuple(sorted((d[0], len(d[1])) for d in done)))


def late(ctx, rng, index):
    """Clients connect while the server stops."""
    from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    cast = Cast(rng)
    env = cast.env
    writer, source = default_writer("writer", env=env)
    daemon = TcpTelemetryDaemon("tcp", writer, env, Host("127.0.0.1", 0))
    ctx.defer(daemon.server.server_close)
    ctx.defer(daemon.stop)
    assert writer.start()
    ctx.defer(writer.stop)
    socks = []
    for turn in range(2):
        assert daemon.start()
        stop = threading.Event()

        def connect():
            while not stop.is_set() and len(socks) < 100:
                try:
                    socks.append(
                        socket.create_connection(daemon.address, 0.2)
                    )
                except OSError:
                    # too many wait to be accepted
                    pass
                time.sleep(0.001)

        thread = threading.Thread(target=connect, daemon=True)
        with sched.Noise(rng, 0.2, 0.01):
            thread.start()
            time.sleep(rng.random() * 0.1)
            ctx.check(daemon.stop(), "a server can't be stopped")
            stop.set()
            thread.join()
        # those that weren't accepted wait for the next start
        ctx.check(
            core.wait_for(
                lambda: env.get_metric("writer.stream_count") == 0, 5.0
            ),
            "a stopped server still has clients",
            clients=env.get_metric("writer.stream_count"),
        )
        ctx.check(
            core.wait_for(lambda: env.get_metric("tcp.clients") == 0, 5.0),
            "a stopped server counts clients",
            clients=env.get_metric("tcp.clients"),
        )
        before = env.get_metric("writer.stream_writes")
        for frame in cast.frames(2):
            source.put(frame)
        writer.await_empty()
        ctx.equal(
            env.get_metric("writer.stream_writes"), before,
            "a stopped server's client receives frames",
        )
    # a start serves those, and a stop ends everything
    assert daemon.start()
    frames = cast.frames(1)[:1]
    data = prefixed(raw_of(frames[0]))
    if socks:
        probe = core.retry(
            lambda: socket.create_connection(daemon.address, 1.0)
        )
        socks.append(probe)
        probe.settimeout(0.02)
        got = b""
        for _ in range(500):
            source.put(frames[0])
            try:
                got = probe.recv(1 << 16)
                break
            except socket.timeout:
                pass
        ctx.check(
            got and (got + data).startswith(data),
            "a client of a restarted server receives nothing",
        )
    ctx.check(daemon.stop(), "a server can't be stopped")
    for sock in socks:
        _, over = net.read_all(sock)
        ctx.check(over, "a stopped server leaves a client connected")
        sock.close()
    ctx.count("late_clients", len(socks))
    ctx.count("server_stops", 3)
    ctx.distinct("late", len(socks))


UNITS = {
    "tcp_foreign": (tcp_foreign, 60, 1500),
    "udp_foreign": (udp_foreign, 60, 1500),
    "websocket_foreign": (websocket_foreign, 40, 800),
    "steps": (steps, 40, 700),
    "flow": (flow, 16, 300),
    "late": (late, 12, 200),
}
