"""C26: udp clients are tracked exactly, and fail on their own."""

import fcntl
import gc
import io
import json
import os
import random
import socket
import struct
import subprocess
import sys
import threading
import time

from vmon import core, net, sched, wire
from vmon.checks.c01 import drain, prim

RULE = (
    "a case adds and removes udp clients of a running stream writer by "
    "methods and commands, with other streams among them, sends frames, and "
    "makes clients' receivers go away and other streams fail; the client "
    "list, ports, file descriptors and every datagram received are compared "
    "with a model, also while several threads do so at once, and the mtu "
    "reported with that of a loopback interface of its own; distinct = "
    "(history of operations) or (clients, outcomes)"
)
ASSUME = [
    "datagrams on the loopback interface aren't lost or reordered",
    "frames for clients that aren't flushed may be late, until they're "
    "removed",
    "host names resolve",
    "the stream writer is running",
]
REQUIRE = {
    "added.method": 150,
    "added.command": 100,
    "removed.method": 60,
    "removed.command": 60,
    "removed.all": 30,
    "failed": 60,
    "refused": 200,
    "listed": 300,
    "frames_received": 3000,
    "other_failures": 40,
    "raced": 500,
    "doomed": 100,
    "stress_frames": 300,
    "stress_operations": 300,
}
HOST = "127.0.0.1"


class Other(io.BytesIO):
    """A stream that isn't a udp client, and may fail."""

    def __init__(self):
        super().__init__()
        self.name = "other"
        self.broken = False
        self.closers = 0

    def write(self, data):
        if self.broken:
            raise OSError("as told")
        return super().write(data)


class Receiver:
    """Where a client's datagrams arrive."""

    def __init__(self, ctx):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        ctx.defer(self.sock.close)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        # once it's gone, nobody else is to be given its port
        for _ in range(1000):
            try:
                self.sock.bind((HOST, random.randrange(10000, 32000)))
                break
            except OSError:
                continue
        self.sock.setblocking(False)
        self.addr = self.sock.getsockname()
        assert self.addr[1] < 32768

    def take(self):
        out = []
        while True:
            try:
                out.append(self.sock.recvfrom(1 << 16))
            except BlockingIOError:
                return out


class Client:
    """What's known about a client."""

    def __init__(self, ident, receiver, flush, local):
        self.ident = ident
        self.receiver = receiver
        self.flush = flush
        self.local = local
        self.sent = []
        self.data = b""


def frames_of(data):
    """Whole frames of a datagram; None if it isn't just those."""
    pos, out = 0, []
    while pos < len(data):
        if pos + 4 > len(data):
            return None
        size = wire.SIZE.unpack_from(data, pos)[0]
        if pos + 4 + size > len(data):
            return None
        out.append(data[pos : pos + 4 + size])
        pos += 4 + size
    return out


class Site:
    """A manager and a model of it."""

    def __init__(self, ctx, rng):
        from vtelem.classes.udp_client_manager import UdpClientManager
        from vtelem.daemon.command_queue import CommandQueueDaemon
        from vtelem.factories.udp_client_manager import (
            create_udp_client_commander,
        )
        from vtelem.stream.writer import default_writer
        from vtelem.telemetry.environment import TelemetryEnvironment

        self.ctx, self.rng = ctx, rng
        self.env = env = TelemetryEnvironment(
            rng.choice([64, 200, 1400]), 0.0, metrics_rate=1.0,
            app_id_basis=0.5, use_crc=rng.random() < 0.5,
        )
        self.ids = [
            env.add_channel(f"c{num}", prim("uint32"), 0.0, True)
            for num in range(3)
        ]
        self.turn = 0
        self.writer, self.frames = default_writer("w", env=env)
        self.fds = descriptors()
        self.manager = UdpClientManager(self.writer)
        self.name = rng.choice(["udp", "clients"])
        self.command = CommandQueueDaemon("command", env)
        create_udp_client_commander(
            self.manager, self.command, None, self.name
        )
        assert self.command.start()
        assert self.writer.start()
        ctx.defer(self.end)
        self.clients = {}
        self.others = {}
        self.gone = []
        self.log = []

    def end(self):
        for daemon in (self.command, self.writer):
            if daemon.get_state_str() == "running":
                daemon.stop()
        self.manager.remove_all()

    def run(self, data):
        """A command's outcome."""
        return self.command.execute({"command": self.name, "data": data})

    def make_frames(self):
        """Some frames to be sent."""
        env, rng = self.env, self.rng
        self.turn += 1
        for num in rng.sample(self.ids, rng.randint(1, 3)):
            env.set_now(num, self.turn)
        env.dispatch(float(self.turn), False)
        return drain(env)

    def settle(self):
        self.ctx.check(
            core.wait_for(lambda: self.frames.unfinished_tasks == 0),
            "the writer doesn't come to rest", log=self.log[-8:],
        )

    # operations ------------------------------------------------------------------
    def add(self):
        ctx, rng, manager = self.ctx, self.rng, self.manager
        recv = Receiver(ctx)
        from vtelem.mtu import Host

        host = Host(*recv.addr)
        before = self.listing()
        flush = False
        how = rng.choice(["method", "method", "many", "command", "command"])
        mtu = None
        if how == "method":
            flush = rng.random() < 0.8
            ident, mtu = manager.add_client(host, flush)
        elif how == "many":
            result = manager.add_clients([host])
            ctx.equal(list(result), [host], "hosts of clients added")
            ident, mtu = result[host]
        else:
            good, text = self.run(
                {"operation": "add", "host": recv.addr[0],
                 "port": recv.addr[1]}
            )
            ctx.check(good, "a client can't be added", text=text)
        now = self.listing()
        extra = {k: v for k, v in now.items() if k not in before}
        ctx.equal(
            {k: v for k, v in now.items() if k in before}, before,
            "adding a client changes others",
        )
        ctx.equal(len(extra), 1, "not one more client", listed=now)
        key = list(extra)[0]
        if how == "command":
            ident = key
            mtu = ctx_mtu(text, key, extra[key], ctx)
            ctx.count("added.command")
        else:
            ctx.count("added.method")
        ctx.equal(ident, key, "the id isn't the listed one")
        ctx.check(
            ident not in self.clients and ident not in self.others,
            "an id is used twice", ident=ident,
        )
        # what's in a datagram has to fit into ip packets of the loopback
        with open("/sys/class/net/lo/mtu", encoding="ascii") as file:
            path = int(file.read())
        ctx.check(0 < mtu <= path - 28, "an mtu that doesn't fit", mtu=mtu,
                  path=path)
        name = extra[key].rsplit(":", 1)
        local = name[0], int(name[1])
        ctx.equal(local[0], HOST, "local address")
        # probes for the mtu are no telemetry
        for data, source in recv.take():
            ctx.equal(source, local, "the client's address isn't the listed")
            parts = frames_of(data)
            ctx.check(parts, "not a frame", data=data)
        ctx.check(net.held(local), "a listed address isn't in use")
        self.clients[ident] = Client(ident, recv, flush, local)
        self.log.append(("add", how, flush))

    def add_other(self):
        stream = Other()

        def closer():
            stream.closers += 1

        ident = self.writer.add_stream(stream, closer)
        self.ctx.check(
            ident not in self.clients and ident not in self.others,
            "an id is used twice", ident=ident,
        )
        self.others[ident] = stream, []
        self.log.append(("other",))

    def remove(self):
        if not self.clients:
            return
        ctx, rng = self.ctx, self.rng
        client = self.clients[rng.choice(list(self.clients))]
        if rng.random() < 0.5:
            self.manager.remove_client(client.ident)
            ctx.count("removed.method")
            self.log.append(("remove", "method"))
        else:
            good, text = self.run(
                {"operation": "remove", "id": client.ident}
            )
            ctx.check(good, "a client can't be removed", text=text)
            ctx.count("removed.command")
            self.log.append(("remove", "command"))
        self.left(client)

    def remove_all(self):
        self.manager.remove_all()
        for client in list(self.clients.values()):
            self.left(client)
        self.ctx.count("removed.all")
        self.log.append(("remove all",))

    def left(self, client, complete=True):
        """A client isn't one anymore."""
        ctx = self.ctx
        del self.clients[client.ident]
        self.received(client, complete)
        ctx.check(
            core.wait_for(lambda: not net.held(client.local), 5.0),
            "the socket of a removed client isn't closed", log=self.log[-5:],
        )
        self.gone.append(client)

    def received(self, client, complete):
        """Compare datagrams with what was sent."""
        ctx = self.ctx
        want = b"".join(client.sent)
        for data, source in client.receiver.take():
            ctx.equal(source, client.local, "a datagram from elsewhere")
            parts = frames_of(data)
            ctx.check(parts is not None, "frames are split", data=data)
            if client.flush:
                ctx.check(len(parts) == 1, "frames of flushed clients join")
            client.data += data
            ctx.count("frames_received", len(parts))
        if complete:
            ctx.equal(client.data, want, "not the frames sent",
                      flush=client.flush, log=self.log[-8:])
        else:
            ctx.equal(client.data, want[: len(client.data)],
                      "not the frames sent", flush=client.flush,
                      log=self.log[-8:])

    def send(self):
        """Frames reach every client and stream."""
        for _ in range(self.rng.randint(1, 4)):
            for frame in self.make_frames():
                raw = frame.raw[0]
                data = wire.SIZE.pack(len(raw)) + bytes(raw)
                self.frames.put(frame)
                for client in self.clients.values():
                    client.sent.append(data)
                for stream, sent in self.others.values():
                    sent.append(data)
        self.settle()
        self.check()
        self.log.append(("send",))

    def fail(self):
        """A client's receiver goes away."""
        picks = [c for c in self.clients.values() if c.flush]
        if not picks:
            return
        ctx = self.ctx
        client = self.rng.choice(picks)
        self.received(client, True)
        client.receiver.sock.close()
        # the first datagram is lost, a later one fails
        for _ in range(4):
            for frame in self.make_frames():
                raw = frame.raw[0]
                data = wire.SIZE.pack(len(raw)) + bytes(raw)
                self.frames.put(frame)
                for other in self.clients.values():
                    other.sent.append(data)
                for stream, sent in self.others.values():
                    sent.append(data)
            self.settle()
            if client.ident not in self.manager.clients:
                break
        else:
            ctx.fail("a client that fails isn't removed")
        del self.clients[client.ident]
        ctx.check(
            not net.held(client.local),
            "the socket of a client that failed isn't closed",
        )
        self.gone.append(client)
        self.check()
        ctx.count("failed")
        self.log.append(("fail",))

    def vanish(self):
        """A client with frames buffered is removed, nobody is there."""
        picks = [c for c in self.clients.values() if not c.flush]
        if not picks:
            return
        client = self.rng.choice(picks)
        client.receiver.sock.close()
        for _ in range(2):
            self.send_nowhere(client)
        if self.rng.random() < 0.5:
            self.manager.remove_client(client.ident)
        else:
            good, text = self.run(
                {"operation": "remove", "id": client.ident}
            )
            self.ctx.check(good, "a client can't be removed", text=text)
        self.clients.pop(client.ident, None)
        self.ctx.check(
            not net.held(client.local), "a removed client isn't closed",
        )
        self.check()
        self.ctx.count("vanished")
        self.log.append(("vanish",))

    def send_nowhere(self, client):
        """Send without looking at one client."""
        del self.clients[client.ident]
        self.send_unchecked()
        if client.ident in self.manager.clients:
            self.clients[client.ident] = client

    def send_unchecked_for_all(self):
        """Send, the writer isn't waited for."""
        for frame in self.make_frames():
            raw = frame.raw[0]
            data = wire.SIZE.pack(len(raw)) + bytes(raw)
            for other in self.clients.values():
                other.sent.append(data)
            for _, sent in self.others.values():
                sent.append(data)
            self.frames.put(frame)

    def send_unchecked(self):
        for frame in self.make_frames():
            raw = frame.raw[0]
            data = wire.SIZE.pack(len(raw)) + bytes(raw)
            self.frames.put(frame)
            for other in self.clients.values():
                other.sent.append(data)
            for _, sent in self.others.values():
                sent.append(data)
        self.settle()

    def other_fails(self):
        if not self.others:
            return
        ctx = self.ctx
        ident = self.rng.choice(list(self.others))
        stream, sent = self.others.pop(ident)
        stream.broken = True
        self.send()
        ctx.equal(stream.getvalue(), b"".join(sent),
                  "frames of a stream that fails")
        ctx.equal(stream.closers, 1, "a failed stream's closer")
        ctx.check(not self.writer.remove_stream(ident),
                  "a failed stream is still there")
        ctx.count("other_failures")
        self.log.append(("other fails",))

    def refuse(self):
        """Requests that make no sense, and change nothing."""
        ctx, rng = self.ctx, self.rng
        used = list(self.others) + [c.ident for c in self.gone]
        used = [i for i in used if i not in self.clients]
        unknown = rng.choice(
            used + used + [-1, 10 ** 6, "x", None, [], {}, 0.5, "-1"]
        )
        pick = rng.randrange(8)
        data = [
            {},
            {"operation": rng.choice(["Add", "nope", "", None, 5])},
            {"operation": "add", **rng.choice(
                [{}, {"host": HOST}, {"port": 5}, {"Host": HOST, "port": 5}]
            )},
            {"operation": "add", "host": HOST, "port": rng.choice(
                [70000, -1, "x", None, [5], 5.5]
            )},
            {"operation": "add", "host": rng.choice([5, None, [], {}]),
             "port": 5},
            {"operation": "remove"},
            {"operation": "remove", "id": unknown},
            {"operation": "list", "id": unknown},
        ][pick]
        good, text = self.run(data)
        ctx.check(not good, "a request isn't refused", request=data,
                  text=text)
        ctx.check(text, "no reason for a refusal", request=data)
        if isinstance(unknown, int) and rng.random() < 0.5:
            # not a client's
            self.manager.remove_client(unknown)
        ctx.count("refused")
        self.check()
        self.log.append(("refuse", pick))

    # observations ----------------------------------------------------------------
    def listing(self):
        good, text = self.run({"operation": "list"})
        self.ctx.check(good, "clients can't be listed", text=text)
        self.ctx.count("listed")
        return {int(k): v for k, v in json.loads(text).items()}

    def check(self):
        """Everything is as it should be."""
        ctx = self.ctx
        ctx.equal(
            self.listing(),
            {c.ident: f"{c.local[0]}:{c.local[1]}"
             for c in self.clients.values()},
            "not the clients added and neither removed nor failed",
            log=self.log[-8:],
        )
        if self.clients:
            ident = self.rng.choice(list(self.clients))
            good, text = self.run({"operation": "list", "id": ident})
            local = self.clients[ident].local
            ctx.equal(
                (good, json.loads(text)),
                (True, {str(ident): f"{local[0]}:{local[1]}"}),
                "not the client asked for",
            )
            ctx.equal(tuple(self.manager.client_name(ident)), local,
                      "a client's name")
        for client in self.clients.values():
            if client.receiver.sock.fileno() != -1:
                self.received(client, client.flush)
            ctx.check(net.held(client.local), "a client's socket is closed")
        for ident, (stream, sent) in self.others.items():
            ctx.equal(stream.getvalue(), b"".join(sent),
                      "not the frames sent to another stream")
            ctx.equal(stream.closers, 0, "another stream is closed")


def ctx_mtu(text, ident, name, ctx):
    """The mtu an answer reports."""
    ctx.check(name in text and str(ident) in text,
              "an answer doesn't name the client", text=text)
    nums = [int(w) for w in "".join(
        c if c.isdigit() else " " for c in text.replace(name, "")
    ).split()]
    ctx.check(ident in nums, "no id in an answer", text=text)
    nums.remove(ident)
    ctx.check(nums, "no mtu in an answer", text=text)
    return max(nums)


def descriptors():
    """How many sockets are open."""
    gc.collect()
    count = 0
    for name in os.listdir("/proc/self/fd"):
        try:
            count += os.readlink(f"/proc/self/fd/{name}").startswith("socket")
        except OSError:
            pass
    return count


def history(ctx, rng, _index):
    site = Site(ctx, rng)
    weights = {
        site.add: 6, site.add_other: 2, site.remove: 3, site.remove_all: 1,
        site.send: 6, site.fail: 3, site.vanish: 1, site.other_fails: 2,
        site.refuse: 4,
    }
    opers = [op for op, num in weights.items() for _ in range(num)]
    site.add()
    limit = 6
    if rng.random() < 0.1:
        # ids and numbers of clients with more than a digit
        site.add()
        for _ in range(rng.randint(8, 12)):
            site.writer.remove_stream(site.writer.add_stream(Other()))
        limit = 14
        for _ in range(rng.randint(2, 10)):
            site.add()
    for _ in range(rng.randint(10, 30)):
        if len(site.clients) > limit:
            site.remove()
        rng.choice(opers)()
    site.send()
    site.check()
    site.remove_all()
    site.check()
    # nobody gets any more
    site.send()
    for client in site.gone:
        if client.receiver.sock.fileno() != -1:
            ctx.equal(client.receiver.take(), [],
                      "a removed client's receiver gets more")
            client.receiver.sock.close()
    ctx.check(site.writer.stop() and site.command.stop(), "no stop")
    del site.gone[:]
    left = core.wait_for(lambda: descriptors() <= site.fds, 5.0)
    ctx.check(left, "sockets are left open", now=descriptors(),
              before=site.fds)
    ctx.distinct("history", [item[0] for item in site.log])
    ctx.sample({"operations": site.log[:12]})


# two threads ---------------------------------------------------------------------
def raced(ctx, rng, index):
    """Preempt an operation at each of its lines, by another."""
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.factories import udp_client_manager as commands
    from vtelem.mtu import Host
    from vtelem.stream.writer import default_writer

    pairs = [(a, b) for a in ("list", "list one", "remove", "command", "all",
                              "add")
             for b in ("remove", "command", "all", "add")]
    first, second = pairs[index % len(pairs)]
    receivers = [Receiver(ctx) for _ in range(2)]
    hosts = [Host(*r.addr) for r in receivers]
    now = {}

    def operation(kind, num):
        """What to run."""
        manager, ids = now["manager"], now["ids"]
        pick = ids[now["pick"] if num == 0 or now["same"] else 0]
        now[num] = pick
        if kind == "list":
            return lambda: commands.list_client(manager, {})
        if kind == "list one":
            return lambda: commands.list_client(manager, {"id": pick})
        if kind == "remove":
            return lambda: manager.remove_client(pick)
        if kind == "command":
            return lambda: commands.remove_client(manager, {"id": pick})
        if kind == "all":
            return manager.remove_all
        return lambda: manager.add_client(hosts[num])[0]

    def make():
        if now:
            now["manager"].remove_all()
        writer, _ = default_writer("w")
        manager = UdpClientManager(writer)
        stream = Other()
        ids = [manager.add_client(hosts[i % 2])[0] for i in range(2)]
        now.update(
            manager=manager, stream=stream, ids=ids, writer=writer,
            other=writer.add_stream(stream), pick=rng.randrange(2),
            same=rng.random() < 0.7,
            names={i: tuple(manager.client_name(i)) for i in ids},
        )
        return [operation(first, 0), operation(second, 1)]

    def verify(outs, runner):
        sched.no_errors(outs)
        manager = now["manager"]
        good, text = commands.list_client(manager, {})
        ctx.check(good, "clients can't be listed", text=text)
        final = {
            int(k): (v.rsplit(":", 1)[0], int(v.rsplit(":", 1)[1]))
            for k, v in json.loads(text).items()
        }
        names, kinds = dict(now["names"]), (first, second)
        for num, kind in enumerate(kinds):
            if kind == "add":
                ctx.check(outs[num].value not in names, "an id is used twice")
                names[outs[num].value] = final.get(outs[num].value)
        left = set(names)
        for num, kind in enumerate(kinds):
            if kind in ("remove", "command"):
                left.discard(now[num])
            elif kind == "all":
                left -= set(now["ids"])
        # one that's added while all are removed may be removed
        may = set()
        if "all" in kinds:
            may = {o.value for o, k in zip(outs, kinds) if k == "add"}
        ctx.check(left - may <= set(final) <= left,
                  "not the clients added and not removed", kinds=kinds,
                  final=final, left=sorted(left))
        for ident, name in final.items():
            ctx.equal(name, names[ident], "a client's address")
            ctx.check(net.held(name), "a client's socket is closed")
        for ident, name in now["names"].items():
            if ident not in final:
                ctx.check(not net.held(name),
                          "the socket of a removed client isn't closed")
        if kinds == ("command", "command") and now[0] == now[1]:
            ctx.equal(sorted(o.value[0] for o in outs), [False, True],
                      "not removed once")
        if first.startswith("list"):
            judge(outs[0].value, names, set(now["ids"]), final)
        ctx.equal((now["stream"].closers, now["stream"].closed), (0, False),
                  "another stream is closed")
        ctx.check(now["writer"].remove_stream(now["other"]),
                  "another stream is gone")
        ctx.count("raced")
        ctx.distinct("raced", first, second, tuple(runner.trace[:1]))

    def judge(value, names, before, final):
        """A list while something else happens."""
        good, text = value
        if not good:
            ctx.check(first == "list one" and now[0] not in final,
                      "clients can't be listed", text=text)
            return
        seen = json.loads(text)
        listed = {int(k): v for k, v in seen.items()}
        low, high = before & set(final), before | set(final)
        if first == "list one":
            low = high = {now[0]}
        ctx.check(low <= set(listed) <= high, "a list that never was",
                  listed=listed, low=sorted(low), high=sorted(high))
        ctx.equal(
            listed,
            {i: f"{names[i][0]}:{names[i][1]}" for i in listed},
            "a client's address",
        )

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng, 30 if quick else None, 5 if quick else 30
    )
    now["manager"].remove_all()


# several threads -----------------------------------------------------------------
def stressed(ctx, rng, _index):
    from vtelem.mtu import Host

    site = Site(ctx, rng)
    manager = site.manager
    seeds = [rng.random() for _ in range(4)]
    rest, idents = [], []
    done = threading.Event()
    sent = []

    def feed():
        own = random.Random(seeds[3])
        while not done.is_set() or len(sent) < 20:
            site.env.set_now(site.ids[0], len(sent))
            site.env.dispatch(float(len(sent)), False)
            for frame in drain(site.env):
                raw = frame.raw[0]
                # late ones must fit into the sockets' buffers
                if len(sent) < 300:
                    sent.append(wire.SIZE.pack(len(raw)) + bytes(raw))
                    site.frames.put(frame)
            time.sleep(own.choice([0, 0.001]))

    def change(num):
        own = random.Random(seeds[num])
        mine = []
        for _ in range(own.randint(4, 10)):
            pick = own.choice(["add", "add", "remove", "list", "fail"])
            if pick == "add":
                recv = Receiver(ctx)
                if own.random() < 0.5:
                    ident = manager.add_client(Host(*recv.addr), True)[0]
                else:
                    stream = Other()
                    ident = site.writer.add_stream(stream)
                    idents.append(ident)
                    stream.broken = own.random() < 0.5
                    continue
                idents.append(ident)
                local = tuple(manager.client_name(ident))
                mine.append((ident, recv, local))
            elif pick == "remove" and mine:
                ident, recv, local = mine.pop(own.randrange(len(mine)))
                if own.random() < 0.5:
                    manager.remove_client(ident)
                else:
                    good, text = site.run(
                        {"operation": "remove", "id": ident}
                    )
                    ctx.check(good, "a client can't be removed", text=text)
                gets(recv, local, False)
            elif pick == "fail" and mine:
                ident, recv, local = mine.pop(own.randrange(len(mine)))
                recv.sock.close()
                if own.random() < 0.5:
                    # nobody else frees a port twice
                    manager.remove_client(ident)
            elif pick == "list":
                good, text = site.run({"operation": "list"})
                ctx.check(good, "clients can't be listed", text=text)
                listed = json.loads(text)
                for ident, _, local in mine:
                    ctx.equal(
                        listed.get(str(ident)), f"{local[0]}:{local[1]}",
                        "a client isn't listed",
                    )
            ctx.count("stress_operations")
        rest.extend(mine)

    def gets(recv, local, last):
        """A run of the frames sent, without gaps."""
        datas = []
        for data, source in recv.take():
            if source == local and data in known(sent):
                datas.append(data)
        ctx.count("stress_frames", len(datas))
        if not datas:
            return
        all_of = list(sent)
        # frames are distinct
        first = all_of.index(datas[0])
        ctx.equal(datas, all_of[first : first + len(datas)],
                  "a client's frames have gaps or aren't in order")
        if last:
            ctx.equal(datas[-1], all_of[-1], "a client lacks the last frame")

    feeder = threading.Thread(target=feed, name="vmon-feed", daemon=True)
    feeder.start()
    try:
        outs = sched.stress(
            ctx, rng, [lambda n=n: change(n) for n in range(3)], 0.02
        )
    finally:
        done.set()
        feeder.join()
    sched.no_errors(outs)
    site.settle()
    # those whose receivers went away fail now at the latest
    for _ in range(3):
        site.send_unchecked_quietly(sent)
    ctx.equal(len(set(idents)), len(idents), "an id is used twice")
    ctx.equal(
        site.listing(),
        {i: f"{local[0]}:{local[1]}" for i, _, local in rest},
        "not the clients added and neither removed nor failed",
    )
    for ident, recv, local in rest:
        gets(recv, local, True)
        manager.remove_client(ident)
        ctx.check(not net.held(local), "a removed client isn't closed")
        recv.sock.close()
    ctx.equal(site.listing(), {}, "clients after all were removed")
    ctx.distinct("stressed", len(idents), len(rest))


def doomed(ctx, rng, _index):
    """Nobody is where a client sends to, as soon as it's added."""
    from vtelem.mtu import Host

    site = Site(ctx, rng)
    site.add_other()
    site.add()
    for _ in range(10):
        gone = Receiver(ctx)
        gone.sock.close()
        result = []

        def adds():
            if rng.random() < 0.5:
                result.append(
                    site.manager.add_client(Host(*gone.addr), True)[0]
                )
            else:
                # it may be gone before it's named
                result.append(site.manager.add_clients([Host(*gone.addr)]))

        thread = threading.Thread(target=adds, name="adding", daemon=True)
        point = rng.randint(1, 60)
        with sched.Hold(lambda n: n == "adding", -1, 0.25) as hold:
            # about when it's with the writer
            hold.at = None
            origin = hold.handle
            seen = []

            def handle(code, line):
                if "udp_client_manager" in code.co_filename:
                    seen.append(line)
                    if len(seen) == max(1, point % 24):
                        hold.at = hold.count + 1
                origin(code, line)

            sched.attach(handle)
            thread.start()
            core.wait_for(
                lambda: hold.reached.is_set() or not thread.is_alive(), 5.0
            )
            for _ in range(2):
                site.send_unchecked_for_all()
            core.wait_for(lambda: site.frames.unfinished_tasks == 0, 0.05)
            hold.released.set()
            thread.join()
        ctx.equal(len(result), 1, "a client can't be added")
        # those not flushed stay until they're removed
        for _ in range(3):
            site.send_unchecked_for_all()
            site.settle()
        if isinstance(result[0], dict):
            for ident, _ in result[0].values():
                site.manager.remove_client(ident)
        site.check()
        ctx.count("doomed")
        ctx.distinct("doomed", hold.where)
    site.remove_all()
    site.check()
    ctx.check(site.writer.stop() and site.command.stop(), "no stop")
    for client in site.gone:
        client.receiver.sock.close()
    del site.gone[:]
    left = core.wait_for(lambda: descriptors() <= site.fds, 5.0)
    ctx.check(left, "sockets are left open", now=descriptors(),
              before=site.fds)


def known(sent):
    return set(sent)


def quietly(site, sent):
    """Frames to be received by those that are left."""
    site.env.set_now(site.ids[0], 1 << 20 | len(sent))
    site.env.dispatch(1e6 + len(sent), False)
    for frame in drain(site.env):
        raw = frame.raw[0]
        sent.append(wire.SIZE.pack(len(raw)) + bytes(raw))
        site.frames.put(frame)
    site.settle()


Site.send_unchecked_quietly = quietly


# the mtu of a path ---------------------------------------------------------------
CHILD = """
import json, os, sys
os.unshare(os.CLONE_NEWUSER | os.CLONE_NEWNET)
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
from vmon.checks import c26
print(json.dumps(c26.measure(json.loads(sys.argv[3]))))
"""


def set_mtu(mtu):
    """Bring up the loopback interface with an mtu."""
    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as sock:
        fcntl.ioctl(sock, 0x8922, struct.pack("16si12x", b"lo", mtu))
        flags = struct.unpack_from(
            "16sh", fcntl.ioctl(sock, 0x8913, struct.pack("16s16x", b"lo"))
        )[1]
        fcntl.ioctl(
            sock, 0x8914, struct.pack("16sh14x", b"lo", flags | 1)
        )


def measure(mtus):
    """In a network of its own: what's reported for each mtu."""
    from vtelem.channel.framer import build_dummy_frame
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.mtu import Host, discover_ipv4_mtu
    from vtelem.stream.writer import default_writer

    out = []
    for mtu in mtus:
        set_mtu(mtu)
        recv = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        recv.bind((HOST, 0))
        recv.settimeout(5.0)
        writer, frames = default_writer("w")
        manager = UdpClientManager(writer)
        host = Host(*recv.getsockname())
        path = discover_ipv4_mtu(host)
        ident, reported = manager.add_client(host, True)
        writer.start()
        sock = manager.clients[ident][0]
        # don't fragment: what doesn't fit fails
        sock.setsockopt(socket.IPPROTO_IP, 10, 2)
        frame = build_dummy_frame(reported)
        frames.put(frame)
        want = frame.with_size_header()[0]
        got = None
        try:
            while got != want:
                got = recv.recv(1 << 16)
        except TimeoutError:
            pass
        out.append({
            "mtu": mtu, "path": path, "reported": reported,
            "arrived": got == want, "listed": ident in manager.clients,
        })
        writer.stop()
        manager.remove_all()
        recv.close()
    return out


def paths(ctx, rng, _index):
    mtus = rng.sample([576, 700, 1000, 1280, 1400, 1492, 1500, 1501, 2000,
                       4000, 9000, 16436, 65536, 32000], 4)
    where = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__)
    )))
    done = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", CHILD, core.REPO, where,
         json.dumps(mtus)],
        capture_output=True, text=True, timeout=120, check=False,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
    )
    if "unshare" in done.stderr or "ioctl" in done.stderr:
        # not everywhere
        ctx.count("paths_unavailable")
        return
    ctx.check(done.returncode == 0, "clients can't be added",
              error=done.stderr[-900:])
    for item in json.loads(done.stdout):
        # as ip has it
        ctx.equal(item["path"], min(item["mtu"], 0xFFFF),
                  "not the mtu of the path")
        ctx.check(
            item["mtu"] - 200 <= item["reported"] <= item["mtu"] - 28,
            "an mtu that doesn't fit", item=item,
        )
        ctx.check(item["arrived"] and item["listed"],
                  "a frame of the reported mtu doesn't fit", item=item)
        ctx.count("paths")
        ctx.distinct("path", item["mtu"])


UNITS = {
    "history": (history, 240, 2500),
    "raced": (raced, 48, 480),
    "doomed": (doomed, 24, 300),
    "stressed": (stressed, 48, 400),
    "paths": (paths, 4, 20),
}
