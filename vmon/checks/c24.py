"""C24: a telemetry server starts, serves, commands and stops as a whole."""

import collections
import enum
import html
import http.client
import json
import os
import queue
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import urllib.parse

from vmon import core, net, sched, wire
from vmon.checks.c01 import prim

RULE = (
    "a case builds a telemetry server with a random choice of services, "
    "starts it, reaches every service at its registered address, sends the "
    "same commands by HTTP, WebSocket and directly to equal sets of channels "
    "and applications, follows applications' set-ups and loops through "
    "starts, pauses, stops and time scales, and ends the server in different "
    "ways while several threads wait for it; distinct = (services, command, "
    "route, outcome) or (way to end, waits)"
)
ASSUME = [
    "a server that was stopped isn't started again",
    "applications aren't registered while the server starts or after it "
    "stopped, and their names aren't those of services",
    "HTTP commands carry text values only",
    "a request to shut down isn't made during a change of the time scale",
]
REQUIRE = {
    "servers": 50,
    "default_services": 6,
    "reached.http": 15,
    "reached.websocket_command": 15,
    "reached.websocket_telemetry": 15,
    "reached.tcp_telemetry": 15,
    "unreachable": 20,
    "frames_received": 100,
    "commands.http": 150,
    "commands.websocket": 150,
    "commands.direct": 150,
    "malformed": 60,
    "reports": 15,
    "setups": 40,
    "loops": 200,
    "waits_ended": 50,
    "refused_shutdowns": 6,
    "ends.stop": 8,
    "ends.timeout": 6,
    "ends.shutdown": 4,
    "stalled_ends": 3,
    "full_ends": 3,
    "processes": 3,
    "options": 3,
    "usages": 4,
}
KINDS = ["http", "websocket_command", "websocket_telemetry", "tcp_telemetry"]
HOST = "127.0.0.1"


def host(rng):
    from vtelem.mtu import Host

    return Host(HOST, rng.choice([0, 0, net.port()]))


class Server:
    """A server under test."""

    def __init__(self, ctx, rng, enabled=None, udp=0, ports=True):
        from vtelem.telemetry.server import TelemetryServer
        from vtelem.types.telemetry_server import (
            Service, TelemetryServices, default_services,
        )
        from vtelem.mtu import Host

        self.ctx, self.rng = ctx, rng
        if enabled is None:
            enabled = {k: rng.random() < 0.6 for k in KINDS}
        self.enabled = enabled
        rename = rng.random() < 0.3
        self.names = {k: f"my.{k}" if rename else k for k in KINDS}
        self.receivers = []
        for _ in range(udp):
            sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            ctx.defer(sock.close)
            sock.bind((HOST, 0))
            self.receivers.append(sock)
        services = {
            k: Service(self.names[k], host(rng), enabled[k]) for k in KINDS
        }
        if self.receivers or rng.random() < 0.7:
            services = TelemetryServices(
                *[services[k] for k in KINDS],
                udp=[Host(*s.getsockname()) for s in self.receivers] or None,
            )
        else:
            # those that aren't given have their defaults
            for kind in KINDS:
                if enabled[kind] and not rename and rng.random() < 0.5:
                    del services[kind]
            if rng.random() < 0.5 or services:
                services = default_services(**services)
            else:
                services = None
            ctx.count("default_services")
        self.server = TelemetryServer(
            rng.choice([0.005, 0.01]), rng.choice([0.01, 0.03]), 0.05,
            rng.choice([None, 0.5, 0.25]), services,
        )
        self.stopped = False
        self.ended = False
        ctx.defer(self.clean)
        self.telem = self.server.daemons.get("telemetry")
        self.command = self.server.daemons.get("command")
        self.app = self.telem.app_id.get()
        ctx.count("servers")

    def clean(self):
        """Whatever happened, leave nothing running."""
        if not self.ended:
            self.server.stop_all()

    # the registry of services ------------------------------------------------
    def services(self):
        reg = self.telem.registries["services"]
        return json.loads(reg.describe())

    def listed(self):
        data = self.services()
        return {
            name: data["services"][str(num)]
            for name, num in data["mappings"].items()
        }

    def start(self):
        self.server.start_all()
        self.started()

    def started(self):
        ctx = self.ctx
        wants = {self.names[k] for k in KINDS if self.enabled[k]}
        core.wait_for(lambda: set(self.listed()) >= wants)
        listed = self.listed()
        ctx.equal(set(listed), wants, "not the services that are enabled")
        self.where = {}
        for kind in KINDS:
            if not self.enabled[kind]:
                continue
            addrs = listed[self.names[kind]]
            ctx.check(len(addrs) == 1, "not one address", listed=listed)
            self.where[kind] = tuple(addrs[0])
            ctx.check(addrs[0][1] > 0, "no port is listed", listed=listed)
        # http comes first, so that others may still be on their way
        states = self.server.daemons.states()
        core.wait_for(
            lambda: set(self.server.daemons.states().values()) == {"running"}
        )
        states = self.server.daemons.states()
        ctx.equal(
            {k: v for k, v in states.items() if v != "running"}, {},
            "daemons don't run after the start",
        )
        named = {self.names[k] for k in KINDS[1:] if self.enabled[k]}
        not_named = {self.names[k] for k in KINDS[1:]} - named
        ctx.check(named <= set(states) and not not_named & set(states),
                  "not the daemons of the enabled services", states=states)
        ctx.equal(
            self.server.get_state_str(),
            "running" if self.enabled["http"] else "idle",
            "state of the http service",
        )

    def idle(self):
        """What holds when any wait for the server has ended."""
        ctx = self.ctx
        self.ended = True
        states = self.server.daemons.states()
        ctx.equal(
            {k: v for k, v in states.items() if v != "idle"}, {},
            "daemons run after the stop",
        )
        ctx.equal(self.server.get_state_str(), "idle", "http after the stop")
        for kind, addr in self.where.items():
            ctx.check(
                not net.accepts(addr[1]), "a port is open after the stop",
                service=kind,
            )
        ctx.equal(
            list(self.server.udp_clients.clients), [],
            "udp clients after the stop",
        )

    # routes --------------------------------------------------------------------
    def http(self, method, path, fields=None, seconds=10.0):
        """One request: (status, text)."""
        conn = http.client.HTTPConnection(*self.where["http"], timeout=seconds)
        try:
            body, headers = None, {}
            if fields is not None and method == "GET":
                path += "?" + urllib.parse.urlencode(fields)
            elif fields is not None:
                body = urllib.parse.urlencode(fields)
                headers["Content-Type"] = "application/x-www-form-urlencoded"
            core.retry(
                lambda: conn.request(method, "/" + path, body, headers), 5.0
            )
            resp = conn.getresponse()
            return resp.status, resp.read().decode()
        finally:
            conn.close()

    def websocket(self, kind="websocket_command"):
        from websockets.sync.client import connect

        addr = self.where[kind]
        sock = core.retry(
            lambda: connect(f"ws://{addr[0]}:{addr[1]}", close_timeout=1,
                            max_size=None)
        )
        self.ctx.defer(sock.close)
        return sock

    def reach(self, kind):
        """Use a service at its address."""
        ctx = self.ctx
        if kind == "http":
            ctx.equal(self.http("GET", "id"), (200, str(self.app)),
                      "identification")
        elif kind == "websocket_command":
            sock = self.websocket()
            sock.send('{"command": "help"}')
            data = json.loads(sock.recv(10))
            ctx.check(data["success"] is True, "no help", data=data)
            ctx.equal(
                json.loads(data["message"]),
                json.loads(self.command.execute({"command": "help"})[1]),
                "help",
            )
        elif kind == "websocket_telemetry":
            sock = self.websocket(kind)
            for _ in range(3):
                self.frame(sock.recv(10), True)
        else:
            sock = core.retry(
                lambda: socket.create_connection(self.where[kind], 5)
            )
            ctx.defer(sock.close)
            data = b""
            while len(data) < 200:
                got = sock.recv(1 << 16)
                ctx.check(got, "the server closes a telemetry connection")
                data += got
            self.frame(data)
        ctx.count(f"reached.{kind}")

    def frame(self, data, whole=False):
        """Frames of this application; how many."""
        ctx, pos, count = self.ctx, 0, 0
        while pos + 4 <= len(data):
            size = wire.SIZE.unpack_from(data, pos)[0]
            if pos + 4 + size > len(data):
                break
            raw = data[pos + 4 : pos + 4 + size]
            ctx.check(len(raw) >= wire.HEADER.size, "not a frame", raw=raw)
            app, kind, _, _ = wire.HEADER.unpack_from(raw)
            ctx.equal(app, self.app, "application of a frame")
            ctx.check(kind in (1, 2, 3, 4), "no type of frame", kind=kind)
            pos += 4 + size
            count += 1
        ctx.check(count and (not whole or pos == len(data)),
                  "not exactly whole frames", data=data)
        ctx.count("frames_received", count)
        return count


# serving -------------------------------------------------------------------------
def reports(ctx, rng, svc):
    """What the server says about itself is what is."""
    telem = svc.telem

    def actual(what):
        if what == "types":
            return json.loads(telem.type_registry.describe())
        return {
            name: json.loads(registry.describe()) for name, registry in [
                ("channel", telem.channel_registry),
                ("enum", telem.enum_registry),
                ("type", telem.type_registry),
                ("channel_groups", svc.server.channel_groups),
                ("services", telem.registries["services"]),
            ]
        }

    for _ in range(rng.randint(1, 3)):
        what = rng.choice(["types", "registries"])
        indent = rng.choice([None, "1", "x"])
        for _ in range(200):
            before = actual(what)
            status, body = svc.http(
                "GET", what, {} if indent is None else {"indent": indent}
            )
            ctx.equal(status, 200, "status of a report")
            if actual(what) == before:
                break
        else:
            raise core.Inconclusive("the registries don't come to rest")
        ctx.equal(json.loads(body), before, "not the actual " + what)
        ctx.equal("\n" in body.strip(), indent is not None, "indentation")
        ctx.count("reports")


def served(ctx, rng, _index):
    svc = Server(ctx, rng, udp=rng.choice([0, 0, 1, 3]))
    server = svc.server
    ctx.equal(svc.listed(), {}, "services are listed before the start")
    svc.start()
    kinds = [k for k in KINDS if svc.enabled[k]]
    for kind in rng.sample(kinds, len(kinds)):
        svc.reach(kind)
    ctx.count("unreachable", len(KINDS) - len(kinds))
    if svc.enabled["http"]:
        reports(ctx, rng, svc)
    if svc.enabled["websocket_telemetry"] and rng.random() < 0.5:
        # the server's own clients know where it is
        daemon = server.daemons.get(svc.names["websocket_telemetry"])
        client, frames = daemon.client()
        with client.booted():
            ctx.check(frames.get(timeout=20) is not None, "no frame")
        ctx.count("frames_received")
    ctx.equal(len(server.udp_clients.clients), len(svc.receivers),
              "initial udp clients")
    server.stop_all()
    svc.idle()
    for sock in svc.receivers:
        data = b""
        sock.settimeout(2.0)
        try:
            # the first ones are to find out about the mtu
            for _ in range(1000):
                got = sock.recv(1 << 16)
                if wire.HEADER.unpack_from(got, 4)[0] != svc.app:
                    continue
                data += got
                sock.settimeout(0.05)
        except TimeoutError:
            pass
        svc.frame(data)
    ctx.distinct("served", sorted(svc.enabled.items()), len(svc.receivers))
    ctx.sample({"services": svc.where, "udp": len(svc.receivers)})


# commands ------------------------------------------------------------------------
ROUTES = ["http", "websocket", "direct"]


class Twins:
    """Equal channels and applications, one set for each route."""

    def __init__(self, ctx, rng, svc):
        self.ctx, self.rng, self.svc = ctx, rng, svc
        env = svc.telem
        self.kinds = [rng.choice(list(wire.TYPES)) for _ in range(4)]
        self.ids = {}
        for num, kind in enumerate(self.kinds):
            commandable = rng.random() < 0.8
            for route in ROUTES:
                name = f"{route}.c{num}"
                self.ids[name] = env.add_channel(
                    name, prim(kind), 0.5, rng.random() < 0.5,
                    commandable=commandable,
                )
        from vtelem.classes.user_enum import from_enum

        env.add_enum(
            from_enum(enum.IntEnum("Mood", {"CALM": 0, "GLAD": 1, "WILD": 7}))
        )
        for route in ROUTES:
            name = f"{route}.mood"
            self.ids[name] = env.add_enum_channel(name, "mood", 0.5)
        self.seen = {route: [] for route in ROUTES}
        for route in ROUTES:
            svc.command.register_consumer(
                f"{route}.probe",
                lambda data, route=route: self.probe(route, data),
                help_msg="probe",
            )
            for num in range(2):
                assert svc.server.register_application(
                    f"{route}.app{num}", 0.02, lambda *_: None,
                    lambda *_: None,
                )

    def probe(self, route, data):
        self.seen[route].append(dict(data))
        if data["raise"]:
            raise ValueError("as told")
        return not data["fail"], "seen " + json.dumps(
            data, sort_keys=True, default=str
        )

    def values(self, route):
        env = self.svc.telem
        reg = env.channel_registry
        return {
            name[len(route) :]: repr(reg.get_item(num).get())
            for name, num in self.ids.items() if name.startswith(route + ".")
        }

    def states(self, route):
        return {
            name[len(route) :]: state
            for name, state in self.svc.server.daemons.states().items()
            if name.startswith(route + ".")
        }

    def everything(self, route):
        return self.values(route), self.states(route), self.seen[route]


def value(rng, texts):
    if texts:
        return rng.choice(["1", "0", "-3", "2.5", "calm", "wild", "", "true",
                           "99999999999999999999", "é"])
    return rng.choice(
        [0, 1, -1, 7, 2.5, 255, 256, -40000, 1 << 40, True, False, "calm",
         "glad", "nope", "3", None, [1], {"a": 1}, rng.randrange(100)]
    )


def command(rng, route, texts, seed):
    """A command; the same for every route but for the names in it."""
    rng = random.Random(seed)
    kind = rng.choice(["channel"] * 5 + ["probe"] * 3 + ["odd"]
                      + ([] if texts else ["daemon"] * 3 + ["help"]))
    data = {}
    name = "channel"
    if kind == "channel":
        ops = ["set", "set", "get", "increment", "decrement", "Set", "nope"]
        if rng.random() < 0.93:
            data["operation"] = rng.choice(ops)
        if rng.random() < 0.93:
            data["channel_name"] = route + "." + rng.choice(
                ["c0", "c1", "c2", "c3", "mood", "mood", "unknown"]
            )
        if rng.random() < 0.8:
            data["value"] = value(rng, texts)
    elif kind == "probe":
        name = route + ".probe"
        for key in rng.sample(["a", "b", "raise", "fail", "é x"], 3):
            if rng.random() < 0.5:
                data[key] = value(rng, texts)
    elif kind == "daemon":
        name = "daemon"
        if rng.random() < 0.95:
            data["operation"] = rng.choice(
                ["pause", "unpause", "stop", "start", "restart", "STOP",
                 "nope"]
            )
        if rng.random() < 0.95:
            data["daemons"] = rng.choice([
                [route + ".app0"], [route + ".app1", route + ".app0"],
                [route + ".nobody"], route + ".app0", [],
            ])
    elif kind == "odd":
        name = rng.choice(["nope", "", "Channel", "channel "])
    else:
        name = "help"
        data["command"] = rng.choice([route + ".probe", "daemon", "nope"])
    out = {"command": name}
    if data or rng.random() < 0.5:
        out["data"] = data
    return kind, out


def normal(route, text):
    """An answer, without the route's names."""
    return text.replace(route + ".", "ROUTE.")


def without_states(kind, route, text):
    """Answers of the daemon command list all daemons' states."""
    if kind == "daemon":
        try:
            data = json.loads(text)
        except ValueError:
            return text
        return json.dumps(
            {"results": data["results"],
             **{k: v for k, v in data.items() if k.startswith("ROUTE.")}},
            sort_keys=True,
        )
    return text


def send(svc, route, cmd, sock, how):
    """(success, answer) by a route."""
    if route == "direct":
        return svc.command.execute(cmd)
    if route == "websocket":
        sock.send(json.dumps(cmd))
        data = json.loads(sock.recv(10))
        svc.ctx.equal(set(data), {"success", "message"}, "keys of an answer")
        return data["success"], data["message"]
    fields = [("command", cmd["command"])]
    if how == "POST" or cmd.get("data"):
        fields += list(cmd.get("data", {}).items())
    svc.rng.shuffle(fields)
    # only the first value counts
    if svc.rng.random() < 0.2:
        fields.append(("command", "not this"))
    status, body = svc.http(how, "command", fields)
    svc.ctx.check(status in (200, 400), "status", status=status)
    return status == 200, body


def commanded(ctx, rng, _index):
    """The same commands by every route do the same."""
    svc = Server(ctx, rng, {
        "http": True, "websocket_command": True,
        "websocket_telemetry": False, "tcp_telemetry": False,
    })
    twins = Twins(ctx, rng, svc)
    svc.start()
    sock = svc.websocket()
    for _ in range(25):
        seed = rng.random()
        texts = rng.random() < 0.5
        routes = ROUTES if texts else ROUTES[1:]
        if not texts:
            # what this route can't express isn't sent
            before = [repr(twins.everything("http"))]
        answers = {}
        others = {r: repr(twins.everything(r)) for r in ROUTES}
        how = rng.choice(["GET", "POST"])
        for route in routes:
            kind, cmd = command(rng, route, texts, seed)
            # nothing but this route's things change
            good, text = send(svc, route, cmd, sock, how)
            answers[route] = (
                good, without_states(kind, route, normal(route, text))
            )
            ctx.count(f"commands.{route}")
            now = {r: repr(twins.everything(r)) for r in ROUTES}
            ctx.equal(
                {r: v for r, v in now.items() if r != route},
                {r: v for r, v in others.items() if r != route},
                "a command affects others", route=route, command=cmd,
            )
            others = now
            ctx.distinct("command", kind, route, good,
                         cmd.get("data", {}).get("operation"))
        good, text = answers["direct"]
        if not good and "http" in answers:
            # an error page has it somewhere
            page = answers["http"][1]
            ctx.check(
                text in html.unescape(page) or text in page,
                "a refused command's reason isn't reported", page=page,
                reason=text, command=cmd,
            )
            answers["http"] = answers["http"][0], text
        ctx.equal(
            {r: a for r, a in answers.items() if a != answers["direct"]}, {},
            "not the direct command's answer", direct=answers["direct"],
            command=cmd,
        )
        want = twins.everything("direct")
        for route in routes[:-1]:
            if twins.everything(route) != want:
                ctx.equal(
                    twins.everything(route), want,
                    "not the direct command's effect", route=route,
                    command=cmd,
                )
        if not texts:
            ctx.equal([repr(twins.everything("http"))], before, "http's")
            # keep the three sets equal
            kind, cmd = command(rng, "http", texts, seed)
            svc.command.execute(cmd)
            ctx.count("commands.direct")
    malformed(ctx, rng, svc, twins, sock)
    svc.server.stop_all()
    svc.idle()


def malformed(ctx, rng, svc, twins, sock):
    """Every message is answered once, in order, whatever it is."""
    before = [repr(twins.everything(r)) for r in ROUTES]
    sent, wants = [], []
    for num in range(rng.randint(3, 12)):
        pick = rng.randrange(4)
        if pick == 0:
            sent.append(json.dumps(
                {"command": "help", "data": {"command": f"nope{num}"}}
            ))
            wants.append((False, f"Unknown command 'nope{num}'"))
        elif pick == 1:
            sent.append(rng.choice(
                ["", "{", "{'command': 'help'}", "nope", b"\xff\xfe\xfa",
                 b"\x80", "[" * 200000, '{"a":' * 50000, "\x00"]
            ))
            wants.append((False, None))
        elif pick == 2:
            sent.append(rng.choice(
                ["1", "null", "[]", '"help"', "{}", '{"command": 1}',
                 '{"command": ["help"]}', '{"data": {}}', "NaN", b"{}"]
            ))
            wants.append((False, None))
        else:
            sent.append(json.dumps({"command": "help"}))
            wants.append((True, None))
    if rng.random() < 0.5:
        for msg in sent:
            sock.send(msg)
        answers = [json.loads(sock.recv(10)) for _ in sent]
    else:
        answers = []
        for msg in sent:
            sock.send(msg)
            answers.append(json.loads(sock.recv(10)))
    for msg, want, answer in zip(sent, wants, answers):
        ctx.equal(set(answer), {"success", "message"}, "keys of an answer")
        ctx.equal(answer["success"], want[0], "success", sent=msg[:60],
                  answer=answer)
        ctx.check(answer["message"], "an empty answer", sent=msg[:60])
        if want[1] is not None:
            ctx.equal(answer["message"], want[1], "answers out of order")
        ctx.count("malformed")
    # and no more than that
    try:
        extra = sock.recv(0.02)
    except TimeoutError:
        extra = None
    ctx.equal(extra, None, "an answer nobody asked for")
    status, _ = svc.http(
        rng.choice(["GET", "POST"]), "command",
        rng.choice([{}, {"data": "x"}, {"command": ""}, {"nope": "help"}]),
    )
    ctx.equal(status, 400, "status of a malformed command")
    ctx.equal([repr(twins.everything(r)) for r in ROUTES], before,
              "malformed commands have an effect")


def busy(ctx, rng, _index):
    """Commands from several clients at once are answered to their senders."""
    svc = Server(ctx, rng, {
        "http": True, "websocket_command": True,
        "websocket_telemetry": False, "tcp_telemetry": False,
    })
    calls = collections.Counter()

    def probe(data):
        calls[data["id"]] += 1
        if data["slow"]:
            time.sleep(0.01)
        return True, "for " + data["id"]

    svc.command.register_consumer("probe", probe)
    assert svc.server.register_application(
        "app", 0.01, lambda *_: None, lambda *_: None
    )
    svc.start()
    count = rng.randint(2, 5)
    clients = rng.randint(2, 5)
    seeds = [rng.random() for _ in range(clients)]

    def client(num):
        own = random.Random(seeds[num])
        route = own.choice(ROUTES)
        sock = svc.websocket() if route == "websocket" else None
        for step in range(count):
            ident = f"{num}.{step}"
            data = {"id": ident}
            if own.random() < 0.3:
                data["slow"] = "1"
            good, text = send(
                svc, route, {"command": "probe", "data": data}, sock, "GET"
            )
            ctx.equal((good, text), (True, "for " + ident),
                      "not the answer to this command", route=route)
            ctx.count(f"commands.{route}")

    outs = sched.stress(
        ctx, rng, [lambda n=n: client(n) for n in range(clients)], 0.002
    )
    sched.no_errors(outs)
    ctx.equal(
        dict(calls),
        {f"{n}.{s}": 1 for n in range(clients) for s in range(count)},
        "commands not executed exactly once",
    )
    svc.server.stop_all()
    svc.idle()
    ctx.distinct("busy", clients, count)


# applications --------------------------------------------------------------------
class App:
    """An application that logs what happens to it."""

    def __init__(self, ctx, rng, svc, name):
        self.ctx, self.svc, self.name = ctx, svc, name
        self.log = []
        self.telem = None
        self.starts = 0
        self.slow = rng.choice([0, 0, 0.02])
        self.rate = rng.choice([0.005, 0.01])
        self.data = None

    def register(self):
        return self.svc.server.register_application(
            self.name, self.rate, self.setup, self.loop
        )

    def setup(self, groups, data):
        if data is not self.data and self.data is not None:
            self.log.append("another's data")
        self.data = data
        if groups is not self.svc.server.channel_groups:
            self.log.append("other groups")
        data["starts"] = (data["starts"] or 0) + 1
        self.log.append("setup begins")
        if self.telem is None:
            # what it depends on is started before
            self.telem = self.svc.telem.get_state_str()
        time.sleep(self.slow)
        self.log.append("setup")

    def loop(self, groups, data):
        if data is not self.data or groups is not (
            self.svc.server.channel_groups
        ):
            self.log.append("other data")
        data["loops"] = (data["loops"] or 0) + 1
        self.log.append("loop")

    def loops(self, log=None):
        return (log or self.log).count("loop")

    def runs(self):
        """Wait for it to run."""
        ctx = self.ctx
        before = self.loops()
        ctx.check(
            core.wait_for(lambda: self.loops() > before + 1),
            "an application doesn't run", app=self.name, log=self.log[-5:],
            states=self.svc.server.daemons.states(),
        )

    def rests(self):
        """It must not run."""
        # the last loop may still be going on
        time.sleep(0.01)
        core.wait_for(lambda: self.steady(), 1.0)
        before = list(self.log)
        time.sleep(0.03)
        self.ctx.equal(self.log, before, "an application runs that shouldn't",
                       app=self.name)

    def steady(self):
        before = len(self.log)
        time.sleep(0.02)
        return len(self.log) == before

    def judge(self):
        """One set-up per start, before the loops."""
        ctx = self.ctx
        log, state, starts, loops = list(self.log), "off", 0, 0
        for item in log:
            if item == "setup begins":
                ctx.check(state in ("off", "on"), "set up twice", log=log[-9:])
                state = "setting up"
                starts += 1
            elif item == "setup":
                ctx.equal(state, "setting up", "set-up", log=log[-9:])
                state = "on"
            else:
                ctx.equal(item, "loop", "not its own data", log=log[-9:])
                ctx.equal(state, "on", "a loop before its set-up",
                          log=log[-9:])
                loops += 1
        ctx.equal(starts, self.starts, "not one set-up per start",
                  app=self.name)
        if self.data is not None:
            ctx.equal(self.data["starts"], starts, "its data isn't kept")
            ctx.equal(self.data["loops"] or 0, loops, "its data isn't kept")
        ctx.count("setups", starts)
        ctx.count("loops", loops)


def metric(svc, name):
    env = svc.telem
    return env.channel_registry.get_item(
        env.channel_registry.get_id(name)
    ).get()


def apps(ctx, rng, _index):
    svc = Server(ctx, rng, {k: False for k in KINDS})
    server = svc.server
    daemons = server.daemons
    names = iter([f"app{i}" for i in range(20)])
    cast = []
    state = {}

    def refuse():
        """A name that's taken changes nothing."""
        name = rng.choice([a.name for a in cast] + ["telemetry", "stream"])
        other = App(ctx, rng, svc, name)
        was = daemons.states(), daemons.get(name)
        starts = metric(svc, f"{name}.starts")
        ctx.check(not other.register(), "a name can be used twice")
        ctx.equal((daemons.states(), daemons.get(name)), was,
                  "refusing an application changes something", app=name)
        ctx.equal(metric(svc, f"{name}.starts"), starts,
                  "refusing an application resets metrics", app=name)
        ctx.equal(
            svc.telem.get_enum_value(
                svc.telem.channel_registry.get_id(f"{name}.state")
            ),
            was[0][name], "the state in telemetry isn't the state", app=name,
        )
        time.sleep(0.02)
        ctx.equal(other.log, [], "a refused application runs")
        ctx.count("refused_apps")

    for _ in range(rng.randint(0, 3)):
        app = App(ctx, rng, svc, next(names))
        ctx.check(app.register(), "an application can't be registered")
        cast.append(app)
        state[app] = "running"
        time.sleep(rng.choice([0, 0.02]))
        ctx.equal(app.log, [], "an application runs before the start")
    if rng.random() < 0.5:
        refuse()
    svc.start()
    for app in cast:
        app.starts = 1
        app.runs()
        ctx.check(app.telem != "idle", "started before what it depends on")
    scale = 1.0
    for _ in range(rng.randint(4, 10)):
        pick = rng.choice(["add", "refuse", "op", "op", "op", "scale"])
        ctx.distinct("apps", pick, len(cast), sorted(state.values()))
        if pick == "add" and len(cast) < 6:
            app = App(ctx, rng, svc, next(names))
            ctx.check(app.register(), "an application can't be registered")
            app.starts = 1
            cast.append(app)
            state[app] = "running"
            app.runs()
        elif pick == "refuse":
            refuse()
        elif pick == "op" and cast:
            app = rng.choice(cast)
            oper = {
                "running": rng.choice(["pause", "stop", "restart"]),
                "paused": "unpause",
                "idle": "start",
            }[state[app]]
            if oper in ("start", "restart"):
                app.starts += 1
            good, text = svc.command.execute({
                "command": "daemon",
                "data": {"operation": oper, "daemons": [app.name]},
            })
            ctx.check(good, "a daemon command fails", oper=oper, text=text)
            state[app] = {"pause": "paused", "stop": "idle"}.get(
                oper, "running"
            )
        elif pick == "scale":
            scale = rng.choice([1.0, 2.0, 8.0, 0.5])
            server.scale_speed(scale)
            ctx.count("scalings")
            if rng.random() < 0.3:
                pace(ctx, svc, scale)
        # a stopped one's last loop may only just have ended
        ctx.equal(
            {a.name: daemons.states()[a.name] for a in cast},
            {a.name: state[a] for a in cast},
            "not the states they were brought to", last=pick,
        )
        for app in cast:
            if state[app] == "running":
                app.runs()
            elif rng.random() < 0.3:
                app.rests()
        for name, now in daemons.states().items():
            if not name.startswith("app"):
                ctx.equal(now, "running", "state of another daemon",
                          daemon=name)
    server.stop_all()
    svc.idle()
    for app in cast:
        app.rests()
        app.judge()
    ctx.distinct("apps.end", len(cast), sorted(state.values()))


def pace(ctx, svc, scale):
    """Managed time goes at the scale (give or take a tick)."""
    for _ in range(20):
        start, managed = time.time(), svc.telem.get_time()
        time.sleep(0.2)
        ratio = (svc.telem.get_time() - managed) / (time.time() - start)
        if abs(ratio / scale - 1) < 0.25:
            ctx.count("paces")
            return
    ctx.fail("managed time doesn't go at its scale", ratio=ratio, scale=scale)


# endings -------------------------------------------------------------------------
def ends(ctx, rng, _index):
    """However it ends, everything does, and every wait with it."""
    way = rng.choice(["stop", "timeout", "shutdown", "both", "with"])
    svc = Server(ctx, rng)
    server = svc.server
    svc.where = {}
    if way == "shutdown":
        svc.enabled["http"] = True
        svc = Server(ctx, rng, svc.enabled)
        server = svc.server
        svc.where = {}
    waits = []
    over = []

    def wait(seconds=None):
        began = time.monotonic()
        server.await_shutdown(seconds)
        over.append((seconds, began, time.monotonic()))
        # whoever waited finds everything stopped
        svc.idle()

    def waiter(seconds=None):
        out = sched.Outcome()

        def run():
            try:
                wait(seconds)
            except BaseException as exc:  # pylint: disable=broad-except
                out.error = exc
            out.done = True

        thread = threading.Thread(target=run, name="vmon-wait", daemon=True)
        thread.start()
        waits.append((thread, out))

    early = rng.randint(0, 2)
    for _ in range(early):
        waiter()
    log = []
    for num in range(rng.randint(0, 2)):
        assert server.register_application(
            f"app{num}", 0.01, lambda *_: None, lambda *_: log.append(1)
        )
    if way == "with":
        with server.booted():
            svc.started()
            during(ctx, rng, svc, waiter)
            if svc.enabled["http"] and rng.random() < 0.15:
                ctx.check(server.pause(), "a server can't be paused")
                ctx.count("paused_ends")
            svc.ended = True
    else:
        svc.start()
        during(ctx, rng, svc, waiter)
        if way != "shutdown" and svc.enabled["http"] and rng.random() < 0.15:
            ctx.check(server.pause(), "a server can't be paused")
            ctx.count("paused_ends")
        svc.ended = True
        noisy = rng.random() < 0.4
        noise = sched.Noise(rng, 0.02) if noisy else None
        if noise:
            noise.__enter__()
        try:
            if way == "timeout":
                seconds = rng.choice([0.0, 0.05, 0.15])
                for _ in range(rng.randint(1, 3)):
                    waiter(seconds)
                if rng.random() < 0.5:
                    wait(seconds)
            elif way == "shutdown":
                shut(ctx, rng, svc)
            else:
                stoppers = [
                    threading.Thread(target=server.stop_all)
                    for _ in range(rng.randint(1, 3) if way == "both" else 0)
                ]
                for thread in stoppers:
                    thread.start()
                if way == "both" and svc.enabled["http"]:
                    waiter(0.0)
                server.stop_all()
                svc.idle()
                for thread in stoppers:
                    thread.join()
            for thread, _ in waits:
                thread.join(20)
        finally:
            if noise:
                noise.__exit__()
    for thread, out in waits:
        thread.join(20)
        ctx.check(not thread.is_alive(), "a wait for the server doesn't end",
                  way=way, stacks=core.stacks())
        if out.error is not None:
            raise out.error
        ctx.count("waits_ended")
    if way == "timeout":
        # nothing else stops it earlier in this case
        first = min(began + s for s, began, _ in over if s is not None)
        for seconds, began, end in over:
            ctx.check(
                end >= first - 0.001, "a wait ends early", seconds=seconds,
                began=began, end=end, first=first,
            )
    svc.idle()
    # later waits end at once, later stops do nothing
    for _ in range(rng.randint(0, 2)):
        began = time.monotonic()
        server.await_shutdown(rng.choice([None, 30]))
        ctx.check(time.monotonic() - began < 25, "a late wait waits")
        ctx.count("waits_ended")
    if rng.random() < 0.3:
        server.stop_all()
        svc.idle()
    count = len(log)
    time.sleep(0.03)
    ctx.equal(len(log), count, "applications run after the stop")
    alive = [
        t.name for t in threading.enumerate()
        if t.name in server.daemons.states() or t.name == server.name
    ]
    ctx.equal(alive, [], "threads run after the stop")
    ctx.count("ends." + {"both": "stop", "with": "stop"}.get(way, way))
    ctx.distinct("ends", way, early, len(waits), sorted(svc.enabled.items()))


def during(ctx, rng, svc, waiter):
    """Things to be going on when it ends."""
    server = svc.server
    for _ in range(rng.randint(0, 2)):
        waiter()
    for kind in svc.where:
        if rng.random() < 0.4 and kind != "http":
            svc.reach(kind)  # and stay connected
    if rng.random() < 0.3:
        names = list(server.daemons.states())
        for name in rng.sample(names, rng.randint(1, 3)):
            if name not in ("command",):
                server.daemons.get(name).pause()
        ctx.count("paused_ends")
    if rng.random() < 0.3:
        name = rng.choice(list(server.daemons.states()))
        if name.startswith("app"):
            server.daemons.get(name).stop()
    pick = rng.random()
    if pick < 0.2:
        stall(ctx, rng, svc)
    elif pick < 0.35:
        clog(ctx, rng, svc)


def stall(ctx, rng, svc):
    """Clients that don't read anything, and enough frames for them."""
    from vtelem.channel.framer import build_dummy_frame

    kinds = [k for k in ("tcp_telemetry", "websocket_telemetry")
             if k in svc.where]
    for kind in kinds:
        if svc.server.daemons.states()[svc.names[kind]] == "paused":
            continue
        for _ in range(rng.randint(1, 2)):
            sock = core.retry(
                lambda kind=kind: socket.create_connection(svc.where[kind], 5)
            )
            ctx.defer(sock.close)
            if kind == "websocket_telemetry":
                sock.sendall(
                    f"GET / HTTP/1.1\r\nHost: {HOST}\r\nUpgrade: websocket\r\n"
                    "Connection: Upgrade\r\nSec-WebSocket-Version: 13\r\n"
                    "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
                    .encode()
                )
    if kinds:
        time.sleep(0.05)
    frame = build_dummy_frame(60000)
    frames = svc.telem.frame_queue
    # megabytes fill the sockets' buffers at once, then the queues
    for _ in range(rng.choice([300, 1500])):
        try:
            frames.put(frame, timeout=0.3)
        except queue.Full:
            ctx.count("full_queues")
            break
    ctx.count("stalled_ends")


def clog(ctx, rng, svc):
    """Nobody takes frames: the queue gets full."""
    from vtelem.channel.framer import build_dummy_frame

    stream = svc.server.daemons.get("stream")
    if svc.server.daemons.states()["stream"] != "running":
        return
    ctx.check(stream.stop(), "the stream writer can't be stopped")
    frames = svc.telem.frame_queue
    frame = build_dummy_frame(100)
    try:
        while True:
            frames.put(frame, timeout=0.05)
    except queue.Full:
        pass
    time.sleep(rng.choice([0, 0.1]))
    # others go on regardless
    if svc.server.daemons.states()["command"] == "running":
        answer = svc.command.execute({"command": "help"})
        ctx.check(answer[0], "no help", answer=answer)
    ctx.count("full_ends")


def shut(ctx, rng, svc):
    """A shutdown with the right id, after others."""
    for _ in range(rng.randint(0, 4)):
        fields = rng.choice([
            {}, {"app_id": svc.app + 1}, {"app_id": svc.app - 1},
            {"app_id": -svc.app}, {"app_id": ""}, {"app_id": "x"},
            {"app_id": f"{svc.app}x"}, {"app_id": f"{svc.app}.5"},
            {"app_idx": svc.app}, {"id": svc.app},
        ])
        status, text = svc.http("POST", "shutdown", fields)
        ctx.equal(status, 400, "status of a shutdown with a wrong id",
                  fields=fields)
        ctx.check(text, "an empty answer")
        ctx.count("refused_shutdowns")
    if rng.random() < 0.3:
        status, _ = svc.http("GET", "shutdown", {"app_id": svc.app})
        ctx.equal(status, 404, "a GET request for a shutdown")
        ctx.count("refused_shutdowns")
    states = svc.server.daemons.states()
    ctx.equal(set(states.values()) - {"paused", "idle"}, {"running"},
              "a refused shutdown stops daemons", states=states)
    svc.reach("http")
    status, text = svc.http("POST", "shutdown", {"app_id": svc.app}, 30.0)
    ctx.equal((status, text), (200, "success"), "a shutdown fails")
    svc.idle()


# the command line ----------------------------------------------------------------
def process(ctx, rng, _index):
    """The command-line application."""
    path = tempfile.mkdtemp(prefix="vmon-c24-")
    ctx.defer(shutil.rmtree, path, True)
    way = ["uptime", "interrupt", "shutdown"][_index % 3]
    for attempt in range(3):
        why = once(ctx, rng, path, way)
        if why is None:
            break
    else:
        ctx.fail("the application doesn't end as told", way=way, why=why)
    ctx.count("processes")
    ctx.distinct("process", way)


def once(ctx, rng, path, way):
    num = net.port()
    basis = rng.choice([0.5, 0.25])
    uptime = rng.choice([0.2, 0.6])
    either = lambda *names: rng.choice(names)  # noqa: E731
    args = [sys.executable, "-W", "ignore", "-X", f"pycache_prefix={path}",
            "-m", "vtelem", either("-p", "--port"), str(num),
            either("-a", "--app-id"), str(basis)]
    where_to = "0.0.0.0"
    if rng.random() < 0.7:
        where_to = HOST
        args += [either("-i", "--interface"), "lo"]
    if rng.random() < 0.7:
        args += [either("-t", "--tick"), "0.01", "--telem-rate", "0.05"]
    if rng.random() < 0.3:
        args += ["--metrics-rate", "0.1"]
    if rng.random() < 0.3:
        args += [either("-C", "--dir"), path]
    if rng.random() < 0.3:
        args += [either("-v", "--verbose")]
    more = {"--ws-cmd-port": None, "--ws-tlm-port": None,
            "--tcp-tlm-port": None}
    for option in list(more):
        if rng.random() < 0.6:
            more[option] = net.port()
            args += [option, str(more[option])]
    if way == "uptime":
        args += [either("-u", "--uptime"), str(uptime)]
    if rng.random() < 0.5:
        args += ["--time-scale", rng.choice(["2.0", "0.5"])]
    env = dict(os.environ, PYTHONPATH=core.REPO)
    began = time.monotonic()
    with open(os.path.join(path, "log"), "wb") as log:
        proc = subprocess.Popen(
            args, cwd=path, env=env, stdout=log, stderr=log,
            preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL),
        )
    try:
        if way != "uptime":
            from vtelem.telemetry.environment import TelemetryEnvironment

            app = TelemetryEnvironment(
                64, 0.0, metrics_rate=1.0, app_id_basis=basis
            ).app_id.get()

            def request(method, what, fields=""):
                conn = http.client.HTTPConnection(HOST, num, timeout=10)
                try:
                    conn.request(
                        method, what, fields,
                        {"Content-Type": "application/x-www-form-urlencoded"},
                    )
                    resp = conn.getresponse()
                    return resp.status, resp.read().decode()
                finally:
                    conn.close()

            try:
                answer = core.retry(lambda: request("GET", "/id"), 60)
            except OSError as exc:
                return f"not reachable: {exc!r}"
            ctx.equal(answer, (200, str(app)), "identification")
            listed = {}

            def complete():
                status, text = request("GET", "/registries")
                ctx.equal(status, 200, "status of the registries")
                listed.update(json.loads(text)["services"]["services"])
                return len(listed) == 4

            if not core.wait_for(complete, 20.0):
                return f"not all services are listed: {listed}"
            ctx.equal({tuple(a)[0] for v in listed.values() for a in v},
                      {where_to}, "address of the services", args=args)
            ports = {a[1] for v in listed.values() for a in v}
            ctx.check(
                {num, *[v for v in more.values() if v is not None]} <= ports,
                "not the ports asked for", ports=ports, args=args,
            )
            for option, where in more.items():
                if where is not None:
                    try:
                        core.retry(
                            lambda where=where: socket.create_connection(
                                (HOST, where), 5
                            ).close(), 20
                        )
                    except OSError as exc:
                        return f"{option} has no effect: {exc!r}"
                    ctx.count("options")
            # it may only just be about to wait
            time.sleep(0.5)
            if proc.poll() is not None:
                return "it ended on its own"
            if way == "interrupt":
                proc.send_signal(signal.SIGINT)
            else:
                answer = request("POST", "/shutdown", f"app_id={app + 1}")
                ctx.equal(answer[0], 400, "status with a wrong id")
                try:
                    request("POST", "/shutdown", f"app_id={app}")
                except (OSError, http.client.HTTPException):
                    pass  # it may be gone before it answers
        try:
            code = proc.wait(40)
        except subprocess.TimeoutExpired:
            return "it doesn't end"
        if code != 0:
            with open(os.path.join(path, "log"), "rb") as log:
                return f"exit {code}: {log.read()[-600:]}"
        if way == "uptime" and time.monotonic() - began < uptime:
            return "it ended early"
        return None
    finally:
        proc.kill()
        proc.wait()


def usage(ctx, rng, _index):
    """The command line, used wrongly or for information only."""
    path = tempfile.mkdtemp(prefix="vmon-c24-")
    ctx.defer(shutil.rmtree, path, True)
    env = dict(os.environ, PYTHONPATH=core.REPO)
    for args, okay in (
        (["--version"], True),
        (["-h"], True),
        (rng.choice([["-p", "x"], ["-p"], ["-t", "1s"], ["-u", "now"]]), False),
        (rng.choice([["-i", "no-such"], ["--no-such"], ["x"], ["-a", ""]]),
         False),
    ):
        proc = subprocess.run(
            [sys.executable, "-W", "ignore", "-X", f"pycache_prefix={path}",
             "-m", "vtelem"] + args,
            cwd=path, env=env, capture_output=True, timeout=120, check=False,
        )
        ctx.equal(proc.returncode == 0, okay, "exit status", args=args)
        ctx.check(proc.stdout + proc.stderr, "it ends without a word")
        ctx.count("usages")


UNITS = {
    "served": (served, 48, 800),
    "commanded": (commanded, 24, 500),
    "busy": (busy, 16, 300),
    "apps": (apps, 32, 500),
    "ends": (ends, 80, 1500),
    "process": (process, 6, 60),
    "usage": (usage, 2, 12),
}
