"""C23: the HTTP API answers every request exactly once, correctly framed."""

import json
import os
import random
import socket
import ssl
import threading
import time
import urllib.parse

from vmon import core, net, sched

HERE = os.path.dirname(os.path.abspath(__file__))
RULE = (
    "a case sends generated requests over raw (or TLS) sockets to an http "
    "daemon with generated handlers, reads all bytes until the server closes, "
    "parses them strictly as one response, and compares status, headers, body "
    "and what the handlers saw with the model; distinct = (kind of request, "
    "kind of target, status, encoding)"
)
ASSUME = [
    "handlers answer a boolean and encodable text",
    "a query parameter and a posted field don't share a name",
    "paths are requested without percent-encoding, as registered",
    "posted bodies announce their length (no chunked encoding)",
    "multipart boundaries appear at the start of a line only as delimiters",
]
REQUIRE = {
    "requests": 2500,
    "responses_parsed": 2500,
    "handler_calls": 1300,
    "status_200": 1400,
    "status_400": 600,
    "status_404": 450,
    "head_requests": 300,
    "multipart_parts": 300,
    "fields": 2000,
    "hostile": 300,
    "concurrent_requests": 300,
    "tls_requests": 200,
    "index_reads": 200,
    "restarts": 40,
}
CHARS = "abcXYZ019 _-.~!*'()&=+%#;:/?@$,<>\"\\éß日本\U0001f600"
METHODS = ("GET", "POST")


def text(rng, longest=12, chars=CHARS):
    return "".join(rng.choice(chars) for _ in range(rng.randint(0, longest)))


class Response:
    """One response, parsed strictly; everything the server sent is in it."""

    def __init__(self, ctx, raw, method, note):
        self.raw = raw
        head, sep, body = raw.partition(b"\r\n\r\n")
        ctx.check(sep, "a request isn't answered", raw=raw, request=note)
        lines = head.split(b"\r\n")
        status = lines[0].split(b" ", 2)
        ctx.check(
            len(status) == 3
            and status[0] in (b"HTTP/1.0", b"HTTP/1.1")
            and status[1].isdigit(),
            "a response has no status line", raw=raw, request=note,
        )
        self.status = int(status[1])
        self.headers = {}
        for line in lines[1:]:
            name, colon, value = line.partition(b":")
            key = name.decode("latin-1").lower()
            ctx.check(
                colon and name and key not in self.headers,
                "a response has a malformed or repeated header",
                line=line, request=note,
            )
            self.headers[key] = value.strip().decode("latin-1")
        self.body = body
        length = self.headers.get("content-length")
        ctx.check(
            length is not None and length.isdigit(),
            "a response doesn't announce its length",
            headers=self.headers, request=note,
        )
        if method == "HEAD":
            ctx.equal(
                body, b"", "a HEAD request is answered with a body",
                request=note,
            )
        else:
            ctx.equal(
                len(body), int(length),
                "a response isn't as long as it announces", request=note,
                end=body[-60:],
            )
        self.length = int(length)
        ctx.count("responses_parsed")
        ctx.count(f"status_{self.status}")


class Handler:
    """A registered handler that records what it's given."""

    def __init__(self, rng, method, path, kind=None):
        self.method, self.path = method, path
        self.kind = kind or rng.choice(["ok"] * 5 + ["fail", "raise"])
        self.calls = []
        self.lock = threading.Lock()
        self.description = rng.choice(
            ["no description", "plain", "with: colon", "é latin", "日本 wide"]
        )
        self.type = rng.choice(
            ["application/json", "text/plain", "application/octet-stream"]
        )
        self.extra = rng.choice(
            [None, None, {"X-Extra": "a: b"}, {"X-A": "1", "X-B": "2"}]
        )
        pick = rng.random()
        if pick < 0.15:
            self.body = ""
        elif pick < 0.25:
            self.body = text(rng, 8) * rng.choice([1, 3000, 30000])
        else:
            self.body = text(rng, 60, CHARS + "\r\n\x00")

    def register(self, daemon):
        daemon.add_handler(
            self.method, self.path, self, self.description, self.extra,
            self.type,
        )

    @property
    def where(self):
        return "/" + self.path.lower()

    def __call__(self, request, data):
        missing = data["a field that was not sent"]
        seen = {
            k: v for k, v in data.items() if k != "a field that was not sent"
        }
        with self.lock:
            self.calls.append((request.command, request.path, seen, missing))
        if self.kind == "raise":
            raise KeyError("nothing: \r\n it \u65e5")
        return self.kind == "ok", self.body

    def expect(self, ctx, resp, method, note):
        if self.kind != "ok":
            ctx.equal(resp.status, 400, "a failed request's status",
                      request=note, handler=self.kind)
            return
        ctx.equal(resp.status, 200, "a handled request's status", request=note)
        body = self.body.encode()
        if method != "HEAD":
            ctx.equal(resp.body, body, "not the handler's body", request=note)
        ctx.equal(resp.length, len(body), "not the length of the body",
                  request=note)
        ctx.check(
            resp.headers.get("content-type", "").split(";")[0] == self.type,
            "not the handler's content type",
            headers=resp.headers, expected_type=self.type, request=note,
        )
        for key, value in (self.extra or {}).items():
            ctx.equal(resp.headers.get(key.lower()), value,
                      "a header registered for a handler", request=note)


class Service:
    """An http daemon, its handlers, and a client."""

    def __init__(self, ctx, rng, tls=False, count=None):
        from vtelem.classes.http_request_mapper import (
            MapperAwareRequestHandler,
        )
        from vtelem.daemon.http import HttpDaemon
        from vtelem.mtu import Host

        self.ctx, self.rng, self.tls = ctx, rng, tls
        self.daemon = core.retry(
            lambda: HttpDaemon(
                "http", Host("127.0.0.1", 0), MapperAwareRequestHandler
            )
        )
        self.daemon.server.handle_error = lambda *_: ctx.count("broken_pipes")
        self.client = None
        if tls:
            self.daemon.use_tls(
                os.path.join(HERE, "..", "data", "tls.key"),
                os.path.join(HERE, "..", "data", "tls.cert"),
            )
            self.client = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            self.client.check_hostname = False
            self.client.verify_mode = ssl.CERT_NONE
        self.handlers = {}
        for num in range(rng.randint(2, 7) if count is None else count):
            self.add(self.new_handler(num))
        ctx.defer(self.close)

    def new_handler(self, num, kind=None):
        rng = self.rng
        path = rng.choice(
            [f"p{num}", f"Mixed/Case{num}", f"a/b/c{num}", f"dash-{num}.x"]
        )
        return Handler(rng, rng.choice(METHODS), path, kind)

    def add(self, handler):
        handler.register(self.daemon)
        self.handlers[(handler.method, handler.where)] = handler

    def close(self):
        self.daemon.stop()
        self.daemon.close()

    @property
    def address(self):
        return self.daemon.server.server_address[:2]

    def connect(self, seconds=20.0):
        sock = core.retry(
            lambda: socket.create_connection(self.address, seconds)
        )
        if self.client is not None:
            sock = self.client.wrap_socket(sock)
            self.ctx.count("tls_requests")
        return sock

    def exchange(self, raw, cut=None, half_close=False):
        """Send bytes (in portions), return everything the server sends."""
        with self.connect() as sock:
            try:
                pos = 0
                for end in list(cut or []) + [len(raw)]:
                    sock.sendall(raw[pos:end])
                    pos = end
                    if cut:
                        time.sleep(0.001)
                if half_close:
                    sock.shutdown(socket.SHUT_WR)
            except OSError:
                self.ctx.count("refused_while_sending")
            out, over = net.read_all(sock, 20.0)
        self.ctx.check(over, "the server doesn't answer and close",
                       request=raw[:500], got_bytes=out[:500])
        return out

    def request(self, method, target, headers=(), body=b"", cut=None):
        head = f"{method} {target} HTTP/{self.rng.choice(['1.0', '1.1'])}\r\n"
        head += "Host: localhost\r\n"
        head += "".join(f"{k}: {v}\r\n" for k, v in headers)
        raw = head.encode() + b"\r\n" + body
        if cut is None and self.rng.random() < 0.15:
            cut = sorted(self.rng.sample(range(1, len(raw)), 2))
        self.ctx.count("requests")
        if method == "HEAD":
            self.ctx.count("head_requests")
        return Response(
            self.ctx, self.exchange(raw, cut), method, raw[:3000]
        )

    def alive(self):
        """The server still serves."""
        resp = self.request("GET", "/")
        self.ctx.equal(resp.status, 200, "the server stopped to serve")
        return json.loads(resp.body)


def fields(rng, prefix, count=None):
    """Named values: {name: [values]}."""
    out = {}
    for num in range(rng.randint(0, 4) if count is None else count):
        name = prefix + str(num) + text(rng, 5)
        out[name] = [text(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    return out


def urlencode(rng, data):
    """The values of a name stay in order; names are mixed."""
    pairs, pools = [], {k: list(v) for k, v in data.items()}
    quote = rng.choice([urllib.parse.quote_plus, urllib.parse.quote])
    while pools:
        name = rng.choice(list(pools))
        value = pools[name].pop(0)
        if not pools[name]:
            del pools[name]
        pair = quote(name, safe="")
        if value or rng.random() < 0.7:
            pair += "=" + quote(value, safe="")
        pairs.append(pair)
    return "&".join(pairs)


BOUND = "abcdefXYZ0123456789"
BOUND_ANY = BOUND + "()+_,-./:=?"


def multipart(ctx, rng):
    """(content type, body, expected parts)."""
    special = rng.random() < 0.4
    chars = BOUND_ANY if special else BOUND
    boundary = "".join(rng.choice(chars) for _ in range(rng.randint(1, 40)))
    if rng.random() < 0.3:
        boundary = "-" * rng.randint(1, 20) + boundary
    shown = boundary
    if any(c not in BOUND + "-" for c in boundary) or rng.random() < 0.3:
        shown = f'"{boundary}"'
    params = [f"boundary={shown}"]
    if rng.random() < 0.2:
        params.insert(rng.randint(0, 1), "charset=utf-8")
    kind = rng.choice(["multipart/form-data"] * 4 + ["Multipart/Form-Data"])
    ctype = kind + "; " + rng.choice(["; ", ";"]).join(params)

    body = ""
    if rng.random() < 0.15:
        body += rng.choice([
            "a preamble\r\n",
            "\r\nContent-Disposition: form-data; name=\"no\"\r\n\r\nno\r\n",
        ])
    parts = []
    for num in range(rng.randint(0, 4)):
        lines = []
        for _ in range(rng.randint(1, 4)):
            line = text(rng, 14)
            pick = rng.random()
            if pick < 0.15:
                line = "x --" + boundary
            elif pick < 0.3:
                line = ""
            elif pick < 0.35:
                line = "Name: value"
            elif pick < 0.4:
                line = "--"
            if line.startswith("--" + boundary):
                line = "x" + line
            lines.append(line)
        content = "\r\n".join(lines)
        safe = [c for c in CHARS if c not in '"\\']
        name = f"n{num}" + text(rng, 6, safe)
        disposition = {"type": "form-data", "name": name}
        shown = f'form-data; name="{name}"'
        if rng.random() < 0.4:
            disposition["filename"] = "f" + text(rng, 8, safe) + ".bin"
            shown += f'; filename="{disposition["filename"]}"'
        headers = {"content-disposition": disposition}
        raw = [("Content-Disposition", shown)]
        if rng.random() < 0.4:
            headers["content-type"] = 'text/plain; charset="utf-8"'
            raw.append(("Content-Type", headers["content-type"]))
        if rng.random() < 0.3:
            headers["x-time"] = "12:30:45"
            raw.insert(rng.randint(0, len(raw)), ("X-Time", "12:30:45"))
        body += f"--{boundary}\r\n"
        for key, value in raw:
            key = rng.choice([key, key.lower(), key.upper()])
            body += f"{key}: {value}\r\n"
        body += "\r\n" + content + "\r\n"
        parts.append((headers, content))
        ctx.count("multipart_parts")
    if not parts:
        body += f"--{boundary}\r\n"
    body += f"--{boundary}--"
    body += rng.choice(["\r\n", "", "\r\nan epilogue\r\n"])
    return ctype, body.encode(), parts


def post_body(ctx, rng):
    """(kind, headers, body, expected data)."""
    kind = rng.choice(
        ["none", "url", "url", "url", "multi", "multi", "other", "large"]
    )
    if kind == "none":
        return kind, [], b"", {}
    if kind == "url":
        data = fields(rng, "f")
        ctx.count("fields", len(data))
        body = urlencode(rng, data).encode()
        ctype = "application/x-www-form-urlencoded" + rng.choice(
            ["", "", "; charset=utf-8", ";charset=UTF-8"]
        )
        if rng.random() < 0.2:
            ctype = ctype.title()
    elif kind == "multi":
        ctype, body, parts = multipart(ctx, rng)
        data = {"parts": parts}
    elif kind == "other":
        ctype, body = "application/json", json.dumps({"a": 1}).encode()
        data = {}
    else:
        ctype = rng.choice(["application/json", "text/plain"])
        body, data = b"x" * rng.choice([70000, 3000000]), {}
    headers = [("Content-Type", ctype), ("Content-Length", str(len(body)))]
    rng.shuffle(headers)
    return kind, headers, body, data


def judge_call(ctx, handler, before, method, data, note):
    calls = handler.calls[before:]
    ctx.equal(len(calls), 1, "times that a handler was called", request=note)
    ctx.count("handler_calls")
    command, path, seen, missing = calls[0]
    ctx.equal((command, path), (method, handler.where),
              "not the request as sent", request=note)
    ctx.check(missing is None, "a field that was not sent has a value")
    seen = dict(seen)
    if "parts" in data:
        want = data["parts"]
        got = [
            (part["headers"], "\r\n".join(part["body"]))
            for part in seen.pop("parts", [])
        ]
        ctx.equal(got, want, "multipart parts not as sent", request=note)
        data = {k: v for k, v in data.items() if k != "parts"}
    ctx.equal(seen, data, "fields not as sent", request=note)


def one_request(ctx, rng, service):
    """A well-formed request to some path."""
    method = rng.choice(["GET", "GET", "POST", "POST", "HEAD"])
    table = "GET" if method == "HEAD" else method
    names = [where for meth, where in service.handlers if meth == table]
    pick = rng.random()
    target_kind = "known"
    if pick < 0.75 and names:
        where = rng.choice(names)
    else:
        target_kind = rng.choice(["unknown", "case", "other method", "longer"])
        where = "/nothing/here" + str(rng.randrange(100))
        every = [where for _, where in service.handlers]
        if target_kind == "case":
            where = rng.choice(every).upper()
        elif target_kind == "longer":
            where = rng.choice(every) + "/x"
        elif target_kind == "other method":
            other = [w for m, w in service.handlers if m != table]
            where = rng.choice(other or [where])
        if rng.random() < 0.05:
            where += "x" * 3000
    handler = service.handlers.get((table, where))
    query = {}
    target = where
    if rng.random() < 0.5:
        query = fields(rng, "q")
        ctx.count("fields", len(query))
        target += "?" + urlencode(rng, query)
    if rng.random() < 0.05:
        target = "http://localhost" + target
    kind, headers, body, data = "none", [], b"", {}
    if method == "POST":
        kind, headers, body, data = post_body(ctx, rng)
    if rng.random() < 0.3:
        headers = headers + [("X-Other", "1"), ("Connection", "keep-alive")]
    before = len(handler.calls) if handler is not None else 0
    resp = service.request(method, target, headers, body)
    note = (method, target[:300], headers, body[:1500])
    ctx.distinct(
        "request", method, target_kind, kind, resp.status, bool(query),
        service.tls, handler.kind if handler else None,
    )
    if handler is None:
        ctx.equal(resp.status, 404, "an unknown path's status", request=note)
        return
    handler.expect(ctx, resp, method, note)
    judge_call(ctx, handler, before, method, {**data, **query}, note)


def judge_index(ctx, service):
    index = service.alive()
    ctx.count("index_reads")
    want = {"GET": [("/", "request index")]}
    for handler in service.handlers.values():
        want.setdefault(handler.method, []).append(
            (handler.where, handler.description)
        )
    got = {
        method: sorted((e["path"], e.get("description")) for e in entries)
        for method, entries in index.items()
        if entries
    }
    ctx.equal(got, {k: sorted(v) for k, v in want.items()},
              "the index isn't what's registered")


def totals(service):
    return {key: len(h.calls) for key, h in service.handlers.items()}


def malformed(ctx, rng, service):
    """A post whose data is malformed: 400, and nothing is called."""
    posts = [h for h in service.handlers.values() if h.method == "POST"]
    if not posts:
        handler = service.new_handler(90)
        handler.method = "POST"
        service.add(handler)
        posts = [handler]
    handler = rng.choice(posts)
    body = b"a=1&b=2"
    ctype, length = "application/x-www-form-urlencoded", None
    half = False
    kind = rng.choice(["length", "negative", "encoding", "short", "parts"])
    if kind == "length":
        length = rng.choice(["x", "1x", "", "0x10", "1.5"])
    elif kind == "negative":
        length = rng.choice(["-1", "-5"])
    elif kind == "encoding":
        body = b"a=" + bytes([rng.randrange(0x80, 0x100), 0x41])
    elif kind == "short":
        length = str(len(body) + rng.randint(1, 2000))
        half = True
    else:
        ctype = "multipart/form-data; boundary=XX"
        body = (
            b'--XX\r\nContent-Disposition: form-data; name="a"\r\n\r\n'
            b"\xff\xfe\r\n--XX--\r\n"
        )
    if length is None:
        length = str(len(body))
    before = totals(service)
    raw = (
        f"POST {handler.where} HTTP/1.1\r\nHost: x\r\nContent-Type: {ctype}"
        f"\r\nContent-Length: {length}\r\n\r\n"
    ).encode() + body
    if half and service.tls:
        return
    ctx.count("requests")
    resp = Response(
        ctx, service.exchange(raw, half_close=half), "POST", raw
    )
    ctx.equal(resp.status, 400, "malformed data's status", request=raw)
    ctx.equal(totals(service), before, "malformed data is handled",
              request=raw)
    ctx.count("hostile")
    ctx.distinct("malformed", kind, length)


def hostile(ctx, rng, service):
    """Something that's not a request; the server goes on."""
    before = totals(service)
    kind = rng.choice(
        ["garbage", "abort", "silent", "partial", "method", "line", "headers"]
    )
    if kind == "silent":
        core.retry(
            lambda: socket.create_connection(service.address, 5)
        ).close()
    elif kind in ("abort", "partial"):
        sock = core.retry(
            lambda: socket.create_connection(service.address, 5)
        )
        raw = b"POST /p0 HTTP/1.1\r\nContent-Length: 100\r\nContent-Type: "
        sock.sendall(raw[: rng.randint(1, len(raw))])
        if kind == "abort":
            sock.setsockopt(
                socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0"
            )
            sock.close()
        else:
            # it stays open while others are served
            ctx.defer(sock.close)
    else:
        raw = {
            "garbage": bytes(rng.randrange(256) for _ in range(40)) + b"\r\n",
            "method": rng.choice(["PUT", "DELETE", "get", "BREW"]).encode()
            + b" /p0 HTTP/1.1\r\n\r\n",
            "line": b"GET /" + b"x" * 70000 + b" HTTP/1.1\r\n\r\n",
            "headers": b"GET / HTTP/1.1\r\n" + b"a: b\r\n" * 200 + b"\r\n",
        }[kind]
        out = service.exchange(raw, half_close=not service.tls)
        if kind == "method":
            resp = Response(ctx, out, "PUT", raw)
            ctx.check(resp.status >= 400, "an unsupported method succeeds",
                      raw=raw)
    ctx.equal(totals(service), before, "a handler was called", kind=kind)
    ctx.count("hostile")
    ctx.distinct("hostile", kind)


def requests(ctx, rng, _index, tls=False):
    """A sequence of requests of all kinds."""
    service = Service(ctx, rng, tls)
    ctx.check(service.daemon.start(), "the http daemon doesn't start")
    where = "%s:%d" % service.address
    ctx.equal(service.daemon.get_base_url(),
              f"http{'s' if tls else ''}://{where}/", "base url")
    judge_index(ctx, service)
    for _ in range(24):
        pick = rng.random()
        if pick < 0.78:
            one_request(ctx, rng, service)
        elif pick < 0.86:
            malformed(ctx, rng, service)
        elif pick < 0.94:
            hostile(ctx, rng, service)
        else:
            # registering a path again replaces its handler
            service.add(service.new_handler(rng.randrange(8)))
            judge_index(ctx, service)
    service.alive()
    ctx.sample({"handlers": {str(k): len(h.calls)
                             for k, h in service.handlers.items()}})


def tls(ctx, rng, index):
    requests(ctx, rng, index, True)


def concurrent(ctx, rng, _index):
    """Many clients at once, among them some that stall."""
    service = Service(ctx, rng, rng.random() < 0.2, 0)
    shared = {}
    lock = threading.Lock()

    def echo(request, data):
        key = data["id"][0]
        with lock:
            shared[key] = shared.get(key, 0) + 1
        if data["slow"]:
            time.sleep(float(data["slow"][0]))
        if data["bad"]:
            raise ValueError(key)
        return True, key + "|" + request.command + "|" + "y" * int(
            data["size"][0]
        )

    for method in METHODS:
        service.daemon.add_handler(method, "echo", echo)
    assert service.daemon.start()
    for _ in range(rng.randint(0, 3)):
        sock = core.retry(
            lambda: socket.create_connection(service.address, 5)
        )
        sock.sendall(b"GET /echo HT"[: rng.randint(0, 12)])
        ctx.defer(sock.close)
    clients = rng.randint(3, 8)
    count = rng.randint(2, 5)
    seeds = [rng.random() for _ in range(clients)]

    def client(num):
        own = random.Random(f"{seeds[num]}")
        for step in range(count):
            key = f"{num}.{step}"
            method = own.choice(["GET", "POST", "HEAD"])
            size = own.choice([0, 10, 100000])
            sent = {"id": key, "size": str(size)}
            if own.random() < 0.3:
                sent["slow"] = "0.02"
            bad = own.random() < 0.2
            if bad:
                sent["bad"] = "1"
            data = urllib.parse.urlencode(sent)
            head = f"{method} /echo"
            body = b""
            extra = ""
            if method == "POST":
                body = data.encode()
                extra = (
                    "Content-Type: application/x-www-form-urlencoded\r\n"
                    f"Content-Length: {len(body)}\r\n"
                )
            else:
                head += "?" + data
            raw = f"{head} HTTP/1.1\r\nHost: x\r\n{extra}\r\n".encode() + body
            resp = Response(ctx, service.exchange(raw), method, raw)
            ctx.count("concurrent_requests")
            ctx.count("requests")
            ctx.equal(resp.status, 400 if bad else 200, "status", request=raw)
            if not bad and method != "HEAD":
                ctx.equal(
                    resp.body,
                    f"{key}|{method}|{'y' * size}".encode(),
                    "not the response to this client's request",
                    request=raw,
                )

    outs = sched.stress(
        ctx, rng, [lambda n=n: client(n) for n in range(clients)], 0.01
    )
    sched.no_errors(outs)
    ctx.equal(
        shared,
        {f"{n}.{s}": 1 for n in range(clients) for s in range(count)},
        "requests not handled exactly once",
    )
    service.alive()
    ctx.distinct("concurrent", clients, count, service.tls)


def life(ctx, rng, _index):
    """Requests around stops and starts."""
    service = Service(ctx, rng, rng.random() < 0.4, 0)
    daemon = service.daemon
    started, go = threading.Event(), threading.Event()

    def slow(_, __):
        started.set()
        go.wait(10)
        return True, "late but complete" * 1000

    daemon.add_handler("GET", "slow", slow)
    for turn in range(rng.randint(2, 4)):
        ctx.check(daemon.start(), "the http daemon doesn't start")
        ctx.count("restarts")
        for _ in range(rng.randint(0, 3)):
            service.alive()
        if rng.random() < 0.5:
            # a request in progress is still answered
            started.clear()
            go.clear()
            answers = []
            thread = threading.Thread(
                target=lambda: answers.append(
                    service.exchange(b"GET /slow HTTP/1.1\r\n\r\n")
                )
            )
            thread.start()
            ctx.check(started.wait(10), "a request isn't handled")
            ctx.check(daemon.stop(), "the http daemon can't be stopped")
            go.set()
            thread.join()
            resp = Response(ctx, answers[0], "GET", "slow")
            ctx.equal(resp.body, b"late but complete" * 1000, "body")
            ctx.count("requests")
            ctx.distinct("life", turn, "busy", service.tls)
        else:
            if rng.random() < 0.3:
                # whoever doesn't send anything doesn't keep it from stopping
                sock = core.retry(
                    lambda: socket.create_connection(service.address, 5)
                )
                ctx.defer(sock.close)
            ctx.check(daemon.stop(), "the http daemon can't be stopped")
            ctx.distinct("life", turn, "idle", service.tls)
        ctx.equal(daemon.get_state_str(), "idle", "state after a stop")
        ctx.check(not daemon.stop(), "a stopped http daemon can be stopped")
    ctx.check(daemon.close(), "an idle http daemon can't be closed")
    ctx.check(not daemon.close(), "an http daemon can be closed twice")
    ctx.check(not net.accepts(service.address[1]),
              "a closed http daemon accepts connections")


UNITS = {
    "requests": (requests, 200, 6000),
    "tls": (tls, 10, 200),
    "concurrent": (concurrent, 40, 800),
    "life": (life, 30, 500),
}
