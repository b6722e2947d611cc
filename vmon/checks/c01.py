"""C01: wire layout, packing and size of dispatched data and event frames."""

from vmon import gen, sched, wire

RULE = (
    "a case is an environment (random channels of all types, mtu, crc, app id "
    "basis) driven through several dispatches with random sets and mtu "
    "updates; distinct = (frame type, crc, element types of one frame, slack)"
)
ASSUME = [
    "values written are within their types (C05)",
    "fewer than 256 events and frames wait at any time",
]
REQUIRE = {
    "frames.data": 50,
    "frames.event": 50,
    "splits": 50,
    "mtu_shrinks": 10,
    "exact_fits": 5,
    "interleavings": 20,
    "padded": 20,
}
NAMES = list(wire.TYPES)


def prim(name):
    from vtelem.enums.primitive import Primitive

    return Primitive[name.upper()]


def drain(env):
    out = []
    while not env.frame_queue.empty():
        out.append(env.frame_queue.get(timeout=5))
    return out


def basis_id(basis):
    """Application identifier implied by a basis, as documented."""
    basis = abs(basis)
    if basis > 1.0:
        basis = 1.0 / basis
    return int(65535.0 * basis)


def check_frames(ctx, frames, types, crc, app_id, mtu, when, pad=None):
    """Layout of all frames of one dispatch; returns (data, event) elements."""
    elems = {wire.DATA: [], wire.EVENT: []}
    previous = None
    for frame in frames:
        raw, size = frame.raw
        ctx.check(
            size <= mtu, "a frame is longer than the mtu", size=size, mtu=mtu
        )
        body = bytes(raw[:size])
        ctx.equal(len(body), size, "a frame's size isn't its byte count")
        whole, whole_size = frame.with_size_header()
        ctx.equal(
            (bytes(whole), whole_size),
            (wire.SIZE.pack(size) + body, size + 4),
            "stream form isn't the length and the frame",
        )
        try:
            got = wire.parse(body, types, crc, app_id)
        except wire.Bad as exc:
            ctx.fail("a frame isn't in the documented layout", why=str(exc), raw=body)
        ctx.check(
            wire.millis_ok(got["stamp"], when),
            "a frame doesn't carry its dispatch time",
            stamp=got["stamp"],
            time=when,
        )
        kind = got["type"]
        ctx.check(got["elems"], "an empty frame was dispatched", raw=body)
        cost = wire.data_cost if kind == wire.DATA else wire.event_cost
        first = cost(types[got["elems"][0][0]])
        if previous is not None and previous[0] == kind:
            ctx.count("splits")
            ctx.check(
                previous[1] + first > mtu,
                "a frame ends though the next element would have fit",
                used=previous[1],
                next_element=first,
                mtu=mtu,
            )
        if previous is not None and previous[0] != kind:
            ctx.check(
                not elems[kind], "data and event frames are mixed up"
            )
        if size == mtu:
            ctx.count("exact_fits")
        if pad is not None and pad.random() < 0.1:
            amount = pad.choice([0, 1, pad.randrange(200), mtu])
            want = min(amount, mtu - size)
            ctx.equal(frame.pad(amount), want, "amount of padding")
            raw, after = frame.raw
            ctx.equal(
                (bytes(raw[:after]), after), (body + bytes(want), size + want),
                "a padded frame isn't the frame and zeros",
            )
            ctx.count("padded", want > 0)
        previous = (kind, size)
        elems[kind].extend(got["elems"])
        ctx.count("frames.data" if kind == wire.DATA else "frames.event")
        ctx.count("elements", len(got["elems"]))
        ctx.distinct(
            kind, crc, tuple(types[e[0]] for e in got["elems"]), mtu - size
        )
    return elems[wire.DATA], elems[wire.EVENT]


def make(rng, crc, metrics=None, least=None):
    from vtelem.channel import Channel
    from vtelem.telemetry.environment import TelemetryEnvironment

    count = rng.choice([1, 2, 3, 5, 8, 13, 20, 40])
    kinds = [rng.choice(NAMES) for _ in range(count)]
    if rng.random() < 0.3:
        kinds = [kinds[0]] * count
    if least is None:
        least = 15 + (4 if crc else 0) + 34
    mtu = rng.choice(
        [
            least,
            least + rng.randrange(40),
            rng.randrange(least, 200),
            rng.randrange(least, 1500),
            1428,
        ]
    )
    basis = rng.choice([None, 0.5, rng.random(), -rng.random(), 1.0, 7.5])
    when = gen.time_value(rng)
    early = rng.randrange(count + 1) if rng.random() < 0.4 else 0
    initial = [
        Channel(f"chan{i}", prim(kinds[i]), 0.0) for i in range(early)
    ]
    env = TelemetryEnvironment(
        mtu,
        when,
        metrics,
        initial or None,
        app_id_basis=basis,
        use_crc=crc,
    )
    ids = [env.channel_registry.get_id(f"chan{i}") for i in range(early)]
    tracked = [False] * early
    for i in range(early, count):
        track = rng.random() < 0.7
        ids.append(env.add_channel(f"chan{i}", prim(kinds[i]), 0.0, track))
        tracked.append(track)
    return env, ids, kinds, tracked, mtu, basis, when, least


def history(ctx, rng, index):
    crc = rng.random() < 0.6
    env, ids, kinds, tracked, mtu, basis, when, least = make(rng, crc)
    app_id = env.app_id.get()
    ctx.check(0 <= app_id <= 65535, "application id out of range", app=app_id)
    if basis is not None:
        ctx.equal(app_id, basis_id(basis), "unexpected application id")
    types = dict(zip(ids, kinds))
    values = {i: wire.TYPES[k][2]() for i, k in types.items()}
    times = {i: 0.0 for i in ids}
    pending = []
    for step in range(rng.choice([2, 4, 8])):
        for _ in range(rng.randrange(0, 60)):
            if len(pending) >= 200:
                break
            pos = rng.randrange(len(ids))
            ident, kind = ids[pos], kinds[pos]
            if rng.random() < 0.2:
                when += rng.random()
                env.set_time(when)
            val = gen.value(rng, kind)
            ctx.check(env.set_now(ident, val), "a valid value was refused")
            if tracked[pos] and values[ident] != val:
                pending.append(
                    (ident, (values[ident], times[ident]), (val, when))
                )
            values[ident], times[ident] = val, when
        if rng.random() < 0.4:
            new = rng.choice(
                [mtu + rng.randrange(500), rng.randrange(least, 1500), mtu]
            )
            env.handle_new_mtu(new)
            if new < mtu:
                ctx.count("mtu_shrinks")
            mtu = min(mtu, new)
        when += rng.choice([0.0, 0.001, rng.random(), 1000.0])
        env.set_time(when)
        if rng.random() < 0.5:
            total = env.dispatch(when, should_log=rng.random() < 0.5)
        else:
            total = env.dispatch_now(should_log=False)
        frames = drain(env)
        ctx.equal(total, len(frames), "dispatch misreports its frames")
        data, events = check_frames(
            ctx, frames, types, crc, app_id, mtu, when, rng
        )
        want = [(i, wire.on_wire(types[i], values[i])) for i in ids]
        ctx.equal(data, want, "data frames don't hold what was emitted")
        ctx.equal(len(events), len(pending), "wrong number of events")
        for got, (ident, prev, curr) in zip(events, pending):
            kind = types[ident]
            ok = (
                got[0] == ident
                and got[1][0] == wire.on_wire(kind, prev[0])
                and got[2][0] == wire.on_wire(kind, curr[0])
                and wire.millis_ok(got[1][1], prev[1])
                and wire.millis_ok(got[2][1], curr[1])
            )
            ctx.check(
                ok, "an event frame doesn't hold the event",
                got=got, expected=(ident, prev, curr),
            )
        pending = []
    ctx.sample({"kinds": kinds, "mtu": mtu, "crc": crc, "app_id": app_id})


def metrics(ctx, rng, index):
    """With metrics, the environment's own channels are framed as well."""
    crc = rng.random() < 0.5
    env, ids, kinds, _, mtu, _, when, _ = make(rng, crc, rng.random())
    enum_at = len(ids)
    app_id = env.app_id.get()
    for _ in range(4):
        for _ in range(rng.randrange(10)):
            pos = rng.randrange(enum_at)
            env.set_now(ids[pos], gen.value(rng, kinds[pos]))
        when += rng.random() * 2
        env.set_time(when)
        env.dispatch_now(should_log=False)
        types = {}
        for ident in range(env.channel_registry.count()):
            kind = env.channel_registry.get_channel_type(ident)
            types[ident] = kind.name.lower()
        check_frames(ctx, drain(env), types, crc, app_id, mtu, when)


def concurrent(ctx, rng, index):
    """An mtu update during a dispatch."""
    crc = rng.random() < 0.5
    state = {}
    seed = rng.random()

    def fresh():
        import random

        own = random.Random(seed)
        env, ids, kinds, _, mtu, _, when, least = make(own, crc)
        for ident, kind in zip(ids, kinds):
            env.set_now(ident, gen.value(own, kind))
        small = least + own.randrange(10)
        state.update(
            env=env, types=dict(zip(ids, kinds)), mtu=mtu, when=when,
            small=min(small, mtu), ids=ids,
        )
        return [
            lambda: env.dispatch(when, False),
            lambda: env.handle_new_mtu(small),
        ]

    def verify(outs, _):
        sched.no_errors(outs)
        env, when = state["env"], state["when"]
        frames = drain(env)
        app_id = env.app_id.get()
        data, _ = check_sizes(ctx, frames, state, crc, app_id)
        ctx.equal(
            [e[0] for e in data], state["ids"], "elements lost or repeated"
        )
        # afterwards, the smaller one is in force
        env.dispatch(when + 1, False)
        check_frames(
            ctx, drain(env), state["types"], crc, app_id, state["small"],
            when + 1,
        )

    sched.sweep(ctx, fresh, verify, rng, points=50)


def check_sizes(ctx, frames, state, crc, app_id):
    largest = max(
        [f.raw[1] for f in frames], default=0
    )
    mtu = state["small"] if largest <= state["small"] else state["mtu"]
    out = ([], [])
    for frame in frames:
        ctx.check(
            frame.raw[1] <= mtu, "a frame is longer than the mtu", mtu=mtu
        )
        raw, size = frame.raw
        try:
            got = wire.parse(raw[:size], state["types"], crc, app_id)
        except wire.Bad as exc:
            ctx.fail("a frame isn't in the documented layout", why=str(exc))
        out[got["type"] == wire.EVENT].extend(got["elems"])
    return out


UNITS = {
    "history": (history, 3600, 60000),
    "metrics": (metrics, 300, 3000),
    "concurrent": (concurrent, 30, 300),
}
