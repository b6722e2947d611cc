"""C15: state machines transition atomically, when both sides agree."""

import threading

from vmon import sched

RULE = (
    "a case builds a machine whose routines log their calls and decide as "
    "the iteration's data says, and judges returned pairs, call log, data "
    "and metrics against a model, in one thread, preempted at every line, or "
    "from many threads; distinct = (states, present routines, decision, "
    "outcome) or preemption point"
)
ASSUME = [
    "a state belongs to one machine",
    "edge routines return booleans, run routines strings",
]
REQUIRE = {
    "iterations": 4000,
    "transitions": 600,
    "refused_exits": 150,
    "refused_entries": 150,
    "metric_checks": 800,
    "interleavings": 100,
    "stress_runs": 8,
    "raised": 30,
    "unknown": 10,
}


class Lab:
    """A machine whose routines do as the data says."""

    def __init__(self, rng, env=None, size=None, every=False, hidden=0.25):
        from vtelem.classes.state import State
        from vtelem.classes.state_machine import StateMachine

        self.log = []
        self.names = [
            f"s{n}" for n in range(size or rng.choice([1, 2, 3, 5]))
        ]
        rng.shuffle(self.names)
        self.has = {}
        states = []
        self.boom = None
        for name in self.names:
            has = {
                what: every or rng.random() > hidden
                for what in ("run", "entering", "leaving")
            }
            self.has[name] = has
            kwargs = {"env": env} if env is not None else {}
            for what in has:
                if has[what]:
                    kwargs[what] = getattr(self, what)(name)
            states.append(State(name, **kwargs))
        self.initial = self.names[0]
        kwargs = {}
        if rng.random() < 0.5:
            self.initial = rng.choice(self.names)
            kwargs["initial_state"] = states[self.names.index(self.initial)]
        if rng.random() < 0.5:
            kwargs["initial_data"] = {"first": 1, "tag": None}
        self.first_data = kwargs.get("initial_data", {})
        if env is not None:
            kwargs["env"] = env
        self.machine = StateMachine("m", states, **kwargs)
        self.made = {s.name: s for s in states}

    def note(self, what, name, arg, data):
        self.log.append(
            (what, name, arg, data["tag"], threading.current_thread().name,
             dict(data), id(data))
        )
        if self.boom == what:
            raise KeyError("boom")

    def run(self, name):
        def func(data):
            self.note("run", name, None, data)
            data["seen"] = data["tag"]
            return data["want"] or name
        return func

    def entering(self, name):
        def func(prev, data):
            self.note("entering", name, prev, data)
            return data.get("enter", True)
        return func

    def leaving(self, name):
        def func(new, data):
            self.note("leaving", name, new, data)
            return data.get("leave", True)
        return func

    def take(self):
        log = self.log[:]
        self.log.clear()
        return log


def expect(lab, state, data):
    """What an iteration should do: calls, end state, outcome."""
    has = lab.has
    calls = []
    want = state
    if has[state]["run"]:
        calls.append(("run", state, None))
        want = data["want"] or state
    if want == state:
        return calls, state, "stay"
    left = True
    if has[state]["leaving"]:
        calls.append(("leaving", state, want))
        left = data["leave"]
    if not left:
        return calls, state, "exit_fails"
    entered = True
    if has[want]["entering"]:
        calls.append(("entering", want, state))
        entered = data["enter"]
    if not entered:
        return calls, state, "enter_fails"
    return calls, want, "transitions"


class Counts:
    """Expected metrics."""

    def __init__(self, lab):
        self.val = {}
        for name in lab.names:
            for what in ("enter_attempts", "enter_successes",
                         "exit_attempts", "exit_successes", "iterations"):
                self.val[f"state.{name}.{what}"] = 0
        for what in ("enter_fails", "exit_fails", "transitions", "iterations"):
            self.val[f"machine.m.{what}"] = 0
        self.val[f"state.{lab.initial}.enter_attempts"] = 1
        self.val[f"state.{lab.initial}.enter_successes"] = 1

    def add(self, state, want, outcome):
        val = self.val
        val[f"state.{state}.iterations"] += 1
        val["machine.m.iterations"] += 1
        if outcome == "stay":
            return
        val[f"machine.m.{outcome}"] += 1
        val[f"state.{state}.exit_attempts"] += 1
        if outcome == "exit_fails":
            return
        val[f"state.{state}.exit_successes"] += 1
        val[f"state.{want}.enter_attempts"] += 1
        if outcome == "transitions":
            val[f"state.{want}.enter_successes"] += 1

    def judge(self, ctx, env, **data):
        got = {}
        for name in self.val:
            chan = env.channel_registry.get_id(name)
            ctx.check(chan is not None, "a metric is missing", metric=name)
            got[name] = env.get_value(chan)
        wrong = {
            n: (got[n], self.val[n]) for n in got if got[n] != self.val[n]
        }
        ctx.check(not wrong, "metrics are wrong", wrong=wrong, **data)
        ctx.count("metric_checks", len(got))


def new_env(rng):
    from vtelem.telemetry.environment import TelemetryEnvironment

    return TelemetryEnvironment(
        2**10, 0.0, rng.choice([None, 1.0]), app_id_basis=1.0
    )


def plan_for(rng, lab, tag):
    return {
        "tag": tag,
        "want": rng.choice(lab.names + [None]),
        "leave": rng.random() < 0.75,
        "enter": rng.random() < 0.75,
    }


def scripted(ctx, rng, index):
    env = new_env(rng) if index % 2 else None
    lab = Lab(rng, env)
    counts = Counts(lab)
    log = lab.take()
    want = [("entering", lab.initial)] if lab.has[lab.initial]["entering"] else []
    ctx.equal([e[:2] for e in log], want, "other routines on construction")
    state = lab.initial
    with lab.machine.data() as shared:
        ident = id(shared)
        ctx.equal(dict(shared), lab.first_data | (
            {"tag": None} if "tag" in shared else {}
        ), "other initial data")
    known = dict(lab.first_data)
    plan = None
    for num in range(40):
        if plan is None or rng.random() < 0.7:
            plan = plan_for(rng, lab, num)
            given = dict(plan)
            if rng.random() < 0.2:
                given[f"k{rng.randrange(3)}"] = num
        elif rng.random() < 0.5:
            # only some of it changes
            given = {"leave": rng.random() < 0.5, "enter": rng.random() < 0.5}
        else:
            given = rng.choice([None, {}])
        if rng.random() < 0.2:
            with lab.machine.data() as shared:
                shared["hand"] = known["hand"] = num
        if given:
            plan = {**plan, **{k: given[k] for k in given if k in plan}}
            known.update(given)
        kept = dict(given) if given is not None else None
        if given is None and rng.random() < 0.5:
            pair = lab.machine.run()
        else:
            pair = lab.machine.run(given)
        ctx.equal(given, kept, "the given data was changed")
        calls, end, outcome = expect(lab, state, plan)
        log = lab.take()
        ctx.equal(
            [e[:3] for e in log], calls, "other routines were called",
            state=state, plan=plan,
        )
        for entry in log:
            if entry[0] == "run":
                ctx.equal(
                    {k: v for k, v in entry[5].items() if v is not None},
                    {k: v for k, v in known.items() if v is not None},
                    "a routine saw other data",
                )
                known["seen"] = entry[3]
            ctx.equal(entry[6], ident, "a routine got other data")
        ctx.equal(
            (pair[0].name, pair[1].name), (state, end),
            "an iteration returned another pair", plan=plan,
        )
        ctx.check(
            pair[0] is lab.made[state] and pair[1] is lab.made[end],
            "an iteration returned other states",
        )
        ctx.equal(
            lab.machine.current_state, end, "the machine is in another state"
        )
        target = next((c[1] for c in calls if c[0] == "entering"), None)
        counts.add(state, plan["want"] or target or end, outcome)
        ctx.count("iterations")
        ctx.count(
            {"exit_fails": "refused_exits", "enter_fails": "refused_entries",
             "transitions": "transitions", "stay": "stays"}[outcome]
        )
        ctx.distinct(
            len(lab.names), tuple(sorted(lab.has[state].items())),
            plan["leave"], plan["enter"], outcome, env is None, given is None,
        )
        state = end
        if env is not None and rng.random() < 0.3:
            counts.judge(ctx, env)
            if rng.random() < 0.5:
                env.dispatch_now(should_log=False)
                while not env.frame_queue.empty():
                    env.frame_queue.get()
    if env is not None:
        counts.judge(ctx, env)
    if index < 3:
        ctx.sample({"states": lab.names, "has": lab.has, "end": state})


def raising(ctx, rng, index):
    """A routine raises: nothing moves, nothing stays locked."""
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine

    lab = Lab(rng, None, size=rng.choice([2, 3]), every=True)
    lab.take()
    state = lab.initial
    for num in range(12):
        boom = rng.choice([None, "run", "leaving", "entering"])
        plan = plan_for(rng, lab, num)
        lab.boom = boom
        calls, end, outcome = expect(lab, state, plan)
        kinds = [c[0] for c in calls]
        if boom in kinds:
            try:
                lab.machine.run(plan)
                ctx.fail("an error of a routine got lost", routine=boom)
            except KeyError:
                ctx.count("raised")
            ctx.equal(
                [e[:3] for e in lab.take()], calls[: kinds.index(boom) + 1],
                "routines were called after one raised",
            )
        elif rng.random() < 0.2:
            # no state has this name
            lab.boom = None
            plan["want"] = rng.choice(["none", state + "x", "S0"])
            try:
                lab.machine.run(plan)
                ctx.fail("an unknown state wasn't refused")
            except AssertionError:
                ctx.count("unknown")
            ctx.equal(
                [e[:3] for e in lab.take()], [("run", state, None)],
                "routines were called for an unknown state",
            )
        else:
            pair = lab.machine.run(plan)
            ctx.equal(
                (pair[0].name, pair[1].name), (state, end), "another pair"
            )
            lab.take()
            state = end
        ctx.equal(lab.machine.current_state, state, "another state")
        if rng.random() < 0.3:
            # from any thread
            got = []
            lab.boom = None
            plan = plan_for(rng, lab, -num)
            _, end, _ = expect(lab, state, plan)
            thread = threading.Thread(
                target=lambda: got.append(lab.machine.run(plan)), daemon=True
            )
            thread.start()
            thread.join(20)
            ctx.check(got, "a raising routine left the machine locked")
            lab.take()
            state = end
    # an initial state that refuses, unknown initial states
    for states, kwargs in (
        ([State("a", entering=lambda *_: False)], {}),
        ([State("a"), State("b")], {"initial_state": State("c")}),
        ([], {}),
    ):
        try:
            StateMachine("bad", states, **kwargs)
            ctx.fail("an impossible machine was constructed")
        except AssertionError:
            ctx.count("refused")


def replay(ctx, lab, log, results, counts, trace):
    """
    Judge a log of iterations from several threads: one at a time, each with
    its own data, chained from state to state.
    """
    state = lab.initial
    idx, done = 0, 0
    while idx < len(log):
        first = log[idx]
        ctx.equal(first[0], "run", "iterations interleaved", trace=trace)
        plan = results[first[3]][0]
        ctx.equal(
            first[4], results[first[3]][2],
            "an iteration ran with another iteration's data", trace=trace,
        )
        calls, end, outcome = expect(lab, state, plan)
        part = log[idx: idx + len(calls)]
        ctx.equal(
            [e[:3] for e in part], calls,
            "iterations interleaved or called other routines", trace=trace,
        )
        ctx.check(
            all(e[3] == first[3] and e[4] == first[4] for e in part),
            "an iteration's data changed under it", trace=trace,
        )
        pair = results[first[3]][1]
        ctx.equal(
            (pair[0].name, pair[1].name), (state, end),
            "an iteration returned another pair", trace=trace,
        )
        counts.add(state, plan["want"] or end, outcome)
        ctx.count("iterations")
        if outcome != "stay":
            ctx.count(
                {"exit_fails": "refused_exits",
                 "enter_fails": "refused_entries",
                 "transitions": "transitions"}[outcome]
            )
        state = end
        idx += len(calls)
        done += 1
    ctx.equal(done, len(results), "iterations were lost", trace=trace)
    ctx.equal(lab.machine.current_state, state, "another state", trace=trace)


def preempted(ctx, rng, index):
    """Iterations of two threads, preempted at any line."""
    state = {}
    with_env = index % 3 == 0
    with_data = index % 4 == 1

    def make():
        env = new_env(rng) if with_env else None
        lab = Lab(rng, env, size=rng.choice([2, 3]), every=True)
        lab.take()
        results = {}
        torn = []

        def worker(which, rounds):
            plans = [
                plan_for(rng, lab, (which, n)) for n in range(rounds)
            ]

            def run():
                for plan in plans:
                    pair = lab.machine.run(plan)
                    results[plan["tag"]] = (plan, pair, f"op{which}")
            return run

        def peek():
            for _ in range(2):
                with lab.machine.data() as shared:
                    if shared["tag"] != shared["seen"]:
                        torn.append(dict(shared))
                    shared["peeked"] = 1

        state.update(lab=lab, env=env, results=results, torn=torn)
        return [worker(0, 2), peek if with_data else worker(1, 2)]

    def verify(outs, runner):
        sched.no_errors(outs)
        lab = state["lab"]
        counts = Counts(lab)
        ctx.check(
            not state["torn"], "data was visible in the middle of an iteration",
            seen=state["torn"], trace=runner.trace,
        )
        replay(
            ctx, lab, lab.take(), state["results"], counts, runner.trace
        )
        if state["env"] is not None:
            counts.judge(ctx, state["env"], trace=runner.trace)
        ctx.distinct("preempted", with_env, tuple(runner.trace[:1]))

    quick = ctx.tier == "quick"
    sched.sweep(
        ctx, make, verify, rng, 25 if quick else None, 5 if quick else 30
    )


def stressed(ctx, rng, index):
    env = new_env(rng)
    lab = Lab(rng, env, size=3, every=True)
    lab.take()
    results = {}
    plans = [
        [plan_for(rng, lab, (which, n)) for n in range(12)]
        for which in range(4)
    ]

    def body(which):
        def run():
            for plan in plans[which]:
                pair = lab.machine.run(plan)
                results[plan["tag"]] = (plan, pair, f"w{which}")
        return run

    def dispatching():
        for _ in range(6):
            env.dispatch_now(should_log=False)
            while not env.frame_queue.empty():
                env.frame_queue.get()

    outs = sched.stress(
        ctx, rng, [body(n) for n in range(4)] + [dispatching], 0.03
    )
    sched.no_errors(outs)
    counts = Counts(lab)
    replay(ctx, lab, lab.take(), results, counts, None)
    counts.judge(ctx, env)


UNITS = {
    "scripted": (scripted, 1440, 9000),
    "raising": (raising, 180, 600),
    "preempted": (preempted, 36, 160),
    "stressed": (stressed, 48, 300),
}
