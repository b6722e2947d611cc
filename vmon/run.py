"""Run one property's check: run.py <id> [--replay FILE] (see core.py)."""

import argparse
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from vmon import core  # noqa: E402

TITLES = {}


def known_findings(prop):
    """Committed findings of this property: [(matcher dict, text)]."""
    path = os.path.join(core.ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as src:
        data = json.load(src)
    return [f for f in data.get("findings", []) if f["property"] == prop]


def matches(finding, violation):
    """Findings are keyed by mechanism: unit and exact message."""
    return finding["unit"] == violation["unit"] and violation[
        "message"
    ].startswith(finding["message"])


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--replay")
    parser.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    parser.add_argument("--unit")
    args = parser.parse_args()

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = args.prop
    started = time.monotonic()

    module = importlib.import_module(f"vmon.checks.{prop.lower()}")
    if hasattr(module, "before_import"):
        module.before_import()
    try:
        core.prepare_import()
        if hasattr(module, "setup"):
            module.setup()
    except Exception as exc:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
        if core.is_env_error(exc):
            return 2
        # code that can't even be imported provides none of its guarantees
        os.makedirs(os.path.join(core.OUT, "replay"), exist_ok=True)
        path = os.path.join(core.OUT, "replay", f"{prop}-0.json")
        with open(path, "w", encoding="utf-8") as out:
            json.dump(
                {
                    "property": prop,
                    "kind": "import",
                    "message": repr(exc),
                    "traceback": traceback.format_exc(),
                },
                out,
                indent=1,
            )
        print(f"VIOLATION property={prop} replay={path}")
        return 1

    if args.replay:
        with open(args.replay, encoding="utf-8") as src:
            rep = json.load(src)
        seed, tier = rep["seed"], rep["tier"]
        tasks = [(rep["unit"], rep["index"])]
        jobs = 1
    else:
        tasks = []
        for name, spec in module.UNITS.items():
            if args.unit and name != args.unit:
                continue
            total = spec[1] if tier == "quick" else spec[2]
            if callable(total):
                total = total()
            tasks.extend((name, i) for i in range(total))
        # interleave units, so that a time limit cuts all of them evenly
        order = {}
        for name, i in tasks:
            order.setdefault(name, []).append(i)
        tasks = sorted(
            tasks, key=lambda t: (t[1] + 0.5) / len(order[t[0]])
        )
        jobs = max(1, min(args.jobs, len(tasks)))

    limit = getattr(module, "LIMIT", {"quick": 60, "thorough": 700})[tier]
    deadline = time.monotonic() + limit
    hard = time.monotonic() + limit + 150

    tmp = tempfile.mkdtemp(prefix=f"vmon-{prop}-")
    scratch = os.path.join(tmp, "scratch")
    os.mkdir(scratch)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    pids = {}
    sys.stdout.flush()
    for job in range(jobs):
        out_path = os.path.join(tmp, f"{job}.json")
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            ctx = core.Ctx(prop, tier, seed)
            ctx.scratch = scratch
            core.run_worker(module, ctx, tasks[job::jobs], deadline, out_path)
        pids[pid] = out_path

    problems = []
    pending = dict(pids)
    while pending:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in pending:
            path = pending.pop(pid)
            if status != 0:
                problems.append(f"worker ended with status {status}")
            continue
        if time.monotonic() > hard:
            for pid in pending:
                os.kill(pid, signal.SIGUSR1)
            time.sleep(1.0)
            for pid in pending:
                os.kill(pid, signal.SIGKILL)
                problems.append("worker ran out of time")
            hard += 1000
        time.sleep(0.02)

    merged = core.Ctx(prop, tier, seed)
    seen = set()
    for path in pids.values():
        if not os.path.exists(path):
            problems.append("a worker left no result")
            continue
        with open(path, encoding="utf-8") as src:
            blob = json.load(src)
        for key, val in blob["counters"].items():
            merged.counters[key] = merged.counters.get(key, 0) + val
        seen.update(blob["seen"])
        for smp in blob["samples"]:
            merged.sample(smp)
        merged.violations.extend(blob["violations"])
        merged.notes.extend(blob["notes"])
    shutil.rmtree(tmp, ignore_errors=True)

    # verdict
    known, fresh = [], []
    findings = known_findings(prop)
    for vio in merged.violations:
        hit = [f for f in findings if matches(f, vio)]
        (known if hit else fresh).append(vio)
    for fin in findings:
        print(f"KNOWN-FINDING: property={prop} {fin['text']}")

    os.makedirs(core.OUT, exist_ok=True)
    rdir = os.path.join(core.OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    status = 0
    if not args.replay:
        for name in os.listdir(rdir):
            if name.startswith(f"{prop}-"):
                os.remove(os.path.join(rdir, name))
    for num, vio in enumerate(fresh[:5]):
        path = args.replay or os.path.join(rdir, f"{prop}-{num}.json")
        if not args.replay:
            with open(path, "w", encoding="utf-8") as out:
                json.dump(vio, out, indent=1)
        print(f"  {vio['unit']}[{vio['index']}]: {vio['message']}")
        print(json.dumps(vio["data"], indent=1)[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        status = 1

    missing = {}
    if not args.replay and not args.unit:
        for key, least in module.REQUIRE.items():
            if merged.counters.get(key, 0) < least:
                missing[key] = merged.counters.get(key, 0)
    if status == 0 and (missing or problems):
        print(f"INCONCLUSIVE {prop}: unreached={missing} problems={problems}")
        for note in merged.notes[:10]:
            print("  note:", note)
        status = 2

    wall = time.monotonic() - started
    if not args.replay:
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": merged.counters.get("cases", 0),
                "distinct_nontrivial": len(seen),
                "rule": module.RULE,
                "samples": merged.samples or ["(none recorded)"],
                "observed": dict(sorted(merged.counters.items())),
                "inconclusive": merged.notes[:20],
                "known_findings_seen": len(known),
            },
            "assumptions": module.ASSUME,
            "wall_s": round(wall, 3),
            "violations": len(fresh),
        }
        with open(
            os.path.join(core.OUT, f"{prop}.json"), "w", encoding="utf-8"
        ) as out:
            json.dump(evidence, out, indent=1)
    print(
        f"{prop} {tier} seed={seed}: {merged.counters.get('cases', 0)} cases, "
        f"{len(seen)} distinct, "
        f"{merged.counters.get('oracle_evaluations', 0)} oracle evaluations, "
        f"{merged.counters.get('skipped_for_time', 0)} skipped, "
        f"{wall:.1f} s -> {['held', 'VIOLATED', 'inconclusive'][status]}"
    )
    return status


if __name__ == "__main__":
    sys.exit(main())
