"""Regenerate MANIFEST.json: every property with a module in vmon/checks."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C01": "wire monitor on dispatched frames (independent decoder), preemption sweeps",
    "C02": "differential monitor of decoding against an independent decoder, under mutation",
    "C03": "online schedule model (exact due times) against decoded frames",
    "C04": "history checker: changes vs decoded events, exactly once and in order, under preemption",
    "C05": "value and buffer model run alongside the real objects",
    "C06": "reassembly oracle over generated chunkings",
    "C07": "fragment-level delivery oracle: content, number, completion, callbacks once",
    "C08": "crash injection at every file operation, durability oracle on reopened caches",
    "C09": "delivery log checker with fault injection and preemption",
    "C10": "callback-log checker (exactly once, ordered) with raising handlers and many submitters",
    "C11": "sequential model of channel commands against values and results",
    "C12": "trace monitor of daemon states and work instances under preemption",
    "C13": "trace monitor of daemon operations against the dependency graph",
    "C14": "exact time model in virtual time; interval conservation under preemption",
    "C15": "call-trace monitor of state-machine iterations; atomicity under preemption",
    "C16": "registry model; linearizability-style check of concurrent histories",
    "C17": "enum and enum-channel model run alongside the real objects",
    "C18": "round-trip and schema oracle over generated objects and mutations",
    "C19": "snapshot-consistency checker for group reads, writes and dispatches under preemption",
    "C20": "lock-order (lockdep) monitor, lock-free-afterwards probes and progress watchdog",
    "C21": "conservation checker: metrics at rest vs recorded history, under preemption",
    "C22": "end-to-end delivery log checker over loopback sockets",
    "C23": "raw-socket HTTP response monitor against a handler-call log",
    "C24": "system-level monitor of servers: states, sockets, responses",
    "C25": "record/replay oracle with corruption, truncation and limits",
    "C26": "client-table model, socket-close log, fault injection",
    "C27": "pace monitor in virtual time against an exact schedule model",
    "C28": "coroutine and connection log checker over sessions, stops injected at lines of a start",
}
NOTE = {}
DEFAULT_NOTE = (
    "Held on every execution of the generated workload and explored "
    "interleavings (counts in the evidence file); says nothing about inputs or "
    "interleavings not driven. Trusts CPython, the harness's own model in vmon/ "
    "and the assumptions listed in the evidence file."
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as src:
        props = [json.loads(line)["id"] for line in src if line.strip()]
    checks, missing = [], []
    for prop in props:
        path = os.path.join(ROOT, "vmon", "checks", prop.lower() + ".py")
        if not os.path.exists(path):
            missing.append(
                {
                    "property": prop,
                    "reason": "no check has been built for it yet",
                }
            )
            continue
        checks.append(
            {
                "property": prop,
                "quick_cmd": f"./check.sh {prop}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {prop}",
                "technique": "runtime monitoring: " + TECHNIQUE[prop],
                "level": "exploration",
                "level_note": NOTE.get(prop, DEFAULT_NOTE),
            }
        )
    out = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": missing,
        "notes": (
            "Checks import vtelem from /repo's working tree (bytecode caches "
            "ignored); interleavings are controlled with sys.monitoring, so no "
            "hooks in /repo are needed. See DESIGN.md."
        ),
    }
    with open(
        os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8"
    ) as dst:
        json.dump(out, dst, indent=1)
        dst.write("\n")


if __name__ == "__main__":
    main()
