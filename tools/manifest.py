#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
checks = {
    "C02": ("registration orders (ELF constructor order as the simulator decides) and message sequences",
            "Every run is a fresh process whose registration constructors ran in an order drawn from the seed; verdicts are compared with the set of linked implementations. Trusts the reference list generated from the same macro that registers. Registration after main (dlopen) is not simulated."),
    "C03": ("payloads, formats, transports that fragment and interrupt, and delivery forms",
            "Round trips through serde_json (str, reader, value), ciborium, bincode, postcard and two simulated formats over a simulated byte stream. A case is only held against typetag if the format carries the payload without it. Sampled, not exhaustive."),
    "C04": ("orders of entries in flight and delivery forms",
            "Metamorphic: the reordered message must decode to the object that was sent. Payloads the format does not describe (by an independent buffer) are left out."),
    "C05": ("losses, duplications, foreign entries and alterations in flight",
            "Verdict and value are compared with a reference decoder over the entries of the message; what a payload is worth is decided by its own Deserialize."),
    "C06": ("positions at which the source fails or ends, and the calls after it",
            "Errors and early ends at drawn bytes and deserializer calls, then recovery on the same or another thread. The position is sampled over many runs, not enumerated per message."),
    "C07": ("positions at which the sink or user code fails, with short and interrupted writes",
            "Bytes are compared with an encoding built from the documentation by an independent model; failures must leave a prefix of it, the error and no further write."),
    "C08": ("corruptions of messages and event streams, with allocator accounting",
            "Crash, panic, hang (CPU limit), memory beyond a bound and accepted values that do not round-trip are violations. Mutation based, so it is a search, not a proof of absence."),
    "C09": ("user callbacks that fail or panic at any nesting depth, followed by work on any thread",
            "The n-th callback fails or panics; the error or panic must arrive, and later operations on any thread must give their usual results."),
    "C10": ("outcomes (success, error, panic) with accounting of instances and allocations",
            "Live instances of every catalogue type and live heap blocks return to the level before the call; only one-time set-up may remain."),
    "C11": ("serializer and deserializer calls that fail, observed by protocol monitors",
            "Every call typetag makes on a simulated serializer and deserializer is checked against the serde protocol, with any one of them failing."),
    "C12": ("exchanges between two simulated nodes, trait objects and derived enums, over a faulty channel",
            "Differential against serde's derived enums: bytes, verdicts and values. Documented limits of serde's own buffering are left out."),
}
RACE = {}
try:
    exec(open(os.path.join(root, "tools", "race_checks.py")).read())
except FileNotFoundError:
    pass
checks.update(RACE)
na = {
    "C13": "a fact about the compiler's verdict on source text: there is no execution, schedule, input stream or fault for a simulator to control",
    "C14": "which impls exist is decided by the type checker at compile time; no execution can show the absence of an impl",
    "C15": "whether code compiles without std or under other macros is decided at compile time; there is nothing to schedule or to fail",
}
if "C01" not in checks:
    na["C01"] = "the interleaving engine for it is being built"
doc = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": T + t,
            "level": "exploration",
            "level_note": n,
        }
        for p, (t, n) in sorted(checks.items())
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())],
    "notes": "check.sh rebuilds the simulator (sim/) against /repo's working tree and runs it; `sim/target/debug/vsim replay FILE` replays a violation. C01, and a part of C09 and C10, run in race/ (`race/target/x86_64-unknown-linux-gnu/debug/vrace replay FILE`). No hooks in /repo are needed.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
