#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded search, not a proof: silence means that no run explored (the evidence says how many, and what they contained) broke the property. "
          "The real package sources run, textually instrumented with yield points; package sync, sync/atomic, goroutine scheduling, channels, map iteration order, clock and sleeping are simulated. "
          "Trusted: the simulator kernel, the generated workload and its executable reference model. ")
NOTE = {
 "C01": "Every call of a concurrent run is compared with the same call alone in a fresh process image (solo re-execution).",
 "C02": "Every call of a long history is compared with the same call as the first of a fresh process image.",
 "C03": "Results are re-read at the end of the run, overwritten by their callers, inputs hashed before and after, slices handed back by methods checked up to their capacity.",
 "C04": "Injected errors at chosen method invocations; error identity, chain, type and method checked; other calls against solo re-execution.",
 "C05": "Injected panics and goroutine exits at chosen method invocations; everybody else against solo re-execution and for progress.",
 "C06": "Deadlock, step bound and indefinite stalls decided by the scheduler, with stalled tasks held until everybody else is done.",
 "C07": "Iteration orders are permuted by the simulator; results against the reference model and solo re-execution.",
 "C08": "Output against the set of key/value histories the simulator recorded during the call.",
 "C09": "Contexts of every method compared with the call's own; results against the reference model under the call's own options and against solo re-execution.",
 "C10": "Go race detector on simulated schedules: the kernel's own hand-overs are hidden from it, so only the synchronisation of the package orders its accesses; accesses inside the standard library are seen only where it is race-instrumented.",
 "C11": "Collections, stack moves and pool evictions at chosen statements, freed memory overwritten, checkptr instrumentation; identity of receivers checked.",
 "C12": "Guard bytes around every destination window; result against Marshal of the same value.",
 "C13": "Corruptions of method outputs; result against the reference model that embeds or rejects them.",
 "C14": "Log of method invocations against the sequence the reference model allows.",
}
NA = {
 "N01": "a pure function of the value: no schedule, time, I/O, fault or history takes part in it, so simulation would add nothing to comparing with encoding/json on inputs. The parts of it that other claimed properties rely on are exercised through their reference model.",
 "N02": "a pure function of a byte sequence and the options; no nondeterminism or fault takes part in it.",
 "N03": "a pure function of a number or literal; no nondeterminism or fault takes part in it.",
 "N04": "a pure function of a time or duration and the options; the encoder reads no clock.",
 "N05": "a pure function of a type and value; the part that depends on history and concurrency (caches of fields) is claimed as C01 and C02.",
 "N06": "a pure function of value and options; that options do not leak between calls is claimed as C09.",
 "N07": "a pure function of type and value (cyclic values do overflow the stack at present, as DESIGN.md records); the part that concerns progress under concurrency is claimed as C06.",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in range(1, 15):
    p = "C%02d" % i
    m["checks"].append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
        "level": "exploration", "level_note": COMMON + NOTE[p]})
for k, v in NA.items():
    m["not_applicable"].append({"property": k, "reason": v})
m["notes"] = ("No hooks in /repo: the checks instrument a scratch copy of /repo's current working tree (tools/instr). "
              "known-findings.txt lists the repaired findings; ./check ID --replay FILE replays a violation.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
