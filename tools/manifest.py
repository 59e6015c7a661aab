#!/usr/bin/env python3
"""Single source of truth for /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, subprocess
T = "deterministic simulation with fault injection: seeded search over schedules, stream behaviours and faults, checked against a reference model"
NOTES = {
 "C01": "Sampled, not proved. Each run sends a random tag sequence through a random sink/pipe/source under a seeded scheduler with short, interrupted and stalled I/O; the wire bytes, consumed bytes and decoded values are compared with an independent reference encoder.",
 "C02": "Sampled. Fault position (byte or call), kind and sink vary per run; oracle: sink content is exactly the prefix the model predicts, error kind is the sink's own, no call after the failure.",
 "C03": "Sampled. Cut or error at any byte/call of any source; oracle: tags before the cut decode, the tag at the cut always errs, nothing invented.",
 "C04": "Sampled. Storage faults (bit flips, torn/misplaced sectors, splices, header damage) on valid encodings; oracle: independent reference parser of the documented format decides accept/reject and value. One known finding (unbounded recursion on very deep nesting) is decided by a committed input and the generator stays below that depth.",
 "C05": "Sampled. Operation histories over nested limited readers on failing sources, and decoding with misbehaving payloads; oracle: a model of the remaining count and a probe on the source.",
 "C06": "Sampled. Operation histories on every reader with fragmentation, interruption, failure; oracle: cursor model over the data.",
 "C07": "Sampled. Operation histories on every writer with refusal, full and fragmentation faults; oracle: buffer model.",
 "C08": "Sampled. Scans over every source with faults, impossible sizes and non-minimal headers; oracle: extents computed by the reference parser.",
 "C09": "Sampled. The getrandom seam gives each simulated node its own hash seed; oracle: canonical bytes of the model.",
 "C10": "Sampled. Real threads run one at a time, preempted by a seeded scheduler at I/O calls, callbacks, allocations and instrumented library edges; oracle: result of the same operation alone. Preemption inside std code not instantiated in the library or simulator crate happens only at allocations.",
 "C11": "Sampled. Allocator seam measures live and peak bytes of each decode of damaged or inflated input.",
 "C12": "Sampled. Work is counted at the edge, stream-call, callback and allocator seams and compared with a polynomial bound about ten times above what the correct code needs.",
 "C13": "Sampled. Decode-into histories with failures at every position; oracle: fresh decode of the same bytes.",
 "C14": "Sampled. Journal on a simulated disk with sync, crash, torn tail, I/O errors and full disk; oracle: journal model.",
 "C15": "Sampled. Registration histories interleaved with decodes; oracle: a registry model with an independent decoder.",
 "C16": "Sampled. Size-query histories with seek failures at every call; oracle: stream length and position kept by the simulated stream.",
 "C20": "Sampled. Two to five nodes with drawn vocabularies exchange, store and forward tags over a simulated network with loss, duplication, reordering, truncation, partitions, broken connections, crashes with torn tails and restarts as another version; every frame, stored record and held tag is compared with the original, and after the last fault every able node must have every tag within as many rounds as there are nodes.",
 "C21": "Sampled. Histories of edits at any depth, questions, copies, exchanges, decodes and failed serializations on up to six tags; oracle: a model of each tag's current value.",
 "C17": "Sampled. User callbacks failing at a chosen call and phase; oracle: same error surfaces, no further calls.",
}
NA = {
 "C18": "a pure function of one integer: no schedule, clock, I/O, randomness, fault or history for a simulation to vary (signed ILInt values do cross the simulated streams in C01, C04 and C06)",
 "C19": "pure functions of a tag id and of a concrete type: no schedule, clock, I/O, randomness, fault or history for a simulation to vary (typed access is used to look into every decoded tag in the other checks)",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
done = {f[:-3].upper() for f in os.listdir("/verif/sim/src/props") if f.startswith("c") and f[1:3].isdigit()}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in done:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T, "level": "exploration", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an existing trait, the allocator, the getrandom symbol, or compiler edge instrumentation switched on in sim/.cargo/config.toml. VERIF_SEED seeds every choice; replay a failure with ./check.sh --sim replay <file>."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
