#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The claimed properties are those the simulator implements."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(here + "/sim/*.go"):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
NA = {
 "C90": "CheckName, CheckChars, CheckPubID and CheckEncoding are pure functions of one string: no I/O, fault, schedule or history takes part, so there is nothing to simulate. (What depends on them, that no unchecked string reaches the stream, is C05, C08 and C17.)",
 "C91": "The attribute conversions are pure functions of one Go value with no fault, schedule or history. (The simulated histories use them as attribute values and compare with strconv, but that does not decide the property.)",
 "C92": "Allocation counts are a performance property of the compiled code; a simulator that owns the seams observes bytes and errors, not the allocator, and the technique decides nothing about performance.",
 "C93": "The C tester needs libxml2 (headers are not installed) and is a separate process without seams; the property compares two programs on the same input, not schedules or faults. The Go half is C21.",
}
LEVEL = "seeded search over simulated histories, faults and schedules: evidence, not proof. "
NOTE = {
 "C01": "Every flush is compared byte for byte with an independent reference machine. Trusts that machine (sim/model.go), bufio.",
 "C02": "Prefix invariant asserted inside every sink write, against the reference stream or a fault-free twin run.",
 "C03": "Every call during and after the failure is judged; the short-write rule follows io.Writer (bufio may legally resume).",
 "C04": "Bounded by 3000000 seam crossings per call, 5 s CPU and 3 GB per run; a hang without crossings is caught by the watchdog.",
 "C05": "Independent strict parser (sim/xmlparse.go) plus encoding/xml; names outside encoding/xml's tables skip the cross-check. One known finding: empty PI target.",
 "C06": "Same oracle as C05, on string-heavy documents.",
 "C07": "Decoding is by golang.org/x/text v0.3.2, which is trusted; iso-2022-jp is left out (stateful, never closed by design).",
 "C08": "Acceptance against the placement table; absence of traces against a twin run without the refused calls.",
 "C09": "Results, depth and bytes against the stack model after every call.",
 "C10": "Acceptance against the rule and parsed declarations against what was written.",
 "C11": "Markers inserted by the indenter are recognisable bytes and are stripped and located in the stream.",
 "C12": "Event sequence against the reference machine; faults at any callback.",
 "C13": "Cooperative scheduler with a possible switch before every statement of the package (sources instrumented in an overlay): exactly one writer runs at a time and every switch is drawn from the seed; data races between truly parallel goroutines show only as interference at that granularity.",
 "C14": "Differential between ten ways of writing a tree, fault-free, with refused nodes, and with one fault at the same stream byte.",
 "C15": "Twin run without the raw writes, flushed per call, gives the pieces between which the raw bytes must stand; nested raw against the reference machine.",
 "C16": "Against a two-line model of the collector, for Do, Must and both in turn.",
 "C17": "Acceptance against the rule over the joined content; parsed back.",
 "C18": "Parsed back or compared with the reference stream.",
 "C19": "Against the reference machine and twins without attachments; under faults and refusals each marker may appear at most once.",
 "C20": "Side-by-side runs with enforcement on and off.",
 "C22": "Declarations are located with the reference machine and read back by a reader of their own.",
 "C23": "Reference machine, and twin runs with settings made at another time or changed and changed back.",
 "C24": "Length of the reference machine's stream against what the sink holds (with an encoder: decoded); live heap of the worker process after a forced collection, on runs of 10000 rounds, threshold 128 KiB.",
 "C21": "The interpreter's sources are compiled unchanged (package renamed) and compared with direct calls.",
}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": "deterministic simulation with fault injection (seeded histories, faults and schedules on simulated sink, indenter and encoder; reference-model and twin-run oracles)",
          "level": "exploration", "level_note": LEVEL + NOTE[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (sink, indenter, encoder, caller) is public API. Fix commits and known findings: KNOWN_FINDINGS.txt. Replay a violation: ./replay.sh FILE."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "n/a")
