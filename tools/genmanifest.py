#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
hist = "exhaustive enumeration of operation histories on the real code (controlled scheduler, virtual clock, in-memory file system) against a reference model"
sched = "stateless model checking of the real code: all goroutine interleavings up to a deviation bound with state pruning, race detection and linearizability checking"
crash = "exhaustive crash-point and torn-write enumeration on the real code, with repeated crashes during recovery"
inputs = "exhaustive enumeration of bounded inputs on the real code against an independent reference"
T = {
"C01": hist, "C02": hist, "C03": sched, "C04": hist, "C05": hist, "C06": sched, "C07": sched, "C08": hist + "; interleavings around the flush",
"C09": hist, "C10": crash, "C11": sched, "C12": crash + "; interleavings with readers", "C13": inputs, "C14": hist, "C15": sched + "; all sequential histories",
"C16": sched + "; all sequential histories", "C17": sched + "; all sequential histories", "C18": inputs + "; all interleavings within a bound", "C19": inputs, "C20": sched + "; all request sequences",
"C21": "exhaustive enumeration of failing file operations (singly and in pairs, with crash points) on the real code against a reference model",
"C22": sched + "; all histories for files and memory", "C23": hist + "; all interleavings within a bound",
"C24": "exhaustive enumeration of save rhythms, end times, crash points and torn writes on the real code against a reference model",
}
note = "Every execution is a run of the real code: an instrumented copy of /repo's working tree whose goroutines, locks, channels, atomics, timers, shared memory accesses and file operations go through a controlled scheduler, a virtual clock and an in-memory file system. Exhaustive within the bounds written to the evidence file (histories, inputs, deviations, crashes); nothing is claimed beyond them. Trusted: the instrumenter and runtime in mc/, the reference in mc/harness, and sequentially consistent memory (data races are reported instead of explored)."
extra = {
"C10": " A crash is the death of the process; completed file operations survive it (no loss of unsynced pages).",
"C12": " A crash is the death of the process; completed file operations survive it (no loss of unsynced pages).",
"C21": " A failing operation has no effect, except that a failing write may have written a part.",
"C20": " The HTTP server's socket handling is replaced; gin itself runs uninstrumented.",
}
m = dict(version=1, setup_cmd="bash mc/setup.sh",
  checks=[dict(property=p, quick_cmd=f"bash mc/check.sh {p} quick", thorough_cmd=f"bash mc/check.sh {p} thorough",
    evidence_file=f"evidence/{p}.json", technique=T[p], level="model_checking", level_note=note + extra.get(p, "")) for p in sorted(T)],
  not_applicable=[],
  notes="No hooks are needed in /repo: the checks instrument a copy of its working tree. See DESIGN.md.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
