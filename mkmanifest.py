#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TRUST = ("Seeded random search, so absence of a violation is not a proof. Trusts the simulated kernel (sim/h/kernel.go), the step instrumenter, the small patches of the Go runtime and standard library that are the seams (sim/build.py), and the oracle named in DESIGN.md. ")
N = {
 "C01": "Oracle: the bytes before the edit, and the reference model for successes. Assumes undoing writes are not struck by a further fault after the first.",
 "C02": "Oracle: independent reference implementation of the script language (sim/h/model.go); what the model does not define is not judged.",
 "C03": "Kill at every kind of point (before, inside, after a system call; any statement). One known finding is recognised by where the kill fell and what is left.",
 "C04": "Checked at every mutation of the simulated disk, so every kill point of a run is covered by that run.",
 "C05": "Oracle: whole file tree before and after, and every mutating call.",
 "C06": "Oracle: each file's model outcome alone, plus which file a fault struck.",
 "C07": "Oracle: whole tree with inode, mode, owner and link count.",
 "C08": "Oracle: descriptor table of the simulated kernel after every request and its maximum during one.",
 "C09": "Oracle: the same run with undisturbed delivery.",
 "C10": "Oracle: exit status, output and tree after a stream failure.",
 "C11": "Oracle: the conversation's own request list and the reference model for verdicts.",
 "C12": "Oracle: the same request in a fresh server on the same files.",
 "C13": "Checked at each byte of output the server emits and at the kill.",
 "C14": "Oracle: reference model of whole passes.",
 "C15": "Cancellation at random system calls and statements; progress is bounded by the openings of files one edit needs.",
 "C16": "Budgets in statements and bytes, linear in script and text; not a proof of termination.",
 "C17": "Oracle: each caller alone; data races by the Go race detector under simulator-chosen interleavings, with no synchronisation added by the simulator.",
 "C18": "Same request under different hash seeds, clocks, process ids and goroutine choices.",
 "C19": "Oracle: reference model of the test file's script and expectation.",
 "C20": "Oracle: fault in the reader or writer; same text delivered at once.",
 "C29": "Oracle: the same process some rounds earlier. Nine rounds for goroutines, four hundred for memory (a cache of up to a hundred entries is no growth) (growth of more than half of the texts of the requests counts); timers that are left are seen only by the memory they hold.",
 "C30": "Oracle: reference model of the edits in the order of the answers. Termination is a bound on statements after which the run counts as endless; looping edits at hand may end after any pass.",
 "C28": "Oracle: each process alone. One process runs, the calls the other made when alone are made again in between; a call with another result counts as a disturbance (inode numbers, directory listings and the attributes of directories are not compared).",
 "C27": "Oracle: independent reference implementation of the script language and of the three value formats; expressions whose value the model does not define are not judged.",
}
NA = {
 "C21": "pure function of script and text: no schedule, time, I/O or fault for a simulation to control",
 "C22": "pure function of the script: nothing for a simulation to control (delivery and stream faults of conversion are in C05, C09, C10, C20)",
 "C23": "pure function of script and text: nothing for a simulation to control (its effect on the process is in C16)",
 "C24": "a static fact about two tables: nothing for a simulation to control (stability of the output is in C18)",
 "C25": "pure function of script and text: nothing for a simulation to control",
 "C26": "pure function of script and text: nothing for a simulation to control",
}
m = {
 "version": 1,
 "setup_cmd": "/verif/check --selftest",
 "hooks": {"guard": "none in /repo: all seams are a build overlay", "enable": "sim/build.py passes an overlay to go build: step calls put into the sources of /repo's working tree, patched runtime, syscall, os, time and os/signal files, and the harness; nothing is written into /repo", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"/verif/check {p} quick", "thorough_cmd": f"/verif/check {p} thorough", "technique": "deterministic simulation with fault injection: seeded search over " + w, "level": "exploration", "level_note": TRUST + N[p]} for p, w in {
  "C01": "I/O faults and disk-full points during edits", "C02": "I/O faults during edits, against a reference model", "C03": "kill points", "C04": "kill points and I/O faults, checked at every disk mutation",
  "C05": "inputs and I/O faults", "C06": "batches with per-file faults", "C07": "file layouts and I/O faults", "C08": "requests and I/O faults, descriptor table checked", "C09": "delivery schedules, short and interrupted calls",
  "C10": "stream failure points", "C11": "server conversations with bad messages and I/O faults", "C12": "request histories", "C13": "kill points of a server", "C14": "looping edits with I/O faults", "C15": "cancellation and signal points",
  "C16": "hostile scripts under step and memory budgets", "C17": "interleavings of concurrent callers under the race detector", "C18": "hash seeds, clocks and schedules", "C19": "test files with read faults", "C20": "failing readers and writers", "C29": "repeated request histories with I/O faults and forced switches", "C30": "instants of a stop signal in sessions with open or closed input", "C27": "expressions, inputs and I/O faults, against a reference model", "C28": "interleavings of the system calls of two processes and kills of one"}.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
