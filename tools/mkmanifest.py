#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HELD = "Held on the executions counted in the evidence, nothing more. Trusted: the oracle in harness/src, the Rust toolchain."
T = {
 "C01": ("runtime monitoring: round-trip monitor over generated pairs and contexts", "Output and statistics of the real library compared exactly; exhaustive for very small sequences, sampled beyond."),
 "C02": ("runtime monitoring: round-trip monitor over generated byte pairs", "As C01, for bytes."),
 "C03": ("runtime monitoring: structural checker of recorded change lists", "Coverage, order and item equality checked from the files alone."),
 "C04": ("runtime monitoring: brute-force reference for every query", "Independent quadratic search; exhaustive for very small sequences and all sub-ranges."),
 "C05": ("runtime monitoring: checker of recorded hunks against an independent grouping", "Hunk extents and contents recomputed from the change list and the files."),
 "C06": ("runtime monitoring: write/read/write comparison, corrupted documents", "Documents of the six kinds, hand-made ones, truncations, corruptions, hostile readers."),
 "C07": ("runtime monitoring: apply-twice histories against an occurrence model", "False positives judged by brute-force search for what hunks leave behind."),
 "C08": ("runtime monitoring: reference model of nearest placement", "Displaced targets whose result is known by construction, and a model run beside the library."),
 "C09": ("runtime monitoring: damaged-context workloads with known results", "Expected output is built with the damage, not computed by the library."),
 "C10": ("runtime monitoring: explanation search over outputs and statistics", "An output nobody can explain as matched hunks and conflict blocks is a violation; searches that run out of budget are counted as undecided."),
 "C11": ("runtime monitoring: reference interpreter of byte patches, explanation of outputs", "As C10, for bytes at exact places."),
 "C12": ("runtime monitoring: instrumented readers and writers with faults at every position", "Chunked, interrupted and failing I/O in memory and on disk."),
 "C13": ("runtime monitoring: LD_PRELOAD event log and fault injection on pw_diff, tree snapshots", "The built command, with every system call on its files made to fail in turn."),
 "C14": ("runtime monitoring: tree snapshots around pw_patch runs and histories", "The built command in scratch directories on two file systems, compared with known versions."),
 "C15": ("runtime monitoring: fault and kill injection at every system call of pw_patch, tree snapshots", "Every observed call of every scenario gets each applicable error, short transfer and kill; power loss (reordered disk writes) is not modelled."),
 "C16": ("runtime monitoring: exit status and tree snapshots of pw_patch on hostile patches and targets", "Spoiled patches, unsuitable targets, failing hunks."),
 "C17": ("runtime monitoring: independent unified diff writer as oracle", "Hunks written by an independent writer (and diff -u in the thorough tier where present), parsed by the library."),
 "C18": ("runtime monitoring: mutated hunks judged by an independent reader", "Rejections, positions in messages and absence of panics."),
 "C19": ("runtime monitoring: emitted hunks read by an independent reader", "Also by patch(1) in the thorough tier where present."),
 "C20": ("runtime monitoring: independent reader of file headers", "Generated header lines, paths and time stamps."),
 "C22": ("runtime monitoring: commands run inside each other at every system call, stressed in parallel, tree snapshots and concurrent readers", "A second command runs to its end before or after each file system call of the first (all such interleavings of two), and freely in parallel; longer alternations only as they occur."),
 "C23": ("runtime monitoring: recorded streams, exit statuses and trees compared across verbosity, argument order, environment and stream states", "The built commands on scenarios of every kind of success and failure."),
 "C24": ("runtime monitoring: every accessor's answer compared with the files; random request histories against a model", "Short runs exhaustively, the rest sampled."),
 "C25": ("runtime monitoring: log records replayed by an independent checker against output and statistics", "The log is taken as a certificate: each claim is checked on the target, and all of them together must give the output."),
 "C21": ("runtime monitoring: ThreadSanitizer, Miri schedules, cross-thread and cross-process comparison", "Schedules that occurred or that Miri chose; worker pools of 1 to 16 threads."),
}
checks = [dict(property=k, quick_cmd=f"bash run.sh {k}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {k}",
               technique=t, level="fault_enumeration" if k == "C15" else "exploration", level_note=n + " " + HELD)
          for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="bash run.sh build", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks use the libraries' public items and the built commands. Findings, all repaired: known_findings.txt.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
