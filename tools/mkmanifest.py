#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: seeded schedules, entropy, memory contents and backend faults over the real code"
COMMON = ("Seeded sampling of problems, schedules, entropy and faults, each execution repeatable from its replay file; a quiet run is "
          "evidence, not proof. Trusts the simulated operating system (/verif/sim/simos), the reference model (/verif/sim/core) and "
          "switching at basic-block edges (for races also at loads and stores) under sequential consistency.")
N = {
 "C01": "Compares every reported energy with an independent reference evaluator; answers come from a scripted backend.",
 "C02": "Per case, all assignments of the user's and auxiliary variables of the compiled problem are compared with the reference, under several hash orders.",
 "C03": "Compares the returned solution with every answer given in the solve's recorded history.",
 "C04": "Compares the report with the reference's violated occurrences at the returned assignment.",
 "C05": "Replays the recorded history against a small model of the round loop.",
 "C06": "Backend errors, panics and stalls are injected at chosen creations and runs; liveness is a bounded number of simulated steps.",
 "C07": "Every generate/run/drop event is checked while it happens; the problem's memory is fingerprinted and freed memory poisoned.",
 "C08": "Compares all streams drawn in a process and across changes of entropy; short, interrupted and failing entropy reads are injected.",
 "C09": "The same case is executed with different worker counts, schedules, stalls and hash seeds, and the results are compared.",
 "C10": "Start state is known through the random stream; final states are checked by reference energies.",
 "C11": "A goodness-of-fit test at a false alarm rate far below one per million runs, against exact Boltzmann weights of small problems; subtle biases (about a percent) are out of reach.",
 "C12": "Weights are recovered from the coefficients of each round by linear algebra over the reference's constraint polynomials.",
 "C13": "The same expression fed at different stages is compared with the reference with the number written in its place.",
 "C14": "Reads the whole view of every answer; flip costs are compared with the coefficients given to the backend.",
 "C15": "Whole stack with the real annealer; the bound on attempts makes a false alarm practically impossible, so only systematic failure to find optima is reported.",
 "C16": "The same run alone and amid others, under other schedules, histories, hash seeds and memory contents; results are compared.",
 "C21": "Seeded histories of operations by one or several simulated tasks, every read compared with a plain reference kept beside.",
 "C17": "Several simulated caller threads; each caller's result is compared with the same solve alone.",
}
checks = [dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough",
               evidence_file=f"evidence/{p}.json", technique=T, level="exploration", level_note=n + " " + COMMON)
          for p, n in sorted(N.items())]
na = [
 ("C18", "Conversions are pure functions of one value: no schedule, clock, I/O, fault or history for a simulation to decide."),
 ("C19", "Enumerations and set operations are pure functions of their arguments, without schedule, time, I/O or faults."),
 ("C20", "A pure iterator over a solver's shape: no schedule, time, I/O or fault enters its result."),
]
json.dump(dict(version=1, setup_cmd="./sim/build.sh both", checks=checks,
               not_applicable=[dict(property=p, reason=r) for p, r in na],
               notes="No hooks in /repo: the seams are the public SolverGenerator traits, the caller's random generator, and the C library and system call boundary (threads, futex, clock, getrandom, malloc), which the simulator interposes at link time; preemption points come from compiler instrumentation of the unmodified sources."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
