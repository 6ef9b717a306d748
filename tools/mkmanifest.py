"""Writes MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Seeded search: every history, schedule and fault of a run follows from its seed and is replayable; absence of a violation is evidence for what was explored, no proof. Trusts the simulator (sim/), numpy, scipy and, where named, OpenMDAO and the XFOIL stub. "
NOTE = {
    "C01": "Answers after random histories with interrupts, model errors and scribbled results against fresh rotors in a pristine process. Interrupts strike between source lines.",
    "C02": "Threads are interleaved at traced lines by the seeded scheduler (one runs at a time); results against each rotor alone. Calls into numpy, scipy and Fortran are atomic.",
    "C03": "One fault per call at a chosen model call, spline use or source line; checks both the error seen and the repetition.",
    "C04": "NaN from chosen sections at chosen evaluations, lasting or transient; against the same rotor with those sections carrying no load.",
    "C05": "A simulated cluster of real worker processes with loss, duplication, reordering and crashes of workers; merged results against single points.",
    "C06": "All caller-owned arrays and objects are compared bitwise after every operation, and overwritten at random; results against private copies.",
    "C07": "Preprocessing over shared operands, interrupted, failing and interleaved between threads; operands compared bitwise, results against fresh operands.",
    "C08": "Saves, loads and command-line runs with short, split and interrupted transfers from a libc interposer; contents against an independent model of the format's precision.",
    "C09": "Crash at chosen write positions with chosen survival of data (prefix, zeros, old contents behind it); a load must raise or give the whole airfoil.",
    "C10": "One failing file operation at a chosen position, transient or persistent; success must mean complete, failure must leave nothing open and be repeatable.",
    "C11": "Real processes gated at every file operation, interleaved, failed and killed by the seeded scheduler; XFOIL is a stub whose answer identifies its input.",
    "C12": "As C11 with restarts under the same process id, leftovers and failing XFOIL runs; installed coordinates against a private run of the stub.",
    "C13": "As C11 with foreign files under similar names; every opening for writing, renaming and removal is checked as it happens, and the directory afterwards.",
    "C14": "Random sequences of OpenMDAO operations with faults; totals against a fresh problem with the inputs the component holds.",
    "C15": "Random sequences of OpenMDAO operations with faults; outputs and inputs against a fresh problem in a pristine process.",
    "C16": "The whole process state is compared before and after operations that complete, fail or are interrupted; results against a process in default state.",
}
PURE = "pure function of its inputs: no schedule, clock, I/O, randomness, crash or history enters it, so a simulator has nothing to decide; "
NA = {
    "C30": PURE + "whether the residual vanishes at the reported inflow is a numerical question about one call",
    "C31": PURE + "derivative correctness is a numerical question about one call (history effects on gradients are in C01, C03 and C14)",
    "C32": PURE + "smoothness of a spline fit is a question about one table",
    "C33": PURE + "an algebraic identity between values of one call",
    "C34": PURE + "an algebraic identity of rotation formulas",
    "C35": PURE + "a statement about the output of one extrapolation (history and interleaving effects are in C07)",
    "C36": PURE + "a statement about the output of one blend or lookup (history and interleaving effects are in C07)",
    "C37": PURE + "a numerical relation between an inverse and a forward solve (history effects are in C01 and C15)",
    "C38": PURE + "a physical symmetry of one analysis",
}
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B sim/build.py",
         checks=[dict(property=c, quick_cmd="bin/check %s --tier quick" % c, thorough_cmd="bin/check %s --tier thorough" % c, technique="deterministic simulation with fault injection", level="exploration", level_note=COMMON + NOTE[c]) for c in sorted(NOTE)],
         not_applicable=[dict(property=c, reason=r) for c, r in sorted(NA.items())],
         notes="No hooks in /repo: the seams are the airfoil interface, the interpreter's trace function, libc (LD_PRELOAD), process creation and OpenMDAO's API. Replays: bin/check ID --replay out/FILE.json")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
assert sorted(ids) == sorted(list(NOTE) + list(NA)), set(ids) ^ set(list(NOTE) + list(NA))
