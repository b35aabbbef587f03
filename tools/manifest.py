#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, sys
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
BFS = "explicit-state search of the real code to a fixpoint"
CH = {
 "C01": (BFS + ", plus complete entry sweeps", MC, "Every history of two small filters over colliding entries, all kinds; sweeps for larger ones."),
 "C02": ("exhaustive enumeration of entry forms", EX, "All insertion x query form pairs for every length up to the bound."),
 "C03": ("state search with save/load lock-step", MC, "Every reachable small filter is saved, loaded and compared in lock-step."),
 "C04": ("conformance replay against a DCSO reference model", MC, "Complete images compared byte for byte over parameter and entry grids."),
 "C05": ("conformance replay against a format reference model", MC, "Complete images compared byte for byte over parameter and entry grids."),
 "C06": (BFS, MC, "Every history up to and beyond capacity; refused insertions compared for effect."),
 "C07": (BFS, MC, "Each insertion's answer and count judged against the change of bits."),
 "C08": (BFS + ", plus all operand pairs and triples", MC, "Bits of every union compared with the OR of the operands."),
 "C09": (BFS + ", plus all operand pairs and triples", MC, "Every intersection judged against both operands."),
 "C10": ("exhaustive enumeration of configuration pairs", EX, "All ordered pairs of configurations x operations."),
 "C11": ("state search with clear lock-step", MC, "Every reachable small filter is cleared and compared in lock-step with a new one."),
 "C12": ("complete enumeration of entry blocks", EX, "False positives counted over complete blocks of absent entries; known findings listed."),
 "C13": ("enumeration of malformed inputs and reader faults", FE, "Boundary values of header fields singly and in pairs, every truncation, every reader call."),
 "C14": ("exhaustive enumeration of saved filters", EX, "Metadata load compared with complete load and with the file."),
 "C15": ("enumeration of writer faults", FE, "Each call to the writer fails in each way."),
 "C16": ("command scenarios and controlled thread schedules of the real binary", EX, "Enumerated inputs and job counts; schedules of the worker threads, preemption bounded."),
 "C17": ("command scenarios and controlled thread schedules of the real binary", EX, "Enumerated inputs and job counts; schedules of the worker threads, preemption bounded."),
 "C18": ("system call fault enumeration on the real binary", FE, "Each file operation of each command fails in each way."),
 "C19": ("write fault and crash enumeration on the real binary", FE, "The process stops at, or the disk refuses, each write."),
 "C20": ("exhaustive enumeration of fills and overlaps", EX, "Estimates judged against exact sets with the estimator's own error."),
 "C21": ("complete state enumeration of small bit sets", MC, "All states x operations up to 16 bits, each index of larger sets."),
 "C22": ("exhaustive enumeration of constructor arguments", EX, "All constructors over boundary parameters."),
 "C23": ("lock-step replay of enumerated traces on module and library", MC, "All operation sequences up to the bound, compared after each step."),
 "C24": ("systematic schedule exploration of the real code", MC, "All schedules up to the preemption bound at instrumented memory accesses."),
 "C25": ("enumeration of bench scenarios", EX, "Verdict judged by the statistics printed and by library measures."),
 "C26": ("exhaustive enumeration of insertion orders and splits", EX, "All orders, repetitions and splits give the same bits, in any process."),
 "C27": ("command scenarios and controlled thread schedules of the real binary", EX, "Capacity after the command judged against the distinct entries; known findings listed."),
 "C28": ("state search with bulk / single insertion lock-step", MC, "Every reachable small filter x every short sequence of entries, bulk and one by one."),
 "C29": ("exhaustive enumeration of helper arguments", EX, "Sizes around every unit border, statistics and timing helpers over small grids."),
 "C30": ("system call fault enumeration on the real binary", FE, "Each file operation of check, show and bench fails in each way."),
 "C32": (BFS + ", plus complete fills", MC, "The estimate of every reachable filter compared with the formula."),
 "C33": ("enumeration of wrong arguments, inputs and failing calls", FE, "The error of every failing call compared with its cause."),
 "C34": (BFS + ", each transition repeated with attached data", MC, "Every operation with and without attached data in lock-step; every length through files."),
 "C35": ("exhaustive enumeration of command lines", EX, "All combinations, orders and spellings of options; files compared with the library's."),
 "C31": (BFS, MC, "Statistics of every reachable filter compared with its saved bits."),
}
ready = sys.argv[1:] or sorted(CH)
m = {
 "version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": CH[p][0], "level": CH[p][1], "level_note": CH[p][2]} for p in ready],
 "not_applicable": [],
 "notes": "One explorer (mc/) linked against /repo, built with and without overflow checks; a scheduler and fault injection runtime (shim/) for the real command. No hooks in /repo. known_findings.txt lists repaired and recorded defects.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
