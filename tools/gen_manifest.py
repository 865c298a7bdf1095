#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit-state exhaustive enumeration of the real implementation against a reference model"
NOTE = {
 "C01": "Every operand pair of the enumerated product space (kinds x shapes x value patterns, all 2- and 3-term polynomials over an alphabet, states reached by the library's own operations) is executed on the real code and compared exactly with an independent polynomial-matrix model; refusals of supported signatures are violations. Assumes variables are identified by (environment, ID), exponents are positive and a variable occurs once per monomial.",
 "C02": "As C01, for products, against the reference matrix product.",
 "C03": "Every exported method and function is run on operands whose memory (including spare capacity) is snapshotted before and after, and every sequence of two operations, and of three from a smaller pool, that share operands or results is run with all earlier values re-checked after every step.",
 "C04": "All derivatives over the enumerated expressions and variables are compared exactly with the reference derivative; a refusal is a violation.",
 "C05": "All substitutions over the enumerated expressions, variables and replacements are compared exactly with reference composition.",
 "C06": "All maps of up to four entries over the alphabet are applied under every map iteration start (the run time's map seed is controlled) and compared exactly with simultaneous reference composition.",
 "C07": "All enumerated unsimplified expressions (every sequence of terms up to the bound) are simplified, compared exactly with the operand's denotation, checked for canonical form and idempotence.",
 "C08": "All bases x exponents up to the bound are compared exactly with repeated reference products.",
 "C09": "All expressions x all lists of up to four distinct variables in every order are compared with the reference coefficients.",
 "C10": "All enumerated expressions and variable lists are compared with set semantics and the reference degree and predicates.",
 "C11": "All shapes, index pairs and stacking sequences up to the bound are compared entry by entry with the reference.",
 "C12": "All comparisons over kinds, shapes and senses are compared with the relation written; entry access and compilation of constraint lists are compared with the reference list.",
 "C13": "All rewritten constraints are compared with the original as polynomial relations (equality up to a positive factor, or any non-zero factor for equalities) and on a grid of assignments.",
 "C14": "All enumerated linear constraints and variable lists are compared row by row with the reference half spaces; refusals of non-linear constraints and wrong senses are checked.",
 "C15": "All ordered pairs of enumerated constraints: whenever the library says yes, the exact solution sets of the pair are compared; the recogniser is compared with the reference in both directions.",
 "C16": "All misfitting pairs of kinds and shapes, out-of-range indices and malformed operands up to the bound must panic; the errors package is compared exactly with the reference.",
 "C17": "All sequences of creation and tracking calls up to the bound over two environments and the default one are executed and compared step by step with a model of the environments; every pair of variables of small histories, with redeclared copies, goes through the operations that have to recognise variables.",
 "C18": "Every exported operation is run on all operands of a signature group; acceptance must be uniform over the group, and run-time errors and non-termination are violations.",
 "C19": "Every enumerated value is printed and read back by an independent parser; the reading must equal the printed value.",
 "C20": "Every conversion and predicate is run on all kinds, shapes and unrelated values and compared with the reference.",
 "C21": "Every operation is run repeatedly, after other operations, under all eight map iteration starts and in separate processes with different histories; printed form and structure must agree.",
 "C22": "All well-formed and single-fault malformed values at every position are checked; every accepted operation's result is checked recursively.",
 "C23": "Every sequence of operations up to the bound from a set of starting expressions and constraints is executed on the real code side by side with the reference; states are kept as the code produced them and shared by all continuations, and value, acceptance, readings and absence of change are judged at every step.",
 "C25": "Re-executes every misfit of C16 (all pairs of kinds and shapes that do not fit, all indices in a frame around the valid ones, all single-fault operands in every position, strangers, negative exponents) on the real code and judges the error of each refusal against an oracle computed from the operands: type, operation, true dimensions in order, index, Go type, complaint of Check and position. Likewise for all constraints of C14 that refuse a linear form, all linear coefficients without variables, and all refused conversions. The checks of the errors package are enumerated over all dimensions and indices up to 4.",
 "C24": "Threads that are ordered by nothing but creation and end execute every call of the operand pools twice beside a reader of the shared operands, every two operations, and two operations on one result; when the happens-before monitor (Go's race detector, vector clocks) sees no conflicting accesses the execution stands for all interleavings of its threads, as in partial-order reduction with one trace. Results are compared with those of the calls alone.",
}
BUILT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()
SPECIAL = {
 "C23": "explicit-state exploration of operation sequences on the real implementation in lockstep with a reference model",
 "C24": "stateless exploration of concurrent executions of the real implementation, one per Mazurkiewicz trace, with a happens-before monitor",
 "C17": "explicit-state exploration of all call sequences up to a depth on the real environments, checked step by step against a model",
 "C03": "exhaustive exploration of operation sequences on the real implementation with memory snapshots as monitors",
 "C21": "exhaustive exploration of repeated calls, histories and map iteration orders on the real implementation",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash run.sh setup",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in BUILT:
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh check {i} quick", "thorough_cmd": f"bash run.sh check {i} thorough",
          "technique": SPECIAL.get(i, T), "level": "model_checking", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
m["notes"] = "No hooks in /repo: the explorer links the library as it is; only the Go run time's map iteration start is fixed, through a build overlay (and for C24 the race detector is linked in and sync.Pool keeps nothing)."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
