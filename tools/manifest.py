#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "exhaustive bounded enumeration on the real code against an independent reference model"
CHECKS = {
 "C01": ("exhaustive token-sequence enumeration of the parser, compared with a reference parser", "Every string over the token alphabets up to the stated length is parsed by the real parser and by an independent grammar; trusts the reference grammar."),
 "C02": ("exhaustive enumeration of parsed texts and AST values through print/parse", "Every alg up to the size bound is printed and read back; trusts the stated normal form (newline after a line comment, parentheses around a lone commutator)."),
 "C03": ("exhaustive enumeration of alg trees against a reference inverter", "Every alg tree up to the size bound."),
 "C04": ("explicit-state enumeration of alg trees with a reference evaluator", "Every alg tree up to the size bound is evaluated on the real puzzles and in the reference group model."),
 "C05": ("exhaustive exploration of builder call histories against the list model", "Every sequence of pushes up to the depth bound over a fragment menu, and every small alg as a fragment."),
 "C06": ("exhaustive enumeration of algs, moves, definitions, patterns and transformations through every JSON writer and reader", "All values within the size bounds, compared with the reference value and with one another."),
 "C07": ("explicit-state exploration of complete transformation groups against a reference group model", "All elements, pairs and triples of small groups; every orientation count and piece count in structured families; all powers in the stated ranges."),
 "C08": ("explicit-state exploration of complete pattern spaces under all transformations against a reference action", "All patterns under all transformations and pairs of transformations of small layouts; every orientation count, modulus and piece count in structured families."),
 "C09": ("exhaustive enumeration of stored values for every supported orientation count", "All orientation counts 1..107, all moduli, all values, all positions."),
 "C10": ("exhaustive enumeration of move keys and queries against the lookup rule", "All small sets of definitions with all queries."),
 "C11": ("exhaustive enumeration of derived-move dependency graphs against an acyclicity oracle", "All digraphs on up to 4 derived moves in several syntactic forms, and all single malformations."),
 "C12": ("exhaustive single and double mutation of pattern and transformation data", "All mutations within the bounds, verdict compared with the rule."),
 "C13": ("exhaustive operation-sequence exploration under a guarding allocator with two memory fill patterns", "Every operation sequence up to the bound over the value pool runs under guard zones, allocation accounting and fill-pattern comparison; reads outside an allocation that hit no guard and change no result are not seen."),
 "C14": ("exhaustive enumeration of value pairs and of set/clone/compare histories against a reference model", "All pairs and all histories within the bounds."),
 "C15": ("exhaustive exploration of buffer operation histories against step-by-step application in the reference model", "All histories up to the depth bound."),
 "C16": ("exhaustive exploration of call sequences, each in a fresh process, against isolated results", "All call sequences up to the depth bound over a menu built to collide."),
 "C17": ("exhaustive preemption exploration of the real code by single-stepping", "Every single preemption point (instruction) of each operation against a second thread; sequentially consistent; long operations at the first occurrences of each instruction."),
 "C18": ("exhaustive exploration of first-call orders and of racing first calls by single-stepping", "All orders of first calls up to the bound; one preemption at every distinct instruction of each first call."),
 "C19": ("explicit-state search of the built-in puzzles against a geometric model", "Complete state space of the 2x2x2, bounded depth for the 3x3x3, all moves and amounts; published state counts."),
 "C20": ("exhaustive literal enumeration compiled and run, compared with run-time parsing", "All literals within the alphabets and lengths, compiled by the real compiler."),
 "C21": ("exhaustive text enumeration through the real program in every mode", "All token sequences up to the bound."),
 "C22": ("exhaustive scramble enumeration through the real program, judged by a geometric model", "All scrambles of up to two triggers, deterministic search; completeness for those the search rules do not pass over."),
 "C23": ("exhaustive placement of unknown moves in alg trees and enumeration of every error value", "All trees up to the size bound with an unknown move at every leaf."),
 "C24": ("exhaustive enumeration of definitions, every way of loading, compared with what was given", "All definitions from the menus within the bounds."),
 "C25": ("exhaustive exploration of operation histories over three copies of each puzzle against the reference model", "All histories up to the depth bound with every choice of copies."),
 "C26": ("exhaustive enumeration of parts through every constructor and conversion, against the notation", "All combinations from the menus; all node sequences and comment texts up to the bounds."),
 "C27": ("exhaustive mutation of definition trees and texts, verdict and contents compared with a reference reader", "All single and pairs of tree changes over the menus and all single byte edits; trusts serde_json::Value for what is JSON."),
 "C28": ("exhaustive exploration of write histories through every access route, against the list model", "All histories within the bounds, all places of all piece counts, all settings of all orientation counts."),
}
PENDING = {}
ALL = ["C%02d" % i for i in range(1, 29)]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "model checking: " + CHECKS[p][0], "level": "model_checking", "level_note": CHECKS[p][1]}
  for p in ALL if p in CHECKS],
 "not_applicable": [{"property": p, "reason": PENDING.get(p, "check not built yet")} for p in ALL if p not in CHECKS],
 "notes": "No hooks: every check drives the public API (or the built programs). Known and repaired defects: known_findings.json.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
