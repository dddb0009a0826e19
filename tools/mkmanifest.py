#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "session": ("TLA+ session machine (spec/IMap.tla) model-checked with TLC; recorded sessions of the real tool trace-validated against it by TLC",
             "TLC explores the session machine exhaustively in a small universe; the real tool (rebuilt from the working tree, asserts on) is driven through generated and model-derived sessions and every observed step has to be a step of the machine (functions compared on all assignments up to ten inputs, selected ones above). Evidence holds for the explored sessions; trusted: the Verilog/AIGER/DOT text parsers in vlib (the AIGER one is itself checked against spec/Aiger.tla by I15/I16), TLC."),
 "aiger": ("TLA+ byte-level AIGER decoder/encoder (spec/Aiger.tla) model-checked with TLC; files read and written by the real tool validated against it",
           "TLC checks decode/encode inverse and well-formedness exhaustively for small circuits; recorded file bytes are decoded by the specification itself. Evidence for the explored files; functions compared on all assignments up to ten inputs."),
 "det": ("TLA+ session machine over terms (spec/Det.tla): non-interference model-checked by self-composition with TLC; groups of real sessions trace-validated against it",
         "Every observation (file hash, statistics) has to be a function of the term the machine assigns to it, across several processes and histories. Evidence for the explored groups of sessions."),
 "py": ("TLA+ specification of the Python interface as a second front end of the session machine (spec/Engine.tla); equivalence of the front ends model-checked with TLC; real Python sessions and their shell counterparts trace-validated against it",
        "Calls generated by TLC are made on the real engine (module built from the working tree); what arrives at the tool has to be the denoted command, and the observations of the Python and the shell session share one memo. Evidence for the explored sessions."),
 "prog": ("TLA+ specification of the standalone programs next to the session machine (spec/Programs.tla), model-checked with TLC; recorded program runs and shell sessions trace-validated together by TLC",
          "Each program run (rebuilt from the working tree, asserts on) is placed at the moment of a recorded session at which the session has run the same script; its report and its Verilog are judged against that state. Evidence for the explored circuits and scripts."),
 "lib": ("TLA+ specification of the library component model-checked with TLC; behaviours generated by TLC and recorded call histories of the real classes validated against it",
         "The component's state machine / relation is explored by TLC in a small scope; calls are replayed in the real classes through a C++ driver built from the working tree and every answer and resulting structure is checked against the specification by TLC. Evidence for the explored histories."),
}
FAM = {"I15": "aiger", "I16": "aiger", "S20": "det", "S22": "det", "P26": "py", "X27": "prog"}
for i in ("M09", "M10", "D11", "D12", "D13", "D14", "V23", "V24", "F25", "M28", "N29", "V30"): FAM[i] = "lib"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = T[FAM.get(i, "session")]
        checks.append({"property": i, "quick_cmd": "python3 /verif/run.py check %s --tier quick" % i, "thorough_cmd": "python3 /verif/run.py check %s --tier thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else: na.append({"property": i, "reason": "check under construction: the specification part exists only as a plan in DESIGN.md so far"})
m = {"version": 1, "setup_cmd": "python3 /verif/run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not claimed")
