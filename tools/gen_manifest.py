#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
MODEL = "exhaustive enumeration of bounded inputs on the real code, every execution compared step by step with an executable reference model (%s)"
INV = "exhaustive enumeration of bounded inputs on the real code, invariant checked on every result (%s)"
T = {
 "C01": INV % "debug assertions on; every entry point and option set; hang watchdog; crash containment by a supervising process",
 "C02": INV % "tokens tile the input; no oracle needed",
 "C03": INV % "leaves of the tree tile the input; no oracle needed",
 "C04": MODEL % "position model", "C05": INV % "span containment and order; abstract spans from the abstraction model",
 "C06": MODEL % "UTF-8 model", "C07": MODEL % "escape model and published long-name table", "C08": MODEL % "published character table; spellings compared with one another",
 "C09": MODEL % "token model", "C10": MODEL % "token model", "C11": MODEL % "token model",
 "C12": "exhaustive enumeration of (program, insertion point, continuation form), executions with and without it compared; the model says where a continuation is transparent",
 "C13": MODEL % "precedence-climbing model over the published operator tables", "C14": MODEL % "desugaring model",
 "C15": "exhaustive enumeration of (program, gap, trivia), executions with and without it compared; the model says which insertions separate a construct",
 "C16": "exhaustive enumeration of program pairs, parse of the concatenation compared with the two separate parses",
 "C17": MODEL % "bracket-matching automaton", "C18": INV % "error multisets of concrete and abstract tree compared",
 "C19": "exhaustive enumeration of (input, option vectors), executions compared with one another",
 "C20": "stateless model checking of the real code: all call histories up to a length, all two-thread schedules up to a preemption bound under a controlled scheduler",
 "C21": MODEL % "desugaring model with quirks; the eight settings compared with one another",
 "C22": "exhaustive enumeration of inputs, all entry points executed and compared with one another",
 "C23": INV % "issue ranges, duplicates, tracked locations recomputed from the leaves", "C24": MODEL % "first-line model; the rest compared with a parse of the rest alone",
 "C25": MODEL % "file-name and tag model", "C27": "exhaustive enumeration of (input, options) and of every abort point on the real library code linked to a stand-in for the kernel link; the recorded token stream compared with the documented form of the parser's result, and sent back",
 "C28": INV % "visits recorded and compared with the public fields of the tree", "C29": MODEL % "spans as sets of grid positions", "C30": MODEL % "printer written from the documented form", "C31": MODEL % "documented names, conversion both ways",
 "C32": MODEL % "issue model at character and token level",
 "C33": MODEL % "token and parse model with the cut rule for unterminated constructs",
 "C34": "exhaustive enumeration of argument lists, files and line sequences; the program is run as a process and its output compared with the library's result",
 "C35": "exhaustive enumeration of trees (texts of the grammar with every box kind and content in every operand place); the abstraction compared with the substitution model",
 "C26": MODEL % "token, parse and desugaring model, on a build with the optional feature",
}
NOTE = "Explicit-state, exhaustive within the spaces listed in the evidence file (words over fixed symbol alphabets up to a length, all operators and operator pairs, whole character tables, pumped inputs); nothing is claimed beyond these bounds except by the small-scope argument in DESIGN.md. Trusts the reference model and tables in mc/src (written from the published operator and character tables, validated by the enumeration itself: every explored trace is executed on the implementation)."
NOTES = {"C20": "Exhaustive over the listed call set: histories up to length 3, one preemption at every scheduling point for all pairs, two preemptions for selected pairs. Scheduling points are allocator calls; code between two of them is taken as atomic, so races inside such a stretch are out of reach."}
checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", technique=T[p["id"]], level="model_checking", level_note=NOTES.get(p["id"], NOTE)) for p in props if p["id"] not in NA]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks in /repo: everything is observed through the public API. Replay of a violation: mc/target/<profile>/mc one <id> <tier> <space> <index> with the numbers from the replay file.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); print(len(checks))
