#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("sanitizers (ASan, UBSan, guard pages, leak accounting) and outcome comparison on generated templates",
         "Every explored template compiles or raises SyntaxError cleanly and identically from differently placed buffers and after other compilations; not exhaustive."),
 "C02": ("online oracle: independent recursive-descent parser on generated byte strings, under sanitizers",
         "Acceptance and error offset agree with an independent parser of the documented language on every explored string; trusts that parser where both agree."),
 "C03": ("differential monitor: compiled rule against the generating model on all nodes, under sanitizers",
         "Structure and behaviour of compiled templates agree with the model they were rendered from on everything explored."),
 "C04": ("online oracle for the exact error message, under sanitizers",
         "Every explored rejection produced exactly the message derived from the text."),
 "C05": ("online oracle: reference conditions on every node, under sanitizers",
         "Every explored (rule, node) decision agrees with a reference model of the conditions."),
 "C06": ("online oracle: reference text, markup and attribute values, under sanitizers",
         "Every explored captured value agrees with a reference rendering of an independently copied tree."),
 "C07": ("online oracle: reference pipes, under sanitizers",
         "Every explored pipe chain agrees with reference pipes, directly and through captures."),
 "C08": ("online oracle: reference matcher, groups compared in order, under sanitizers",
         "Every explored extraction equals the reference matcher's groups."),
 "C09": ("online oracle: counted searches against limits, under sanitizers",
         "Around the reference's count of searches every explored limit either raised the documented error or changed nothing."),
 "C10": ("history monitor: every observation in random histories compared with fixed expectations, ASan and plain builds",
         "No explored history changed any result; kept results stayed intact after everything they came from was destroyed."),
 "C11": ("ThreadSanitizer and recorded-event monitor with injected delays",
         "No data race and no deviating observation in the interleavings seen (counted in evidence)."),
 "C12": ("model-based histories of value operations under ASan with leak accounting",
         "Every explored history behaved as the model of independent values."),
 "C13": ("ASan, UBSan, guard pages, leak accounting; valgrind memcheck for uninitialised reads; reference comparison",
         "No explored document and rule misbehaved. gumbo is not instrumented (valgrind sees it)."),
 "C14": ("differential monitor: htmlext's output against the library's groups over generated command lines",
         "Every explored command line printed exactly the library's groups."),
 "C15": ("fault injection (missing, unreadable and failing inputs, failing output) with an outcome monitor",
         "Every explored failure was reported with a failure status and message and no partial success; success only when all was done."),
 "C16": ("differential monitor: Python, Ruby, PHP and Node.js results against the library's groups",
         "Every explored extraction in the four bindings returned the library's groups exactly."),
 "C17": ("hostile call histories in each interpreter with memory, reference-count and exit-status monitors",
         "Every explored misuse raised a language exception and left the interpreter and its memory intact."),
 "C18": ("differential monitor: gumbo on a private copy; guard pages and ASan",
         "Every explored document's tree equals gumbo's for exactly those bytes; trusts gumbo as the HTML5 parser."),
 "C19": ("fault enumeration: an exception at each call into user code, with state monitors, under ASan",
         "At every failure point tried the exception reached the caller and nothing was changed or leaked."),
 "C20": ("recorded calls of user functions checked against a reference visit, under sanitizers",
         "Every explored call and result agrees with the reference visit."),
 "C21": ("differential monitor: the scripts' output, status and messages against the library's groups",
         "Every explored run of the four scripts printed exactly the library's groups as JSON or failed as documented."),
 "C22": ("fault enumeration: operator new fails at each allocation, with state monitors, under ASan",
         "At every failure point tried the operation reported bad_alloc or completed normally, and nothing was changed or leaked. Failures of malloc within gumbo are outside."),
}
NOT_YET = [a for a in sys.argv[1:]]
checks = []
for pid, (tech, note) in T.items():
    if pid in NOT_YET:
        continue
    checks.append({"property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "runtime monitoring: " + tech,
                   "level": "fault_enumeration" if pid in ("C15", "C19", "C22") else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "its check is being built"} for p in NOT_YET],
     "notes": "No hooks in /repo are needed: the checks use the public interfaces. Each check builds /repo's working tree itself under /verif/build."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
