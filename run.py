#!/usr/bin/env python3
"""run.py C01..C22 : runs one check; see DESIGN.md. VERIF_TIER and VERIF_SEED apply.
run.py --setup    : nothing to prepare; verifies that the tools are there.
run.py --build V  : builds variant V (asan, tsan, plain, cli) and prints its directory."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import Report, run_vh, CheckError, TIER, SEED, log

ASSUME = ["gumbo-parser and boost.regex are trusted (their own defects are not counted against hext)",
          "the reference models in /verif/harness are right where they agree with the code on every case run"]

# property: rule, and the runs as (variant, cases quick, cases thorough[, wrapper])
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=no", "--undef-value-errors=yes"]
PROPS = {
    "C01": ("templates from valid ones (rendered from a model, and the repository's own) by truncation, byte and token mutation, NUL and non-ASCII insertion, "
            "and from random tokens; each is compiled from exactly sized, guard-page-bounded and embedded buffers and after other templates; "
            "non-trivial: at least one byte and a new byte string",
            [("asan", 24000, 4000000), ("plain", 3000, 400000)]),
    "C02": ("valid and near-valid byte strings, decided by an independent recursive-descent parser of the documented language; "
            "non-trivial: accepted by one token or rejected after the first byte, and a new byte string",
            [("asan", 50000, 8000000), ("plain", 200000, 20000000)]),
    "C03": ("random templates over the whole language rendered in several layouts; the compiled rule is compared with the model's structure and "
            "behaviour on every node of documents, and with the rule assembled through the API; non-trivial: a new template of at least one condition or capture",
            [("asan", 24000, 4000000), ("plain", 250000, 20000000)]),
    "C04": ("invalid templates; message compared byte for byte with one derived from the text by an independent parser; non-trivial: a new invalid template",
            [("asan", 60000, 8000000), ("plain", 200000, 20000000)]),
    "C05": ("rules generated for a node so that conditions nearly hold, and random ones, evaluated on all nodes of generated, wild and repository documents "
            "against a reference model; non-trivial: a distinct rule that matches some node of its document and not another",
            [("asan", 9000, 1500000), ("plain", 60000, 6000000)]),
    "C06": ("every builtin and attribute of every node of generated, wild and repository documents, against a reference rendering of an independent copy of the tree; "
            "non-trivial: a distinct non-empty value",
            [("asan", 10000, 1500000), ("plain", 90000, 9000000)]),
    "C07": ("random chains of up to 8 pipes on values of any bytes, against reference pipes, and through captures; non-trivial: a chain that changes the value",
            [("asan", 30000, 4000000), ("plain", 400000, 30000000)]),
    "C08": ("rule lists built along a document (so that they match often) and free ones, extracted and compared group by group with a reference matcher; "
            "non-trivial: a (rule, document) pair with at least one result",
            [("asan", 14000, 2000000), ("plain", 250000, 20000000)]),
    "C09": ("rules and documents with every limit around the reference's count of searches, and extreme limits; non-trivial: a pair with at least two searches",
            [("asan", 8000, 1000000), ("plain", 90000, 9000000)]),
    "C10": ("random histories of compile, load, extract, match, capture, copy, destroy over several rules and documents with buffers overwritten and freed; "
            "non-trivial: a distinct non-empty result obtained within a history",
            [("asan", 5000, 600000), ("plain", 10000, 2000000)]),
    "C11": ("threads extract, match, capture, copy and compile over shared rules and documents with injected yields; every observation is compared with an expectation "
            "computed by the reference before the library was used; non-trivial: a distinct observed interleaving of operations",
            [("tsan", 1600, 300000), ("plain", 3000, 1000000), ("asan", 500, 100000)]),
    "C12": ("random histories of construct, copy, move, assign, mutate, swap and destroy on rules, parts and documents, checked against a model of values; "
            "non-trivial: a new history of operations",
            [("asan", 6000, 800000), ("plain", 6000, 800000)]),
    "C13": ("hostile bytes as HTML (mutated documents, NUL, invalid UTF-8, foreign content, deep nesting) with hostile and guided rules; "
            "non-trivial: a new document with at least one element of its own",
            [("asan", 5000, 1000000), ("plain", 320, 20000, VALGRIND)]),
    "C18": ("documents from exactly sized and guard-page-bounded buffers at changing placements, compared with gumbo run by the harness on a private copy; "
            "non-trivial: a new byte string",
            [("asan", 6000, 800000), ("plain", 40000, 4000000)]),
    "C19": ("rules built of user-supplied parts; for every operation, a failure at each of its calls into user code (sampled above 40 to 60 calls), of four exception types; "
            "non-trivial: a new (rule, document) pair",
            [("asan", 1600, 250000), ("plain", 30000, 3000000)]),
    "C20": ("rules with recording user functions on generated documents; the recorded calls and results are compared with a reference visit; "
            "non-trivial: a case in which user functions were called on at least two nodes",
            [("asan", 9000, 1500000), ("plain", 250000, 20000000)]),
    "C22": ("operations on generated rules, documents and templates; each with a failing allocation at each of its allocations (sampled above 25 to 60), once or from there on; "
            "non-trivial: a new template, or (rule, document) pair",
            [("oom", 12000, 2000000)]),
}
LEVEL = {"C22": "fault_enumeration", "C19": "fault_enumeration", "C15": "fault_enumeration"}


def harness_check(pid):
    rule, runs = PROPS[pid]
    rep = Report(pid, LEVEL.get(pid, "exploration"), rule, ASSUME)
    thorough = TIER == "thorough"
    if pid in ("C01", "C13"):
        import probes
        probes.run(rep)
    if pid in ("C13", "C18"):
        import probes
        probes.run_edges(rep)
    for r in runs:
        variant, wrap = r[0], list(r[3]) if len(r) > 3 else []
        label = "valgrind" if wrap else variant
        # the second build runs cases of its own
        seed = SEED if label in ("asan", "oom") else SEED + 500009
        ok = run_vh(rep, variant, r[2] if thorough else r[1], seed=seed, time_cap=(1500 if thorough else 150) / (1 if label in ("asan", "oom") else 2),
                    stall=600 if wrap else 90, wrap=wrap, label=label)
        if not ok:
            break   # one violation is enough; its replay names the case
    return rep


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        for t in ("clang++", "cmake", "ninja", "valgrind"):
            if not shutil.which(t):
                print("missing: " + t)
                return 2
        print("ready; each check builds what it needs from " + lib.REPO)
        return 0
    if sys.argv[1] == "--build":
        print(lib.build(sys.argv[2]))
        return 0
    pid = sys.argv[1]
    try:
        if pid in PROPS:
            rep = harness_check(pid)
        elif pid in ("C14", "C15"):
            import cli
            rep = cli.check(pid)
        elif pid in ("C16", "C17"):
            import bind
            rep = bind.check(pid)
        elif pid == "C21":
            import scripts
            rep = scripts.check(pid)
        else:
            print("no such property")
            return 2
        return rep.finish()
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        return 2
    except Exception:
        import traceback
        log("CHECK ERROR: " + traceback.format_exc())
        return 2


if __name__ == "__main__":
    sys.exit(main())
