#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = "relational abstract interpretation of the parser's MIR against a reference grammar, to a fixpoint"
PNOTE = ("Every path of the parser's compiled code is followed in lockstep with the reference grammar "
         "(lolv/spec_parser.txt) over an abstract token sequence of unbounded length, to a fixpoint. Trusts the models "
         "of library functions (lolv/natives.py), the statement iterator's contract (decided by C11), and rustc's MIR.")
CHECKS = {}
for p in ["C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]:
    CHECKS[p] = (LOCK, PNOTE)
CHECKS["C11"] = ("relational abstract interpretation of the statement iterator's MIR against a reference iterator, to a "
                 "fixpoint over every order of operations",
                 "Both run over one abstract token stream of unbounded length with symbolic line relations. Trusts the "
                 "models of Vec and its iterators, and rustc's MIR.")
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]:
    CHECKS[p] = ("relational abstract interpretation of the tokenizer's MIR against a reference tokenizer, over a symbolic "
                 "text of unbounded length, to a fixpoint" + ("; ranking argument for every loop" if p == "C02" else ""),
                 "Both run over one symbolic text (sequences of character sets and repetitions); positions are linear terms "
                 "over its boundaries. Identifiers are summarised where too many words come along (refined on demand). "
                 "Trusts the models of the text functions of std (lolv/text.py) and rustc's MIR.")
CHECKS["C26"] = ("effect analysis over the resolved call graph; lint of statics and unsafe code",
                 "A function of std outside the listed effectful modules is trusted to have no effect.")
CHECKS["C27"] = ("path-sensitive dependence analysis of every Clone and PartialEq impl's MIR; trait queries to rustc",
                 "Hand-written impls that walk a list are decided for lists of up to two elements; all others for all "
                 "values. Trusts Clone and PartialEq of std's types.")
CHECKS["C28"] = ("path-sensitive dependence analysis of the comparison impls' MIR over symbolic order relations",
                 "All paths, all values.")
CHECKS["C23"] = ("relational abstract interpretation of each token iterator's MIR against the source order of the node's "
                 "tokens, call by call to a fixpoint; induction on the size of nodes",
                 "All nodes whose lists have at most 10 (thorough: 24) elements; nothing else is bounded. Trusts the models "
                 "of Option, Vec and VecDeque and rustc's MIR.")
CHECKS["C24"] = ("path-sensitive symbolic dataflow over the MIR of each range function; induction on the size of nodes",
                 "All nodes whose lists have at most 4 (thorough: 8) elements; nothing else is bounded.")
CHECKS["C25"] = ("relational abstract interpretation of the error iterator's MIR against the nodes in source order, to a "
                 "fixpoint", "All ASTs whose lists have at most 2 elements, nested at most three lists deep (thorough: "
                 "four), at most 5 (6) list elements being open at a time.")
CHECKS["C29"] = ("cross-reference of the vocabularies found by the analyses of tokenizer and parser; symbolic dataflow over "
                 "the MIR of tokenize_and_parse",
                 "Relies on the analyses of C01-C08 and C12-C20. tokenize_and_parse is run on at most 3 (thorough: 5) tokens "
                 "of any kind.")
NA = {
    "C30": "The recursion depth of a recursive-descent parser is the nesting depth of its input; no static argument "
           "bounds it, and the parser has no depth limit: the property does not hold for unboundedly deep nesting and "
           "repairing it (a depth limit or an explicit stack) would be a redesign, not a small fix. Recorded in DESIGN.md.",
}
try:
    from manifest_extra import EXTRA
    CHECKS.update(EXTRA)
except ImportError:
    pass


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = {"version": 1,
         "setup_cmd": "python3 -c 'from lolv import build; build.build_driver()'",
         "checks": [], "not_applicable": []}
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p,
                                "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                                "technique": t, "level": "other", "level_note": n})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "No check built yet.")})
    m["notes"] = "See DESIGN.md. Every check exports the MIR of /repo's current tree first (about 4 s)."
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
