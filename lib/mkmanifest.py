"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import LEVEL
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "For all inputs and any number of pieces: the result of every intersection impl covers exactly the common part (postcondition of every impl).",
    "C02": "For all inputs and any number of pieces: the result of every union impl covers exactly what either operand covers (postcondition of every impl and of every add_* helper).",
    "C03": "For all inputs: the complement covers exactly the positions (other than bound positions themselves) the original does not.",
    "C04": "Representation invariant as pre- and postcondition of every function that builds or changes a set.",
    "C05": "Lemmas over the union contracts: equal coverage of two well-formed sets of a kind implies ==; commutativity, associativity, absorption follow.",
    "C06": "Postconditions of is_empty, disjoint and intersects for every kind and pairing.",
    "C07": "Postconditions of the comparison, equality, flip and map functions of bounds.",
    "C08": "Postconditions of the From impls, constructors, contains, to_inner, to_set.",
    "C09": "Postconditions of the conversions back to std ranges, over lawful Step types; laws proved for ints and char.",
    "C10": "Postconditions of every Step method of the 12 integer types and char, extracted from the macro expansion.",
    "C11": "Postconditions of into_iter, next, next_back over the ghost sequence of remaining elements.",
    "C12": "Postconditions of into_iter, next, next_back of set iteration over the ghost sequence of remaining elements.",
    "C13": "Postconditions of nth, nth_back, last, min, max, count, size_hint relative to the same ghost sequence.",
    "C14": "Postconditions of the lower-bounded iterators relative to the infinite ghost sequence.",
    "C15": "Every Index/IndexMut impl proved twice against std's indexing: in bounds it returns (and writes through to) exactly the selected part; and if it returns at all, the range was in bounds.",
    "C16": "Preconditions of panicking operations, loop and recursion measures discharged in every set operation.",
}
checks = []
for p in sorted(LEVEL):
    proof = LEVEL[p] == "proof"
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contracts on the extracted real code, discharged by Verus; concrete search for a failing input" if proof else "bounded concrete comparison with std, over conversions proved by Verus",
        "level": LEVEL[p],
        "level_note": NOTE[p] + " Assumes lawful element types, the std stand-ins and the extraction (DESIGN.md); on a changed tree a function the verifier cannot take falls back to the bounded search and the evidence says so.",
    })
m = {"version": 1, "setup_cmd": "cargo build --offline --manifest-path extract/Cargo.toml && cargo build --offline --manifest-path search/Cargo.toml",
     "checks": checks,
     "not_applicable": [{"property": "C17", "reason": "the round trip is decided by serde's derive macros and the external data formats, which are dependencies outside this repository and cannot be brought under contract here: the crate contributes only derive attributes (and the serde feature is off in the pinned build)"}],
     "notes": "No hooks in /repo. Findings: KNOWN_FINDINGS. Design: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
