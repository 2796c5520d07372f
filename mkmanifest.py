#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, HERE)
NOTE = ("Every function the property depends on is verified against its contract from the LLVM IR that clang emits for /repo's current templates (all sizes, positions, counts; loops by "
        "inferred or annotated invariants, each checked; a callee with a loop by its contract, verified in the same run), for element classes with throwing and non-throwing moves and for int; the "
        "thorough run adds classes of which only one move operation throws and one that can only be copied. Trusted: the front end, the verifier in cbv/, z3/cvc5, the contracts of allocator, std::deque "
        "and element operations. On changed source, functions and obligations the verifier cannot decide (listed in the evidence file as bounded) are covered by an exhaustive bounded run of the real "
        "code and not counted as proved; on the unchanged source there are none.")
N18 = ("Every function of both buffers is verified in a build with iterator debugging on: exactly the iterators documented to be invalidated are, end() iterators stay valid, no debug assertion "
       "fails. The registry of valid iterators (debug.hpp) is used by contract there, and each of its functions is verified against that contract (chains of any length, ghost sequence per registry). "
       "Trusted: the front end, the verifier in cbv/, z3/cvc5, the contracts of allocator, std::deque and element operations. On changed source, what the verifier cannot decide is covered by a "
       "bounded run of the real code and not counted as proved; on the unchanged source there is nothing of the kind.")
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": "contract-based deductive verification of the compiled templates (verification conditions, inferred loop invariants, SMT)",
                   "level": "proof", "level_note": N18 if p["id"] == "C18" else NOTE})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q cbv check.py", "checks": checks, "not_applicable": [],
           "notes": "See DESIGN.md. No hooks: nothing in /repo is instrumented."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
