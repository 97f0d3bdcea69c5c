#!/usr/bin/env python3
"""writes MANIFEST.json from sa/registry.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
import registry

NOTE = dict(
    proof="All paths and all values of the stated quantifiers are covered symbolically; an obligation that cannot be "
          "decided is counted as undecided in the evidence and raises no alarm. Trusts the interpreter's model of "
          "Python, the contracts of the third-party primitives and the 2^-120 convention (DESIGN.md).",
    other="All paths are covered; opaque text and byte strings are covered by length classes (decoded lengths 0 to 70 and "
          "one long class), everything else symbolically. Undecided obligations are counted in the evidence and raise "
          "no alarm. Trusts the interpreter's model of Python and the contracts of the third-party primitives "
          "(DESIGN.md).")
NA = dict(
    C26="the cost of guessing is a statement about every algorithm an attacker may run, not about a dataflow of this "
        "source; what the source contributes (scrypt parameters, no other derivation) is decided by C04-C06 and C16",
    C27="timing is decided by CPython, pyaes' table lookups and the dependencies' C code, none of which is analysed; "
        "pure-Python big-integer arithmetic has no constant-time reading a static argument could establish",
    C28="the dependencies are outside this repository and are taken by their contracts; C23 and C24 decide the code of "
        "this repository around them",
    C29="needs a bound on run time and memory for unbounded input lengths, dominated by the dependencies' costs; loop "
        "bounds of the repository's own loops say nothing about those")
checks = []
for p, (fn, meta) in sorted(registry.CHECKS.items()):
    checks.append(dict(property=p, quick_cmd=f"python3 sa/check.py {p}", thorough_cmd=f"python3 sa/check.py {p} --thorough",
                       evidence_file=f"evidence/{p}.json", technique=meta["technique"], level=meta["level"],
                       level_note=NOTE[meta["level"]]))
m = dict(version=1, setup_cmd="python3 sa/check.py --selfcheck", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="Every check reads /repo's sources as text and syntax trees; nothing of /repo is imported or executed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
