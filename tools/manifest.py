#!/usr/bin/env python3
"""writes MANIFEST.json: one check per checks/pNN.py, the rest is not applicable"""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + "/properties.jsonl")]
BASE = ("Bounded: every input within the listed widths/partitions is decided by the solver over terms produced from clang's IR of the current headers; "
        "undecided or unencodable cases are reported INCONCLUSIVE and counted in the evidence, never silently passed. Trusts clang -O0 + sroa, the executor in engine/ "
        "(each case is validated against the gcc build on concrete vectors) and z3/cvc5; every counterexample is replayed on the compiled library before it is reported.")
NOTE = {
    "P01": "", "P02": " Partial products are abstracted to bounded integers (sound for 'holds').",
    "P03": " The division loop is cut by an invariant proved for each iteration.",
    "P20": " Uses the contract of Aeu::divide that the check of P03 proves.",
}
NA = {
    "P29": "The operations exist only in CUDA device code (atomicExch on __device__ memory); no CUDA compiler is installed, so their IR cannot be produced and a counterexample could not be replayed.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(D + "/checks/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3-vt run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "symbolic execution of the library's LLVM IR, SMT-decided assertions (z3, cvc5), native replay",
                       "level": "model_checking", "level_note": BASE + NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && /usr/bin/clang++-18 --version", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile the unmodified headers. See DESIGN.md."}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
