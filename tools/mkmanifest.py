#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from ecv/props.py."""
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from ecv.props import PROPS
NA = {
    "C24": "The guarantee is about interleavings of threads that share state under a mutex and condition variable; the verification "
           "conditions generated here are sequential (no rely/guarantee or ownership logic for pthreads), and no deductive verifier for "
           "concurrent C is installed. Proving the sequential pieces would not decide the property.",
    "C25": "The guarantee is about an asynchronous signal that leaves a stage by siglongjmp at any instruction; contracts over sequential "
           "executions cannot express interruption at an arbitrary point (nor the state of PARI's internals at it), so there is no honest obligation to discharge.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    P = PROPS.get(i)
    if P:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=P.get("technique", "contract-based deductive verification (contracts on the real functions, VCs from LLVM IR, z3/cvc5)"),
                           level=P.get("level", "proof"), level_note=P["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not written yet")))
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
