#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and contracts/config.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/contracts")
import config as C
PY = "/opt/veriftools/pyvenv/bin/python3"
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    c = C.CONFIG.get(i)
    if c is None or c.get("draft"):
        na.append(dict(property=i, reason=C.NOT_APPLICABLE.get(i, "contracts for this property are not finished; nothing is claimed"))); continue
    checks.append(dict(property=i, quick_cmd="%s engine/check.py %s" % (PY, i), thorough_cmd="%s engine/check.py %s --tier thorough" % (PY, i),
        evidence_file="evidence/%s.json" % i, technique=c.get("technique", "contract-based deductive verification of the real code (clang IR of /repo, verification conditions discharged by z3/cvc5)"),
        level=c.get("level", "proof"), level_note=c.get("note", "") or "All harness contracts are proved for all inputs; trusted: clang IR generation, the VC generator in engine/, z3/cvc5, the standard-library contracts listed in the evidence."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
