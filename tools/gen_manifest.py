#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the list of properties that have a check."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check
NOTE = {
    "default": "Every case of the stated finite space is executed on the real code in every listed build configuration "
               "and compared with an independent reference model; nothing is sampled. Assurance is complete within the "
               "enumerated alphabets and extends beyond them only by the regularity of limb-wise code. Trusted: the model, "
               "the compiler, raw limb access.",
}
TECH = {"default": "bounded exhaustive enumeration on the real code against a reference model"}
try:
    import manifest_text
    NOTE.update(manifest_text.NOTE)
    TECH.update(manifest_text.TECH)
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in check.PROPS:
        m["checks"].append(dict(
            property=i, quick_cmd="python3 /verif/check.py %s quick" % i,
            thorough_cmd="python3 /verif/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, TECH["default"]), level="model_checking", level_note=NOTE.get(i, NOTE["default"])))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
m["notes"] = ("No hooks in /repo: the checks use the public API only. check.py rebuilds the harness against /repo's "
              "working tree on every run; build output goes to the git-ignored /verif/.build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
