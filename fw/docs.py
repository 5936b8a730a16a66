#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from the definitions in propdefs.py (run by hand, output is committed)."""
import json, os, glob, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "fw"))
from propdefs import DEFS, NOT_APPLICABLE

def main():
    ids = [d["id"] for d in DEFS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in DEFS:
            assert len(d["title"]) <= 80, d["title"]
            for p in d["files"] + [w for _, w in d["mech"]]:
                assert os.path.exists(os.path.join("/repo", p)), p
            f.write(json.dumps({
                "id": d["id"], "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["quant"]}, "why_tests_cant": d["why"],
                "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]],
                            "observe_at": d.get("observe", ["return values of the public API"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
    na = set(x["property"] for x in NOT_APPLICABLE)
    man = {"version": 1, "setup_cmd": "python3 setup.py",
           "checks": [{"property": d["id"], "quick_cmd": "python3 run.py %s quick" % d["id"], "thorough_cmd": "python3 run.py %s thorough" % d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"], "technique": d.get("technique", "property-based testing against a reference model"),
                       "level": "exploration", "level_note": d["note"]} for d in DEFS if d["id"] not in na],
           "not_applicable": NOT_APPLICABLE}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    out = [open(os.path.join(HERE, "fw/design_head.md")).read()]
    out.append("\n## Properties\n")
    for d in DEFS:
        out.append("### %s %s\n\n%s\n\n%s\n" % (d["id"], d["title"], d["statement"], d["design"]))
    out.append("\n## Planted bugs and which checks catch them\n\n| bug | property | needs | result |\n|---|---|---|---|\n")
    res = {}
    p = os.path.join(HERE, "fw/seeded_results.json")
    if os.path.exists(p):
        res = json.load(open(p))
    for m in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        b = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
        out.append("| %s | %s | %s | %s |\n" % (b, j["property"], j["needs"].replace("|", "/"), res.get(b, "not run")))
    out.append("\n" + open(os.path.join(HERE, "fw/design_tail.md")).read())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))

main()
