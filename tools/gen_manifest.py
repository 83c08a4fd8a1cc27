"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "runtime monitoring: reference-model oracle over recorded executions of the real library"
TECHS = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "mon", "checks", p.lower() + ".py")):
        t = TECHS.get(p, {})
        checks.append(dict(
            property=p, quick_cmd=f"./check.py {p}",
            thorough_cmd=f"./check.py {p} --tier thorough",
            evidence_file=f"evidence/{p}.json",
            technique=t.get("technique", TECH), level="exploration",
            level_note=t.get("note", "Held on every execution observed; the generator bounds and "
                             "the reference models are described in DESIGN.md.")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="VERIF_HOOKS",
                          enable="No hooks were needed: the monitors observe the public API; the "
                                 "variable is read by nothing in /repo.", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Pure Python library: nothing is compiled; checks import /repo/src directly."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
