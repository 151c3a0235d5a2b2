import json, os, importlib, ast
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
tech = json.load(open(os.path.join(here, "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness", "checks", i.lower() + ".py")):
        t = tech.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique=t.get("technique", "runtime monitoring: reference-model monitor"), level="exploration",
            level_note=t.get("note", "Holds on every execution observed; inputs are sampled, not enumerated.")))
    else:
        na.append(dict(property=i, reason=tech.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sectionproperties, numpy, scipy, shapely'", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every monitor observes the public API from /verif/harness."), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
