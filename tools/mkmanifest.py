import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/harness")
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
claimed = json.load(open(ROOT + "/tools/claimed.json"))
NOT = json.load(open(ROOT + "/tools/not_applicable.json"))
NOTE = ("The TLA+ specification in spec/ says what every curve answers from the source data alone; thousands of generated "
        "histories are run on the real code and TLC checks every recorded step of them against the specification. "
        "Bounded: graphs of up to about ten curves, histories of up to about a dozen changes, small rational data on "
        "dyadic grids; answers the specification cannot determine exactly are not judged.")
checks = []
for p in props:
    i = p["id"]
    if i in claimed:
        c = claimed[i] if isinstance(claimed, dict) else {}
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": c.get("technique", "TLA+ specification checked with TLC; trace conformance of the real code (one TLC behaviour per recorded history)"),
                       "level": "model_checking", "level_note": c.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NOT[p["id"]]} for p in props if p["id"] not in claimed]}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), [x["property"] for x in m["not_applicable"]])
