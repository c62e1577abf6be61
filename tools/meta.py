"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(i, title, statement, over, text, why, files, mech, state, observe, tech, note, hook=False, level="model_checking"):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note, hook=hook, level=level))
exec(open(os.path.join(VER, "tools", "proptable.py")).read())
NA = []
HOOKS = {"guard": "", "enable": "", "source_commits": []}
with open(os.path.join(VER, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "state": [{"name": a, "meaning": b} for a, b in p["state"]], "observe_at": [p["observe"]], "hook_needed": p["hook"] or None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": HOOKS,
     "checks": [{"property": p["id"], "quick_cmd": "python3 lib/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 lib/check.py %s --tier thorough" % p["id"],
                 "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": NA}
json.dump(m, open(os.path.join(VER, "MANIFEST.json"), "w"), indent=1)
import sys
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(VER, "properties.jsonl")): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid")
except ImportError: print("no jsonschema")
