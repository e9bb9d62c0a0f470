"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
top = os.path.dirname(here)
NOT_APPLICABLE = []
claimed = [p for p in P if os.path.exists(f"{top}/harness/checks/{p['id'].lower()}.py")]
with open(f"{top}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
cmd = "/opt/venv/bin/python /verif/harness/run.py {id} --tier {tier}"
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/harness/selftest.py",
    checks=[dict(property=p["id"], quick_cmd=cmd.format(id=p["id"], tier="quick"), thorough_cmd=cmd.format(id=p["id"], tier="thorough"),
        evidence_file=f"evidence/{p['id']}.json", technique="runtime monitoring: " + p["technique"], level="exploration",
        level_note="Held on the executions driven (counts in the evidence file), never beyond them. " + p["note"]) for p in claimed],
    not_applicable=[dict(property=p["id"], reason="check not built yet") for p in P if p not in claimed] + NOT_APPLICABLE,
    notes="No hooks in /repo: monitors attach from outside through the RNG, cosmology, transformation and weight-function arguments, the healpy data path, and sys.monitoring line events.")
json.dump(m, open(f"{top}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(claimed), "claimed")
