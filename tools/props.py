"""The properties and the checks that decide them: writes properties.jsonl and MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/tight_binding_redweasel/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, claimed=True, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=[P + f for f in files], mech=mech, technique=technique, note=note, claimed=claimed,
                      observe=observe or []))


exec(open(os.path.join(V, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": P + w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking",
         "level_note": p["note"]} for p in PROPS if p["claimed"]],
        "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
        "notes": "No hooks in /repo: everything is observed through the public API. Specifications in spec/, drivers in drivers/."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
