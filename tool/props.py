"""Single source of properties.jsonl and MANIFEST.json (python3 tool/props.py regenerates both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": False}
    if state:
        a["state"] = state
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))
    P[-1]["_t"] = (technique, note)


def na(pid, title, statement, over, qtext, why, files, mech, observe, reason):
    prop(pid, title, statement, over, qtext, why, files, mech, observe, None, None)
    NA.append({"property": pid, "reason": reason})


I = "include/"
exec(open(os.path.join(V, "tool", "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_t"}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": NA}
    for p in P:
        t, n = p["_t"]
        if t:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                                "technique": t, "level": "other", "level_note": n})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(m["checks"]), "claimed,", len(NA), "not applicable")
