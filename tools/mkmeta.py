"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing; checks never run it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification model-checked with TLC; its behaviours are replayed into the real program and recorded real runs are validated against it"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, script, note, state=None, observe=None, claimed=True, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["stdout and exit status of the cdx command"]
    a["hook_needed"] = None
    P.append(({"id": pid, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, script, note, na))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p, _, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/%s %s quick" % (s, p["id"]),
                 "thorough_cmd": "python3 checks/%s %s thorough" % (s, p["id"]),
                 "technique": T, "level": "model_checking", "level_note": n}
                for p, s, n, na in P if not na],
     "not_applicable": [{"property": p["id"], "reason": na} for p, s, n, na in P if na]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
