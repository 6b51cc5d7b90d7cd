import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
TRUST = ("Decided from the source in /repo on every run; nothing of the package is executed or imported and no solver is used. "
         "Trusted: the models of pyron, msgpack, numpy/torch, the file system and the standard library in sa/lib.py and sa/fs.py. ")
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": w, "where": x} for w, x in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = [p["observe"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(D, "sa", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": p["technique"] or "static analysis: path-sensitive abstract interpretation with effect typestate",
                       "level": "other", "level_note": TRUST + p["note"]})
    else:
        na.append({"property": i, "reason": p["na"] or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
