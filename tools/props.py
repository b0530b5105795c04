"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech="abstract interpretation of the instantiated templates (relational numeric domain, loop acceleration, quantified array segments)", note=None, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, level=level))


def na(id, title, statement, over, text, why, files, mech, observe, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, na=reason))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

NOTE = ("Sound up to the stated assumptions for every entry point listed in the evidence: each obligation is proved for all sizes, capacities, indexes and element values. "
        "Reports are made only for obligations refuted with a concrete integer assignment on a precise path; anything the domain cannot decide is listed as undecided in the evidence and raises no alarm. "
        "Trusts clang's front end, mem2reg/sroa and the interpreter in /verif/engine.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 engine/run.py %s" % p["id"], thorough_cmd="python3 engine/run.py %s --tier thorough" % p["id"], technique=p["tech"], level=p["level"], level_note=p["note"] or NOTE) for p in P if "na" not in p]
nas = [dict(property=p["id"], reason=p["na"]) for p in P if "na" in p]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 engine/buildlp.py", checks=checks, not_applicable=nas), f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(checks), "claimed", len(nas), "n/a")
