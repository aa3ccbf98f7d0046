#!/usr/bin/env python3
import glob
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

def P(id, title, statement, text, why, files, mech, observe, oracle, over=("inputs",), note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files,
                      mech=mech, observe=observe, oracle=oracle, over=list(over), note=note))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            n = len([s for s in p["statement"].replace("e.g.", "eg").replace("i.e.", "ie").split(". ") if s.strip()])
            assert n <= 3, (p["id"], n)
            for fn in p["files"]:
                assert os.path.exists(os.path.join("/repo", fn)), fn
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "harness/src/bin/%s.rs" % i.lower())):
            checks.append({
                "property": i,
                "quick_cmd": "./run.sh %s" % i,
                "thorough_cmd": "./run.sh %s --thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "property-based testing (proptest, shrinking): " + p["oracle"],
                "level": "exploration",
                "level_note": p["note"] or "Seeded generated-input search against the stated oracle; no claim beyond the inputs explored.",
            })
        else:
            na.append({"property": i, "reason": "The check for this property is not built yet."})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: every check drives the public API of /repo's crate through a path dependency. Findings are in known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    d = os.path.join(HERE, "DESIGN.md")
    t = open(d).read()
    a, b = t.index("<!-- TABLE -->"), t.index("<!-- /TABLE -->")
    rows = ["| id | property | ranges over | oracle / deciding method | built |", "|---|---|---|---|---|"]
    built = {c["property"] for c in checks}
    for p in PROPS:
        rows.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], p["text"], p["oracle"], "yes" if p["id"] in built else "no"))
    t = t[:a] + "<!-- TABLE -->\n" + "\n".join(rows) + "\n" + t[b:]
    bugs = [(os.path.basename(d), json.load(open(d + "/meta.json"))) for d in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*"))]
    a, b = t.index("<!-- BUGS -->"), t.index("<!-- /BUGS -->")
    t = t[:a] + "<!-- BUGS -->\n" + "".join(f"| {i} | {m['property']} | {m['needs']}: {m['what_it_breaks']} |\n" for i, m in bugs) + t[b:]
    open(d, "w").write(t)
    print(len(checks), "claimed;", len(na), "not claimed")

main()
