#!/usr/bin/env python3
"""newbug.py ID PROPERTY FEATURES < spec: spec is JSON {file, old, new, needs, breaks, main}.
Writes seeded/ID from a textual edit of /repo (without touching /repo)."""
import sys, json, os, subprocess, tempfile
id_, prop, feats = sys.argv[1:4]
ns = {}
exec(sys.stdin.read(), ns)
d = f"/verif/seeded/{id_}"; os.makedirs(d, exist_ok=True)
out = ""
for (f, old, new) in ns["edits"]:
    s = open("/repo/" + f).read()
    assert s.count(old) == 1, (f, s.count(old))
edited = {}
for (f, old, new) in ns["edits"]:
    s = edited.get(f) or open("/repo/" + f).read()
    edited[f] = s.replace(old, new, 1)
for f, t in edited.items():
    with tempfile.NamedTemporaryFile("w", delete=False) as h: h.write(t)
    r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, h.name], capture_output=True, text=True)
    os.unlink(h.name); out += r.stdout
open(d + "/patch.diff", "w").write(out)
open(d + "/main.rs", "w").write(ns["main"])
t = open("/verif/tools/demo.template.sh").read().replace("FEATURES", ", ".join('"%s"' % x for x in feats.split(",") if x))
open(d + "/demo.sh", "w").write(t)
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
print("wrote", d)
