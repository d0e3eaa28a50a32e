#!/usr/bin/env python3
"""Regenerates the per-property and findings tables of DESIGN.md from properties.jsonl, MANIFEST.json, known_findings.json and design/*.md."""
import json, os, re
R = os.path.dirname(os.path.abspath(__file__))
man = {c["property"]: c for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
na = {c["property"]: c["reason"] for c in json.load(open(R + "/MANIFEST.json"))["not_applicable"]}
notes, cur = {}, None
for l in open(R + "/design/notes.md"):
    m = re.match(r"## (C\d\d)", l)
    if m:
        cur = m.group(1); notes[cur] = ""
    elif cur:
        notes[cur] += l
out = open(R + "/design/head.md").read()
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out += "\n### %s %s\n" % (i, p["title"])
    if i in man:
        out += "*Enumerated and deciding step.* %s.\n\n*Oracle and trust.* %s\n\n%s" % (man[i]["technique"][:1].upper() + man[i]["technique"][1:], man[i]["level_note"], notes.get(i, "").strip() + "\n")
    else:
        out += "*Not claimed.* %s\n%s" % (na[i], notes.get(i, "").strip() + "\n")
out += "\n## Findings\nDefects repaired by `fix:` commits in /repo and genuine defects recorded as known findings (`known_findings.json` holds the exact case keys; a case outside them is still reported).\n\n"
f = json.load(open(R + "/known_findings.json"))["findings"]
out += "Open:\n" + "".join("* %s (%s) %s\n" % (e["id"], e["property"], e["what"]) for e in f if e["status"] == "open")
out += "\nRepaired:\n" + "".join("* %s %s\n" % (e["id"], e["what"]) for e in f if e["status"] == "fixed")
out += "\n" + open(R + "/design/tail.md").read()
open(R + "/DESIGN.md", "w").write(out)
