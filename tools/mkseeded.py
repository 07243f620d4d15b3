#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
Optional keys of meta.json: "also" (other checks that caught it), "history" (what was missed first)."""
import json,glob,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(d+"/DESIGN.md").read()
head="## Planted bugs and what catches them\n"
s=s[:s.index(head)] if head in s else s.replace("SEEDED_TABLE\n","")
rows=[]
for m in sorted(glob.glob(d+"/seeded/*/meta.json")):
    j=json.load(open(m)); 
    rows.append("| %s | %s%s | %s |"%(os.path.basename(os.path.dirname(m)),j["property"]," "+j["also"] if j.get("also") else "",j.get("history","at once")))
s=s.rstrip("\n")+"\n\n"+head+"\n`tools/trybug.sh` applied each to /repo, built, ran the tests and the demonstration, and ran the checks.\n\n| planted bug | caught by | when |\n|---|---|---|\n"+"\n".join(rows)+"\n"
open(d+"/DESIGN.md","w").write(s)
