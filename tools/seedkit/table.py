#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json and tools/seedkit/results.json"""
import json, os, glob
r = "/verif"
res = json.load(open(r+"/tools/seedkit/results.json")) if os.path.exists(r+"/tools/seedkit/results.json") else {}
t = "<!-- seeds -->\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(r+"/seeded/*/meta.json")):
    i = m.split("/")[-2]; d = json.load(open(m))
    t += f"| {i} | {d['property']} | {d['needs']} | {res.get(i,'?')} |\n"
t += "<!-- /seeds -->\n"
s = open(r+"/DESIGN.md").read()
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE\n", t)
else:
    i = s.index("<!-- seeds -->"); j = s.index("<!-- /seeds -->")+len("<!-- /seeds -->\n"); s = s[:i]+t+s[j:]
open(r+"/DESIGN.md","w").write(s)
