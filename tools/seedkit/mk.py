#!/usr/bin/env python3
"""Turns specs (seeds.py) into /verif/seeded/<id>/{patch.diff,meta.json}; usage: mk.py [id...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
want = sys.argv[1:]
base = subprocess.run(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],capture_output=True,text=True).stdout.split()[0]
for s in SEEDS:
    if want and s["id"] not in want: continue
    w = "/tmp/seedmk"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git","clone","-q","/repo",w],check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        n = t.count(old)
        assert n == 1, (s["id"], f, n, old)
        open(p,"w").write(t.replace(old,new))
        orig = subprocess.run(["git","-C","/repo","show",f"{base}:{f}"],capture_output=True,text=True).stdout
        if old not in orig:
            print(s["id"], "note: context not identical in the original", f)
    d = subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    for l in d.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in orig:
            print(s["id"], "removed line not in the original:", l)
    o = f"/verif/seeded/{s['id']}"
    os.makedirs(o, exist_ok=True)
    open(o+"/patch.diff","w").write(d)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o+"/meta.json","w"), indent=1)
    shutil.rmtree(w)
    print("made", s["id"])
