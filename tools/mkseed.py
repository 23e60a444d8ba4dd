#!/usr/bin/env python3
"""Authoring aid for planted bugs: writes seeded/<id>/ (patch.diff, demo.sh, demo.py, mq.py, meta.json).
usage: mkseed.py SPEC.py   SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (python text, after `from mq import *`)"""
import sys, os, json, subprocess, shutil
spec={}; exec(open(sys.argv[1]).read(),spec)
R="/tmp/seedsrc"
if not os.path.isdir(R): subprocess.check_call(["git","worktree","add","-q","--detach",R,"HEAD"],cwd="/repo") if False else subprocess.check_call(["git","clone","-q","/repo",R])
subprocess.check_call("git checkout -q -- . && git fetch -q origin && git reset -q --hard FETCH_HEAD",shell=True,cwd=R)
for f,old,new in spec["edits"]:
    p=os.path.join(R,f); t=open(p).read()
    assert t.count(old)==1,(f,t.count(old),old)
    open(p,"w").write(t.replace(old,new))
d="/verif/seeded/"+spec["id"]; os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(["git","diff"],cwd=R,text=True)
open(d+"/patch.diff","w").write(diff)
json.dump(dict(property=spec["prop"],needs=spec["needs"],what_it_breaks=spec["breaks"]),open(d+"/meta.json","w"),indent=1)
if "demo_sh" in spec:
    open(d+"/demo.sh","w").write(spec["demo_sh"])
    for n,t in spec.get("files",{}).items(): open(d+"/"+n,"w").write(t)
else:
    open(d+"/demo.sh","w").write('#!/bin/bash\n# run with cwd /repo after the build\nexec python3 "$(dirname "$0")/demo.py"\n')
    open(d+"/demo.py","w").write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom mq import *\n'+spec["demo"])
    shutil.copy("/verif/tools/seedlib/mq.py",d)
os.chmod(d+"/demo.sh",0o755)
print(spec["id"],diff.count("\n"))
