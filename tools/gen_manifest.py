#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every property that has a harness."""
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
NA={}
TECH="symbolic execution of the repository's go/ssa form with z3: symbolic inputs, delay-bounded symbolic schedules and virtual time; counterexamples replayed on the compiled code"
checks=[];na=[]
for l in open(os.path.join(V,'properties.jsonl')):
    d=json.loads(l); i=d['id']
    if os.path.isdir(os.path.join(V,'harness',i.lower())):
        note=''
        p=os.path.join(V,'harness',i.lower(),'NOTE')
        if os.path.exists(p): note=' '.join(open(p).read().split())
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"technique":TECH,"level":"model_checking","level_note":note or "every path within the bounds stated in the evidence"})
    else: na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"verif","enable":"none needed: no hooks in /repo; harnesses are overlaid","source_commits":[]},"checks":checks,"not_applicable":na,"notes":"Bounds and assumptions: DESIGN.md and each evidence file. Known findings: known_findings.txt."}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
