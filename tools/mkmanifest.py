#!/usr/bin/env python3
"""Write MANIFEST.json from contracts/props.conf and properties.jsonl."""
import json,re,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
conf={}; cur=None
for l in open(ROOT+'/contracts/props.conf'):
    l=l.strip()
    if not l or l[0]=='#': continue
    k,v=l.split(':',1); v=v.strip()
    if k=='property': cur=conf.setdefault(v,{'roots':[],'bounded':[],'assume':[]})
    elif k=='roots': cur['roots']+=v.split()
    elif k=='relies': cur['assume']+=['the contract of %s, which the check of %s decides'%tuple(w.split('@')) for w in v.split()]
    else: cur[k].append(v)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in conf:
        c=conf[i]
        note=('Deductive proof, for all inputs and all iterations, of the contracts of %s and of every function they call, generated from /repo\'s source on each run and discharged by z3/cvc5.'%', '.join(c['roots']))
        if c['bounded']: note+=' Bounded stand-in only (not proved): '+'; '.join(c['bounded'])+'.'
        if c['assume']: note+=' Assumes: '+'; '.join(c['assume'])+'.'
        note+=' Trusted: the condition generator govc, the solvers, go/types. The public-API falsifier turns failed obligations into failing inputs.'
        checks.append({'property':i,'quick_cmd':'bash check.sh %s quick'%i,'thorough_cmd':'bash check.sh %s thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':'contract-based deductive verification (function contracts and loop invariants on the Go source, weakest-precondition obligations, SMT)','level':'proof','level_note':note})
    else:
        na.append({'property':i,'reason':NA.get(i,'contracts for this part are not written yet')})
m={'version':1,'setup_cmd':'bash check.sh setup','checks':checks,'not_applicable':na,'notes':'govc/ is the condition generator, contracts/ the contracts, spec/ the specification functions and lemmas, falsify/ the search for failing inputs.'}
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
