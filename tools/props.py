#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run after editing)."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A='geometrix/algorithm/'; 
P=[]
def prop(id,title,statement,qtext,tests,files,mech,level='proof',note='',tech=None,over=('inputs',),claimed=True,reason=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':list(over),'text':qtext},why_tests_cant=tests,
      anchors={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None},level=level,note=note,tech=tech,claimed=claimed,reason=reason))
exec(open(os.path.join(ROOT,'tools','proptable.py')).read())
BASE='Every obligation is generated from the IR compiled from /repo on this run and discharged for all inputs over the reals; rounding, overflow and NaN are assumed away; clang, the VC generator and the SMT solvers are trusted. '
with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps({k:p[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')})+'\n')
man={'version':1,'setup_cmd':'python3-vt engine/selftest.py',
 'checks':[{'property':p['id'],'quick_cmd':'python3-vt engine/check.py '+p['id'],'thorough_cmd':'VERIF_TIER=thorough python3-vt engine/check.py '+p['id'],
   'technique':p['tech'] or 'contracts (pre/post) on the real functions; VCs generated from LLVM IR, discharged by SMT over the reals',
   'level':p['level'],'level_note':BASE+p['note']} for p in P if p['claimed']],
 'not_applicable':[{'property':p['id'],'reason':p['reason']} for p in P if not p['claimed']],
 'notes':'See DESIGN.md. No hooks are needed in /repo: the contracts live in /verif/harness and are compiled with the unmodified headers of /repo.'}
json.dump(man,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
for p in P:
    assert len(p['title'])<=80,p['id']
    assert p['statement'].count('. ')<=2,(p['id'],'more than three sentences')
print(len(P),'properties')
