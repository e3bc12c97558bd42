#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from specs.py."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.dont_write_bytecode = True
import specs
with open(ROOT/'properties.jsonl','w') as f:
    for pid, p in sorted(specs.P.items()):
        assert len(p['title']) <= 80, pid
        f.write(json.dumps({'id':pid,'title':p['title'],'statement':p['statement'],'quantifier':{'over':p['over'],'text':p['qtext']},
            'why_tests_cant':p['why'],'anchors':{'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']],
            'observe_at':p['observe'],'hook_needed':None}})+'\n')
m={'version':1,'setup_cmd':'python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"','checks':[],'not_applicable':[]}
for pid,p in sorted(specs.P.items()):
    if pid in specs.NOT_APPLICABLE:
        m['not_applicable'].append({'property':pid,'reason':specs.NOT_APPLICABLE[pid]}); continue
    m['checks'].append({'property':pid,'quick_cmd':f'python3 check.py {pid}','thorough_cmd':f'VERIF_TIER=thorough python3 check.py {pid}',
        'evidence_file':f'evidence/{pid}.json','technique':p['technique'],'level':'other','level_note':p['note']})
(ROOT/'MANIFEST.json').write_text(json.dumps(m,indent=1)+'\n')
