#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both outputs are committed)."""
import json
C='crates/hodu_core/src/'
K='crates/hodu_cpu_kernels/'
# id: (title, statement, over, quantifier text, why tests can't, files, mechanisms[(name,where)], technique, level_note, extra)
P=[]
def p(id,title,stmt,over,qt,why,files,mech,tech,note,observe=None,na=None,level='model_checking'):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,stmt=stmt,over=over,qt=qt,why=why,files=files,mech=mech,tech=tech,note=note,observe=observe,na=na,level=level))

exec(open('/verif/bin/props.py').read())

with open('/verif/properties.jsonl','w') as f:
    for q in P:
        a={'files':q['files'],'mechanism':[{'name':n,'where':w} for n,w in q['mech']]}
        if q['observe']: a['observe_at']=q['observe']
        f.write(json.dumps({'id':q['id'],'title':q['title'],'statement':q['stmt'],'quantifier':{'over':q['over'],'text':q['qt']},'why_tests_cant':q['why'],'anchors':a})+'\n')
m={'version':1,'setup_cmd':'bash /verif/bin/setup.sh','hooks':HOOKS,'checks':[],'not_applicable':[],'notes':NOTES}
for q in P:
    if q['na']:
        m['not_applicable'].append({'property':q['id'],'reason':q['na']})
    else:
        m['checks'].append({'property':q['id'],'quick_cmd':f"VERIF_TIER=quick bash /verif/bin/check.sh {q['id']}",'thorough_cmd':f"VERIF_TIER=thorough bash /verif/bin/check.sh {q['id']}",'evidence_file':f"evidence/{q['id']}.json",'technique':q['tech'],'level':q['level'],'level_note':q['note']})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
import subprocess,sys
try:
    import jsonschema
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
    print('valid',len(m['checks']),'checks',len(m['not_applicable']),'n/a')
except ImportError: print('no jsonschema; use python3-vt')
