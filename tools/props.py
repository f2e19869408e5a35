#!/opt/veriftools/pyvenv/bin/python
# Writes properties.jsonl and MANIFEST.json from the list below (one place to keep both in step).
import json,os,sys,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=[]; NA=[]
def P(id,title,statement,over,text,why,files,mech,na=None,note=''):
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech])))
    if na: NA.append(dict(property=id,reason=na))
    NOTE[id]=note
NOTE={}
exec(open(V+'/tools/proplist.py').read())
claimed=[p['id'] for p in L if p['id'] not in {n['property'] for n in NA}]
for p in claimed:
    if not glob.glob(V+'/harness/'+p+'*.cpp'): sys.exit('no harness for '+p)
ids=[p['id'] for p in L]
assert len(ids)==len(set(ids))
for p in L: assert len(p['title'])<=80,p['title']
with open(V+'/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
m=dict(version=1,setup_cmd='bin/sxcheck --setup',
 hooks=dict(guard='SX_VERIF',enable='no source hooks are needed; nothing in /repo is guarded',source_commits=[]),
 checks=[dict(property=p,quick_cmd='bin/sxcheck %s quick'%p,thorough_cmd='bin/sxcheck %s thorough'%p,technique='symbolic execution of the compiled LLVM IR of the real code, every path decided by Z3 within stated bounds',level='model_checking',
   level_note=('bounded: every value of the symbolic inputs within the bounds listed in the evidence file; trusts clang -O1 IR, the symx engine and Z3; counterexamples are replayed natively under ASan/UBSan. '+NOTE[p]).strip()) for p in claimed],
 not_applicable=NA,
 notes='All checks use one engine (engine/, bin/sxcheck); each property has one or more harnesses harness/<id>*.cpp. tools/props.py regenerates this file and properties.jsonl.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(L),'properties',len(claimed),'claimed',len(NA),'not applicable')
