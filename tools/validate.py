import json,jsonschema,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S='/root/.vp/'
ids=set()
for i,l in enumerate(open(V+'/properties.jsonl')):
    p=json.loads(l); jsonschema.validate(p,json.load(open(S+'PROPERTIES.schema.json')))
    assert p['id'] not in ids; ids.add(p['id'])
    assert p['statement'].count('. ')<3,(p['id'],p['statement'])
print(len(ids),'properties ok')
if os.path.exists(V+'/MANIFEST.json'):
    jsonschema.validate(json.load(open(V+'/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
    m=json.load(open(V+'/MANIFEST.json')); got={c['property'] for c in m['checks']}|{c['property'] for c in m.get('not_applicable',[])}
    print('manifest ok; missing:',ids-got)
for f in os.listdir(V+'/evidence') if os.path.isdir(V+'/evidence') else []:
    jsonschema.validate(json.load(open(V+'/evidence/'+f)),json.load(open(S+'EVIDENCE.schema.json')))
