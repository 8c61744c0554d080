import json, jsonschema, sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
try:
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    got={c['property'] for c in m['checks']}|{c['property'] for c in m.get('not_applicable',[])}
    print('unclaimed:',set(ids)-got,'extra:',got-set(ids))
    es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
    for c in m['checks']:
        try: jsonschema.validate(json.load(open('/verif/evidence/%s.json'%c['property'])),es)
        except FileNotFoundError: print('no evidence',c['property'])
except FileNotFoundError: print('no manifest')
print('ok',len(ids))
