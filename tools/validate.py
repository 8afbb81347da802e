import glob, json, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open(V + '/properties.jsonl'):
    r = json.loads(l); jsonschema.validate(r, S); ids.append(r['id'])
    assert r['statement'].count('. ') <= 2, (r['id'], 'more than three sentences')
m = json.load(open(V + '/MANIFEST.json')); jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
assert ids == [c['property'] for c in m['checks']] and len(set(ids)) == len(ids)
for f in glob.glob(V + '/evidence/C*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('valid', len(ids))
