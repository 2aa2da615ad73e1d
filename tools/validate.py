import glob, json, jsonschema
V = '/verif/'
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = set()
for l in open(V + 'properties.jsonl'):
    o = json.loads(l)
    jsonschema.validate(o, s)
    assert o['id'] not in ids
    ids.add(o['id'])
m = json.load(open(V + 'MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V + 'evidence/*.json'):
    jsonschema.validate(json.load(open(f)), e)
c = {x['property'] for x in m['checks']} | {x['property'] for x in m['not_applicable']}
assert c == ids, c ^ ids
print('valid', len(ids))
