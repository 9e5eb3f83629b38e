"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(V, 'lib'))
from claims import CLAIMS, NOT
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMS:
        c = CLAIMS[i]
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 lib/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 lib/check.py %s' % i, technique=c['technique'], level='model_checking', level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT.get(i, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
