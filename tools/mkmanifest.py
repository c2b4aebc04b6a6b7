"""Regenerates MANIFEST.json from properties.jsonl and tools/claims.json; run by hand."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(V + '/tools/claims.json'))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in claims and os.path.exists('%s/checks/%s.py' % (V, i)):
        c = claims[i]
        checks.append(dict(property=i, quick_cmd='python3-vt checks/%s.py' % i,
                           thorough_cmd='VERIF_TIER=thorough python3-vt checks/%s.py' % i,
                           technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason='the check for this property is not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks are needed: the checks compile the unmodified sources with instrumentation', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check compiles what it needs from /repo at run time; nothing is cached between runs.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
