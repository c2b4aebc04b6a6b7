"""Regenerates the generated parts of DESIGN.md (between the markers) from properties, claims, checks and seeded bugs; run by hand."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claims = json.load(open(V + '/tools/claims.json'))
note = json.load(open(V + '/tools/seed_notes.json')) if os.path.exists(V + '/tools/seed_notes.json') else {}


def rule(i):
    s = open('%s/checks/%s.py' % (V, i)).read()
    m = re.search(r"Check\('%s',\s*'exploration',\s*((?:'(?:[^'\\]|\\.)*'\s*|\"(?:[^\"\\]|\\.)*\"\s*)+)" % i, s)
    return ' '.join(''.join(re.findall(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", m.group(1))[k][0] or '' for k in range(len(re.findall(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", m.group(1))))).split()) if m else '(see the check)'


per = []
for p in props:
    c = claims[p['id']]
    per.append('### %s %s\n\n*Deciding method:* %s.\n\n*What is run and judged (quick tier):* %s.\n\n*Bounds and trust:* %s\n\n*Beyond the tests:* %s\n' % (
        p['id'], p['title'], c['technique'].rstrip('.'), rule(p['id']).rstrip('.'), c['note'].rstrip('.') + '.', p['why_tests_cant']))
seeds = ['| change | property | needs, to show | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    seeds.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), note.get(n, m['property'])))
t = open(V + '/DESIGN.md').read()
for name, text in (('properties', '\n'.join(per)), ('seeds', '\n'.join(seeds) + '\n')):
    t = re.sub(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (name, name), lambda m: m.group(1) + '\n' + text + '\n' + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
