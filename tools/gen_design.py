#!/usr/bin/env python3
"""fills the tables of DESIGN.md from the properties, the checks' own descriptions, their last evidence, the findings and the planted changes"""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda p: json.load(open(os.path.join(V, p)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = J('MANIFEST.json')
na = {x['property']: x['reason'] for x in man['not_applicable']}
tech = {x['property']: x for x in man['checks']}
out = []
for p in props:
    i = p['id']
    out.append('### %s. %s' % (i, p['title']))
    if i in na:
        out += ['Not applicable: ' + na[i] + '.', '']
        continue
    src = open('%s/props/%s.py' % (V, i.lower())).read()
    out.append('*%s.*\n' % tech[i]['technique'])
    out.append(ast.get_docstring(ast.parse(src)) + '\n')
    out.append('Scope: ' + tech[i]['level_note'].split(' Trusted:')[0])
    e = '%s/evidence/%s.json' % (V, i)
    if os.path.exists(e):
        e = json.load(open(e))
        if e['assumptions']: out.append('Assumed: ' + '; '.join(a.rstrip('.') for a in e['assumptions']) + '.')
        out.append('Cost: about %d s by itself.' % max(1, round(float(e['wall_s']))))
    m = '%s/tools/mutants/%s.py' % (V, i.lower())
    if os.path.exists(m):
        ns = {}
        exec(open(m).read(), ns)
        b = [x[1] for x in ns['M'] if x[0] == 'bad']
        k = [x[1] for x in ns['M'] if x[0] == 'ok']
        out.append('Tried with `tools/muts.py`: %d breaking changes (to be reported), %d that keep the behaviour (to be passed).' % (len(b), len(k)))
    out.append('')
find = ['| property | commit | what failed |', '|---|---|---|']
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: find.append('| %s | %s | %s |' % m.groups())
find.append('')
for l in open(V + '/known_findings.txt'):
    m = re.match(r'known: property=(\w+) (.*)', l)
    if m: find.append('Recorded, not repaired (%s): %s' % m.groups())
seed = ['| change | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seed.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
t = open(V + '/tools/design.tmpl.md').read()
for k, v in (('@@PROPS@@', out), ('@@FIND@@', find), ('@@SEED@@', seed)): t = t.replace(k, '\n'.join(v))
open(V + '/DESIGN.md', 'w').write(t)
