#!/usr/bin/env python3
"""DESIGN.md from tool/DESIGN.in.md, props.py, the rules, KNOWN_FINDINGS.json and seeded/."""
import ast, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import props


def rule(pid):
    out = {}
    for n in ast.parse(open(os.path.join(H, 'rules', pid.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'EXPLAIN', 'ASSUMES'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


t = []
for p in sorted(props.PROPS, key=lambda p: p['id']):
    r = rule(p['id'])
    t.append('### %s %s\n' % (p['id'], p['title']))
    t.append('- *Property:* %s' % p['statement'])
    t.append('- *Technique:* %s.' % p['technique'])
    t.append('- *Rule applied:* %s.' % r.get('RULE', '').rstrip('.'))
    t.append('- *How:* %s.' % r.get('EXPLAIN', '').rstrip('.'))
    t.append('- *Why tests cannot:* %s.' % p['why_tests_cant'].rstrip('.'))
    t.append('- *Reach and limits:* %s' % p['level_note'])
    if r.get('ASSUMES'):
        t.append('- *Assumes:* %s.' % '; '.join(r['ASSUMES']))
    t.append('')
na = ['- **%s %s**: %s' % (p['id'], p['title'], p['reason']) for p in props.NOT_APPLICABLE]
kf = json.load(open(os.path.join(H, 'KNOWN_FINDINGS.json')))
fixed = ['- ' + x[len('fixed: '):] for x in kf['fixed']]
known = ['- %s: %s' % (f['property'], f['what']) for f in kf['findings']]
res = {}
rf = os.path.join(H, 'selftest', 'seeded_results.json')
if os.path.exists(rf):
    res = json.load(open(rf))
sd = ['| planted bug | property | caught | needs |', '|---|---|---|---|']
S = os.path.join(H, 'seeded')
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    sd.append('| %s | %s | %s | %s |' % (d, m['property'], res.get(d, '?'), m['needs'].replace('|', '/')))
s = open(os.path.join(H, 'tool', 'DESIGN.in.md')).read()
for k, v in (('TABLE', t), ('NA', na), ('FIXED', fixed), ('KNOWN', known), ('SEEDS', sd)):
    s = s.replace('@@%s@@' % k, '\n'.join(v).rstrip() or '(none)')
open(os.path.join(H, 'DESIGN.md'), 'w').write(s)
