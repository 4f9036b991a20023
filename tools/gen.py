#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from plist.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path[:0] = [D, os.path.join(V, 'contracts')]
import plist, props
na = {x['property'] for x in plist.NA}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in plist.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = []
for p in plist.P:
    if p['id'] in na:
        continue
    assert p['id'] in props.PROPS, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'contract-based deductive verification of the real code (own VC generator over LLVM IR, z3 and cvc5)',
                   'level': props.PROPS[p['id']].get('level', 'proof'), 'level_note': p['_note']})
for k in props.PROPS:
    assert k in [p['id'] for p in plist.P], k
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': plist.NA}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(plist.NA), 'not applicable')

import glob
t = open(os.path.join(D, 'DESIGN.in')).read()
rows = []
for p in plist.P:
    if p['id'] in na:
        continue
    q = props.PROPS[p['id']]
    bnd = ['%s (%s)' % (h['name'], h.get('bound', 'bounded')) for h in q['harnesses'] if h.get('mode') == 'bmc' or h.get('bound')]
    rows.append('* **%s %s.** %s\n  Contracts: `contracts/%s`, harnesses %s. Functions: %s. %s%s' % (
        p['id'], p['title'], p['_note'][0].upper() + p['_note'][1:] + '.', q['src'], ', '.join(h['name'] for h in q['harnesses']), '; '.join(q.get('functions', [])),
        ('Bounded stand-ins: ' + ', '.join(bnd) + '. ') if bnd else '', ('Assumed: ' + '; '.join(q['assumptions']) + '.') if q.get('assumptions') else ''))
finds = ['* ' + l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.strip() and l[0] != '#']
seeds = []
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'], d.get('caught_by', '?')))
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FINDINGS@@', '\n'.join(finds))
t = t.replace('@@SEEDED@@', '| change | property | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(seeds))
t = t.replace('@@NA@@', '\n'.join('* %s: %s' % (x['property'], x['reason']) for x in plist.NA) + '\n' + plist.OUTSIDE)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
