#!/usr/bin/env python3
"""tryseed.py ID...: for each planted change: demo on clean, apply to /repo, build, stable tests, demo, check; undo. Records caught_by."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
nocheck = '--nocheck' in sys.argv


def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


assert not run(['git', '-C', R, 'status', '--porcelain', '-uno']).stdout.strip()
for id in [a for a in sys.argv[1:] if a[0] != '-']:
    d = os.path.join(V, 'seeded', id)
    m = json.load(open(d + '/meta.json'))
    c = run(['bash', d + '/demo.sh'], cwd=R)
    msg = ['demo clean %d' % c.returncode]
    a = run(['git', '-C', R, 'apply', d + '/patch.diff'])
    try:
        if a.returncode:
            print(id, 'does not apply', a.stdout)
            continue
        t = run(['bash', '/opt/vp/test.sh', '/tmp/seed.json'])
        passed = set(json.load(open('/tmp/seed.json'))['passed'])
        msg.append('tests ok' if stable <= passed else 'TESTS FAIL %s' % sorted(stable - passed))
        c2 = run(['bash', d + '/demo.sh'], cwd=R)
        msg.append('demo patched %d' % c2.returncode)
        if c.returncode:
            msg.append(c.stdout[-1500:])
        if not nocheck:
            k = run(['python3', 'check.py', m['property']], cwd=V)
            v = [l for l in k.stdout.split('\n') if l.startswith('VIOLATION') or l.startswith('ERROR')]
            msg.append('check %d %s' % (k.returncode, v))
            m['caught_by'] = m['property'] + (' (no failing input)' if v and 'no-failing' in v[0] else '') if k.returncode == 1 else 'missed'
            json.dump(m, open(d + '/meta.json', 'w'), indent=1)
    finally:
        run(['git', '-C', R, 'checkout', '--', '.'])
    print(id, '|', ' | '.join(msg), flush=True)
run(['bash', '/opt/vp/build.sh'])
