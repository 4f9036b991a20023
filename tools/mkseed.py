#!/usr/bin/env python3
"""mkseed.py SPEC.py: creates seeded/<id>/ from a spec (id, property, edits, demo, sources, needs, breaks) via a scratch clone."""
import os, sys, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository root after the build: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w %(flags)s -Isrc -I"$here" "$here/demo.cpp" %(srcs)s -o "$t/demo" -lpthread || exit 1
timeout 60 "$t/demo"
'''


def make(id, property, edits, demo, sources, needs, breaks, flags='', files=None):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    s = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', s + '/r'])
        for f, a, b in edits:
            p = os.path.join(s, 'r', f)
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', s + '/r', 'diff'], text=True))
    finally:
        shutil.rmtree(s)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    for k, v in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, k)) or d, exist_ok=True)
        open(os.path.join(d, k), 'w').write(v)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % dict(srcs=' '.join(sources), flags=flags))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    old = {}
    mp = os.path.join(d, 'meta.json')
    if os.path.exists(mp):
        old = json.load(open(mp))
    m = {'property': property, 'needs': needs, 'what_it_breaks': breaks}
    if 'caught_by' in old:
        m['caught_by'] = old['caught_by']
    json.dump(m, open(mp, 'w'), indent=1)
