#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines seeds = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=source, [srcs], [sh])]; writes seeded/<id>/"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['seeds']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    subprocess.run('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD' % (SW, SW, SW), shell=True, check=True)
    for f, a, b in s['edits']:
        p = os.path.join(SW, f)
        t = open(p).read()
        assert t.count(a) == 1, (s['id'], f, a, t.count(a))
        open(p, 'w').write(t.replace(a, b))
    for f, a, b in s['edits']:
        base = subprocess.run(['git', '-C', '/repo', 'show', '82271fa:' + f], stdout=subprocess.PIPE, text=True).stdout.split('\n')
        gone = [l[1:] for l in subprocess.run(['git', '-C', SW, 'diff', '-U0', f], stdout=subprocess.PIPE, text=True).stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
        assert not [l for l in gone if l not in base], (s['id'], 'changes lines of a fix', gone)
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', SW, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if 'sh' in s:
        open(os.path.join(d, 'demo.sh'), 'w').write(s['sh'])
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -DBOOST_ASIO_NO_DEPRECATED -g -w %s -Iinclude "$here/demo.cpp" %s -o "$t/demo" -lpthread -lssl -lcrypto || exit 3
timeout 60 "$t/demo"
''' % (s.get('flags', ''), ' '.join(s.get('srcs', []))))
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
    subprocess.run('git -C %s checkout -q -- .' % SW, shell=True)
    print(s['id'])
