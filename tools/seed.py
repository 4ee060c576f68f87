#!/usr/bin/env python3
"""seed.py verify ID... : in the scratch copy /tmp/sw (see DESIGN.md) confirm that a planted bug applies, builds, passes the
stable tests, and that its demo passes without and fails with it.   seed.py check ID... : run the property's check against it (in /repo, undone afterwards)."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def sync():
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD' % (SW, SW, SW))


base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) or json.load(open('/opt/vp/BASELINE.json')).get('stable', []))


def demo(d):
    t = '/tmp/sw-demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    for f in os.listdir(t):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.unlink(os.path.join(t, f))
    r = sh('bash %s/demo.sh' % t, cwd=SW, timeout=300)
    return r.returncode, r.stdout[-1500:]


mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    if mode == 'verify':
        sync()
        sh('bash /tmp/sw-scripts/build.sh')
        rc0, o0 = demo(d)
        a = sh('git -C %s apply %s/patch.diff' % (SW, d))
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stdout)
            continue
        t = sh('bash /tmp/sw-scripts/test.sh /tmp/sw.json')
        r = json.load(open('/tmp/sw.json'))
        rc1, o1 = demo(d)
        sync()
        fails = r['failed']
        okk = rc0 == 0 and rc1 != 0 and len(r['passed']) >= 106 and not fails
        print(i, 'OK' if okk else 'BAD', 'demo', rc0, rc1, 'tests', len(r['passed']), fails[:3])
        if not okk:
            print('--- unpatched:', o0, '--- patched:', o1, '' if r['passed'] else t.stdout[-1500:])
    else:
        m = json.load(open(os.path.join(d, 'meta.json')))
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stdout)
            continue
        try:
            t0 = time.time()
            r = sh('python3 %s/check.py %s' % (V, m['property']))
        finally:
            sh('git -C /repo checkout -- .')
        print(i, m['property'], 'CAUGHT' if r.returncode == 1 else 'missed rc=%d' % r.returncode, '%.0fs' % (time.time() - t0))
        print('   ' + '\n   '.join(x[:300] for x in r.stdout.split('\n') if x.startswith(('failed', 'VIOL', 'undec', 'error', 'note'))))
    sys.stdout.flush()
