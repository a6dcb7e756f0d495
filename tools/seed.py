#!/usr/bin/env python3
"""Helper for planted bugs: seed.py confirm ID... | seed.py check ID [PROP...]
confirm: patch applies, builds, stable tests pass, demo passes without and fails with it.
check: runs the quick check of the bug's property (or the given ones) with the bug in place."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def with_patch(i, fn):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
    r = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
    if r.returncode:
        print(i, 'APPLY FAILED', r.stdout); return None
    try:
        return fn()
    finally:
        sh('git -C /repo checkout -- .')

def demo(i):
    # the folder lies elsewhere when it counts
    return sh('rm -rf /tmp/demo_%s && cp -a %s/seeded/%s /tmp/demo_%s && cd /repo && timeout 300 bash /tmp/demo_%s/demo.sh; rc=$?; rm -rf /tmp/demo_%s; exit $rc' % (i, V, i, i, i, i))

def confirm(i):
    base = {t for t in json.load(open('/opt/vp/BASELINE.json')).get('passed', json.load(open('/opt/vp/BASELINE.json')).get('stable', []))}
    def f():
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: return 'BUILD FAILED ' + b.stdout[-800:]
        sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        t = json.load(open('/tmp/seed_t.json'))
        if t['failed'] or len(t['passed']) < 86: return 'TESTS FAIL %s' % t['failed'][:5]
        d = demo(i)
        if d.returncode == 0: return 'DEMO PASSES WITH BUG ' + d.stdout[-500:]
        return 'ok (with bug: rc=%d %s)' % (d.returncode, d.stdout.strip()[-160:])
    r = with_patch(i, f)
    sh('bash /opt/vp/build.sh')
    d = demo(i)
    if d.returncode: r = 'DEMO FAILS ON CLEAN TREE rc=%d %s' % (d.returncode, d.stdout[-600:])
    print('CONFIRM', i, r, flush=True)

def check(i, props):
    props = props or [json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']]
    def f():
        for p in props:
            r = sh('cd %s && python3 check.py %s --tier quick' % (V, p))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  ')]
            print('CHECK', i, p, 'rc=%d' % r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED', (v[0][:200] if v else r.stdout[-300:]), flush=True)
    with_patch(i, f)

if __name__ == '__main__':
    if sys.argv[1] == 'confirm':
        for i in sys.argv[2:]: confirm(i)
    elif sys.argv[1] == 'check':
        check(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == 'all':
        for i in sorted(os.listdir(V + '/seeded')): check(i, [])
