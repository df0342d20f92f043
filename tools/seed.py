#!/usr/bin/env python3
"""seed.py make ID   : turn the uncommitted change of /repo into seeded/ID/patch.diff (and undo it)
seed.py test ID [CHECK..] : apply, build, stable tests, demo, checks; undo; also demo on the clean tree"""
import subprocess as sp, sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, t=1200: sp.run(c, shell=True, text=True, stdout=sp.PIPE, stderr=sp.STDOUT, timeout=t)


def demo(i):
    sp.run('mkdir -p /tmp/w/demo; cp -r %s/seeded/%s/. /tmp/w/demo/%s' % (V, i, i), shell=True)
    return sp.run('bash /tmp/w/demo/%s/demo.sh' % i, shell=True, cwd='/repo', stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=300)


def test(i, checks):
    d = '%s/seeded/%s' % (V, i)
    meta = json.load(open(d + '/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo dirty'
    sh('bash /opt/vp/build.sh')
    r = demo(i)
    out = ['clean-demo=%d' % r.returncode]
    if r.returncode:
        print(r.stdout[-1500:])
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stdout
        b = sh('bash /opt/vp/test.sh /tmp/w/seed.json')
        j = json.load(open('/tmp/w/seed.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [x for x in st if x not in j['passed']]
        out.append('tests=%s' % ('OK' if not miss else 'FAIL %s' % miss[:4]))
        if not j['passed']:
            print(b.stdout[-1500:])
        r = demo(i)
        out.append('demo=%d' % r.returncode)
        for c in (checks or [meta['property']]):
            r = sh('cd %s && bin/check %s' % (V, c), 1000)
            out.append('%s=%d' % (c, r.returncode))
            if r.returncode != 1:
                print(r.stdout[-800:])
    finally:
        sh('git -C /repo checkout -- .')
    print(i, *out, flush=True)


if sys.argv[1] == 'make':
    i = sys.argv[2]
    os.makedirs('%s/seeded/%s' % (V, i), exist_ok=True)
    p = sh('git -C /repo diff').stdout
    assert p
    open('%s/seeded/%s/patch.diff' % (V, i), 'w').write(p)
    sh('git -C /repo checkout -- .')
    q = '%s/seeded/%s/demo.sh' % (V, i)
    if not os.path.exists(q):
        open(q, 'w').write('''#!/bin/bash
# builds demo.F90 against the library /opt/vp/build.sh left in _build and runs it
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build; T=$(mktemp -d)
gfortran-11 -cpp -ffree-line-length-none -I$B/src/libfazang.so.p -I$B/lib/sundials-6.1.1/libsundials.a.p -J$T -o $T/demo $D/demo.F90 \\
  -L$B/src -lfazang -Wl,-rpath,$B/src || exit 3
timeout 100 $T/demo
''')
        os.chmod(q, 0o755)
else:
    ids = [sys.argv[2]] if sys.argv[2] != 'all' else sorted(os.listdir(V + '/seeded'))
    for i in ids:
        test(i, sys.argv[3:])
