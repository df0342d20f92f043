#!/usr/bin/env python3
"""cseed.py FILE.py: each entry of SEEDS in FILE = dict(id, property, file, edits=[(old,new)], demo (C text), needs, breaks); writes seeded/<id>/ (patch, demo, meta) and leaves /repo clean"""
import sys, os, json, subprocess as sp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds demo.c against the library the build left in _build and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
L=$PWD/lib/sundials-6.1.1
gcc-11 -O1 -I$L/include -I$L/src/sundials -I$L/src %s -o $T/demo $D/demo.c %s $PWD/_build/lib/sundials-6.1.1/libsundials.a -lm -lpthread || exit 3
timeout 100 $T/demo; r=$?
rm -r "$T"; exit $r
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    assert sp.run('git -C /repo status --porcelain', shell=True, stdout=sp.PIPE).stdout == b''
    fs = s['file'] if isinstance(s['file'], list) else [s['file']] * len(s['edits'])
    for f, (o, n) in zip(fs, s['edits']):
        p = '/repo/lib/sundials-6.1.1/' + f
        t = open(p).read()
        assert t.count(o) == 1, (s['id'], o, t.count(o))
        open(p, 'w').write(t.replace(o, n))
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(sp.run('git -C /repo diff', shell=True, stdout=sp.PIPE).stdout)
    sp.run('git -C /repo checkout -- .', shell=True)
    open(d + '/demo.c', 'w').write(ns.get('PRE', '') + s['demo'])
    open(d + '/demo.sh', 'w').write(SH % (s.get('cflags', ''), s.get('extra', '')))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
