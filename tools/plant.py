#!/usr/bin/env python3
"""Development aid (no check uses it): validates a planted bug under seeded/<id>.
 plant.py new ID PROP FILE   (stdin: JSON {edits:[[file,old,new]..], needs, breaks, demo})  writes seeded/ID
 plant.py run ID...          applies each in /repo, builds, tests, demo, check; reverts
 plant.py clean              demo of all seeds on the unchanged tree"""
import sys, os, json, subprocess, shutil
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds for this history; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=$PWD/_build/libs/MeshKernelApi
g++ -std=c++20 -O1 -w -DUSE_LIBFMT=0 -I"$D" -I"$PWD/libs/MeshKernel/include" -I"$PWD/libs/MeshKernelApi/include" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L"$L" -lMeshKernelApi -Wl,-rpath,"$L" || exit 3
cd "$T" && OMP_NUM_THREADS=2 timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(i, prop, spec):
    d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
    assert not sh(f'git -C {R} status --short').stdout.strip(), 'repo dirty'
    try:
        for f, a, b in spec['edits']:
            p = f'{R}/{f}'; s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
    finally:
        sh(f'git -C {R} checkout -- .')
    json.dump(dict(property=prop, needs=spec['needs'], what_it_breaks=spec['breaks']), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include "mk.hpp"\nusing namespace mk;\n#define REQ(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)\n' + spec['demo'])
    shutil.copy(V + '/lib/mk.hpp', d); shutil.copy(V + '/lib/mc.hpp', d)
def demo(i):
    return sh(f'bash {V}/seeded/{i}/demo.sh', cwd=R)
def run(ids, checks=True):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        meta = json.load(open(f'{V}/seeded/{i}/meta.json')); P = meta['property']
        assert not sh(f'git -C {R} status --short').stdout.strip(), 'repo dirty'
        p = sh(f'git -C {R} apply {V}/seeded/{i}/patch.diff')
        if p.returncode: print(i, 'DOES NOT APPLY', p.stdout); continue
        try:
            b = sh('bash /opt/vp/test.sh /tmp/plant.json')
            if b.returncode and 'build failed' in b.stdout: print(i, 'BUILD FAILED', b.stdout[-2500:]); continue
            passed = set(json.load(open('/tmp/plant.json'))['passed'])
            miss = base - passed
            d = demo(i)
            c = sh(f'python3 {V}/run.py {P}') if checks else None
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')] if c else []
            print(f'{i} [{P}] tests:{"ok" if not miss else "FAIL "+str(len(miss))+" "+str(sorted(miss)[:3])} demo:{d.returncode} {d.stdout.strip()[-150:]!r} check:{c.returncode if c else "-"} {len(v)} violations', flush=True)
            if c:
                open(f'/tmp/plant_{i}.log', 'w').write(c.stdout)
        finally:
            sh(f'git -C {R} checkout -- .')
if sys.argv[1] == 'new': new(sys.argv[2], sys.argv[3], json.load(sys.stdin))
elif sys.argv[1] == 'run': run(sys.argv[2:])
elif sys.argv[1] == 'clean':
    print(sh('bash /opt/vp/build.sh').stdout[-100:])
    for i in (sys.argv[2:] or sorted(os.listdir(V + '/seeded'))):
        d = demo(i)
        if d.returncode: print(i, 'demo on clean tree:', d.returncode, d.stdout[-500:])
    print('clean done')
