"""Mutation campaign (development tool, not a check): mutate.py SRCFILE PROPS[,..] [--n N] [--seed S] [--lines A-B]
Compiles mutants of one source file against copies of the objects of /repo/_build (made in /tmp/mut), drops those the
unit tests kill and lists those that the quick exploration of none of the properties kills in /tmp/mut/survivors.txt."""
import sys, os, re, random, subprocess, json, glob, shutil, time
sys.path.insert(0, '/verif')
M = '/tmp/mut'; B = M + '/base'; REPO = '/repo'
JOBS = int(os.environ.get('MUTJOBS', '4'))
def sh(c, t=600, **k): 
    try: return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, errors='replace', timeout=t, **k)
    except subprocess.TimeoutExpired: return None
def setup():
    if os.path.exists(B): return
    os.makedirs(B)
    for s, d in (('libs/MeshKernel/CMakeFiles/MeshKernel.dir', 'k'), ('libs/MeshKernelApi/CMakeFiles/MeshKernelApi.dir', 'a'), ('libs/MeshKernel/tests/CMakeFiles/MeshKernelUnitTests.dir', 'kt'), ('libs/MeshKernelApi/tests/CMakeFiles/MeshKernelApiUnitTests.dir', 'at')):
        shutil.copytree(REPO + '/_build/' + s, B + '/' + d)
    for f in ('tools/test_utils/libMeshKernelTestUtils.a', 'lib/libgmock.a', 'lib/libgtest_main.a', 'lib/libgtest.a', 'extern/triangle/libTriangle.a'): shutil.copy(REPO + '/_build/' + f, B)
    cmds = {}
    for l in sh('ninja -C /repo/_build -t commands MeshKernelUnitTests MeshKernelApiUnitTests').stdout.splitlines():
        m = re.search(r'-c (/repo/libs/MeshKernel(?:Api)?/src/\S+\.cpp)', l)
        if m: cmds[m.group(1)] = l
    json.dump(cmds, open(B + '/cmds.json', 'w'))
LIBS = '-fopenmp -lnetcdf -ldl -lm -lpthread'
def objs(d): return sorted(glob.glob(B + '/' + d + '/**/*.o', recursive=True))
def link(out, front, mut):
    k = [o for o in objs('k') + objs('a') if mut is None or o != mut[0]] + ([mut[1]] if mut else [])
    r = sh(['g++', '-o', out] + front + k + [B + '/libMeshKernelTestUtils.a', B + '/libgmock.a', B + '/libgtest_main.a', B + '/libgtest.a', B + '/libTriangle.a'] + LIBS.split())
    return r and r.returncode == 0, (r.stderr[-800:] if r else 'timeout')
def gfilter():
    b = json.load(open('/opt/vp/BASELINE.json')); ids = b if isinstance(b, list) else b.get('passed') or b.get('tests') or list(b.values())[0]
    out = {'MeshKernelUnitTests': [], 'MeshKernelApiUnitTests': []}
    for i in ids:
        x, _, n = i.partition('::')
        if x in out: out[x].append(n)
    return out
def tests(mut, w):
    g = gfilter()
    for d, nm in (('kt', 'MeshKernelUnitTests'), ('at', 'MeshKernelApiUnitTests')):
        e = w + '/' + nm; ok, er = link(e, objs(d), mut)
        if not ok: return 'link ' + er
        ps = [subprocess.Popen([e, '--gtest_filter=' + ':'.join(c), '--gtest_brief=1'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, OMP_NUM_THREADS='1')) for c in [g[nm][i::JOBS] for i in range(JOBS)]]
        bad = False; out = ''
        for p in ps:
            try: o, _ = p.communicate(timeout=90)
            except subprocess.TimeoutExpired: p.kill(); bad = True; continue
            if p.returncode != 0: bad = True; out += o.decode(errors='replace')
        os.remove(e)
        if bad: return 'tests ' + ' '.join(sorted(set(re.findall(r'FAILED  \] (\S+)', out))))
    return None
def harness(prop):
    s = '/verif/harness/%s.cpp' % prop.lower(); o = B + '/h_%s.o' % prop
    if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s):
        r = sh(['g++', '-std=c++20', '-O1', '-fopenmp', '-I/verif/lib', '-isystem', '/usr/include/eigen3', '-I/repo/libs/MeshKernel/include', '-I/repo/libs/MeshKernelApi/include', '-I/repo/extern/triangle/include', '-I/verif/build/gen', '-DHAVE_SRC_LOC_IN_ERR_MSGS=0', '-DUSE_LIBFMT=0', '-c', s, '-o', o])
        if r.returncode: print(r.stderr[-2000:]); sys.exit(1)
    return o
def check(prop, mut, w, cap=150):
    e = w + '/' + prop; ok, er = link(e, [harness(prop)], mut)
    if not ok: return 'link ' + er
    ps = []
    for i in range(JOBS):
        out = '%s/%s_%d.json' % (w, prop, i)
        for x in glob.glob(out + '*'): os.remove(x)
        ps.append((out, subprocess.Popen([e, '--shard', str(i), '--nshards', str(JOBS), '--out', out, '--progress', out + '.p', '--time', str(cap)], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, OMP_NUM_THREADS='1'))))
    res = None; t = time.time() + cap + 60
    live = list(ps)
    while live and not res:
        time.sleep(0.2)
        for x in list(live):
            out, p = x
            if os.path.exists(out + '.viol'):
                L = [l.strip() for l in open(out + '.viol', errors='replace') if '\t' in l and not any(k in l for k in KNOWN)]
                if L: res = prop + ': ' + L[0][:100]
            if p.poll() is not None:
                live.remove(x)
                if p.returncode not in (0, 3) or not os.path.exists(out): res = res or prop + ': crash'
                elif json.load(open(out)).get('violations') and not KNOWN: res = res or prop + ': ' + str(json.load(open(out))['violations'])[:100]
        if time.time() > t: res = res or prop + ': hang'
    for _, p in live: p.kill()
    os.remove(e)
    return res
KNOWN = [k['key'] for k in json.load(open('/verif/known_findings.json'))['findings']]
def mutants(src):
    L = open(src).read().split('\n'); out = []; depth = 0; inblock = False
    for i, l in enumerate(L):
        c = l.split('//')[0]; s = c.strip()
        if s.startswith('/*'): inblock = True
        if inblock:
            if '*/' in s: inblock = False
            continue
        if not s or s.startswith(('#', 'throw', 'using', '*', 'template', 'return {', 'static_assert')) or not l.startswith((' ', '\t')) or 'MeshKernelError' in s or 'range_error' in s or '"' in s: continue
        def add(new, what): out.append((i, new, what))
        for m in re.finditer(r' (<=|>=|==|!=|<|>|&&|\|\|) ', c):
            o = m.group(1); R = {'<': ['<='], '>': ['>='], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&']}[o]
            for n in R: add(c[:m.start(1)] + n + c[m.end(1):], o + ' -> ' + n)
        for m in re.finditer(r' ([+-]) 1\b(?!\.)', c): add(c[:m.start()] + c[m.end():], 'drop ' + m.group().strip())
        for m in re.finditer(r' ([+\-*/]) (?=[\w(])', c):
            n = {'+': '-', '-': '+', '*': '+', '/': '*'}[m.group(1)]
            if not re.match(r' [+-] 1\b', c[m.start():]): add(c[:m.start(1)] + n + c[m.end(1):], m.group(1) + ' -> ' + n)
        for m in re.finditer(r'\btrue\b|\bfalse\b', c): add(c[:m.start()] + ('false' if m.group() == 'true' else 'true') + c[m.end():], 'flip bool')
        for m in re.finditer(r'\.first\b|\.second\b', c): add(c[:m.start()] + ('.second' if m.group() == '.first' else '.first') + c[m.end():], 'first/second')
        if s == 'continue;': add(c.replace('continue;', 'break;'), 'continue -> break')
        if s == 'break;': add(c.replace('break;', ';'), 'drop break')
        if re.fullmatch(r'[\w\.\[\]>()\-:, *+&]+(\(.*\)| [+\-*/]?= .*|\+\+|--);|\+\+.*;', s) and not re.match(r'(const |auto |return|int |double |UInt |bool |std::\w+(<.*>)? \w+ ?[=;({]|Point \w+|size_t )', s): add(c[:len(c) - len(c.lstrip())] + ';', 'drop statement')
        m = re.match(r'\s*(else )?if \((.*)\)\s*$', c)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            k = c.index('if ('); add(c[:k] + 'if (' + m.group(2) + ' && false)' if '||' not in m.group(2) else c[:k] + 'if ((' + m.group(2) + ') && false)', 'if false'); add(c[:k] + 'if ((' + m.group(2) + ') || true)', 'if true')
        for m in re.finditer(r'(?<=[\w\])]) ?\? ([\w\.\[\]]+) : ([\w\.\[\]]+)', c): add(c[:m.start(1)] + m.group(2) + ' : ' + m.group(1) + c[m.end(2):], 'swap ?:')
        for m in re.finditer(r'= 0;', c): add(c[:m.start()] + '= 1;' + c[m.end():], '0 -> 1')
    return L, out
def main():
    a = sys.argv[1:]; src = REPO + '/' + a[0] if not a[0].startswith('/') else a[0]; props = a[1].split(',')
    n = int(a[a.index('--n') + 1]) if '--n' in a else 40; seed = int(a[a.index('--seed') + 1]) if '--seed' in a else 1
    setup(); cmds = json.load(open(B + '/cmds.json')); L, ms = mutants(src)
    if '--lines' in a: lo, hi = map(int, a[a.index('--lines') + 1].split('-')); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    random.Random(seed).shuffle(ms); rel = os.path.relpath(src, REPO)
    w = M + '/w%d' % os.getpid(); os.makedirs(w, exist_ok=True)
    st = dict(bad=0, tests=0, killed=0, survived=0); done = 0
    lg = open(M + '/log.txt', 'a')
    for i, new, what in ms:
        if st['tests'] + st['killed'] + st['survived'] >= n * 4 or st['killed'] + st['survived'] >= n: break
        f = w + '/m.cpp'; open(f, 'w').write('\n'.join(L[:i] + [new] + L[i + 1:]))
        o = w + '/m.o'; c = cmds[src]; c = re.sub(r'-o \S+', '-o ' + o, c); c = re.sub(r'-MD -MT \S+ -MF \S+', '', c).replace('-c ' + src, '-c ' + f + ' -I' + os.path.dirname(src))
        r = sh(c, cwd=w)
        if not r or r.returncode: st['bad'] += 1; continue
        base = [x for x in objs('k') + objs('a') if x.endswith('/' + rel.split('/src/')[1] + '.o')][0]
        mut = (base, o); k = tests(mut, w)
        if k: st['tests'] += 1; lg.write('T %s:%d %s\n' % (rel, i + 1, what)); lg.flush(); continue
        for p in props:
            k = check(p, mut, w)
            if k: break
        if k: st['killed'] += 1; lg.write('K %s:%d %s | %s | %s\n' % (rel, i + 1, what, new.strip(), k))
        else:
            st['survived'] += 1; t = '%s:%d [%s] %s  =>  %s\n' % (rel, i + 1, what, L[i].strip(), new.strip()); lg.write('S ' + t); open(M + '/survivors.txt', 'a').write(t)
        lg.flush()
    shutil.rmtree(w); lg.write('%s %s\n' % (rel, st)); lg.close(); print(rel, st)
if __name__ == '__main__': main()
