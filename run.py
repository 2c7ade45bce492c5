#!/usr/bin/env python3
"""Driver: builds MeshKernel from /repo's working tree, builds the harness of one property, explores the
bounded space exhaustively in parallel shards, confirms every violation by replay, writes the evidence.

usage: run.py <property> [--thorough] [--replay FILE] [--build-only] [--jobs N]
"""
import sys, os, json, time, hashlib, subprocess, glob, struct, shutil, signal, array, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from props import PROPS
JOBS = 8

PCH = '''algorithm array cassert cmath concepts cstring initializer_list limits map memory numeric
source_location stdexcept sstream string string_view tuple type_traits unordered_map unordered_set vector set
functional optional ranges span cstdint cstddef utility iostream fstream iomanip queue'''.split()

def log(*a):
    print(*a, flush=True)

def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def base_flags(variant):
    f = ['-DCMAKE_SRC_DIR=' + REPO, '-DHAVE_SRC_LOC_IN_ERR_MSGS=0', '-DUSE_LIBFMT=0', '-w', '-pipe',
         '-I' + BUILD + '/gen', '-I' + REPO + '/libs/MeshKernel/include', '-I' + REPO + '/libs/MeshKernelApi/include',
         '-I' + REPO + '/tools', '-I' + REPO + '/extern/triangle/src', '-isystem', '/usr/include/eigen3', '-D_GLIBCXX_ASSERTIONS']
    f += {'plain': ['-O1', '-fopenmp'],
          'asan': ['-O1', '-g1', '-fopenmp', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-common'],
          'ubsan': ['-O1', '-fopenmp', '-fsanitize=undefined'],
          'omp': ['-O1', '-fopenmp', '-fsanitize=thread'],  # memory accesses call the hooks of lib/omp_rt.hpp, no libtsan, no libgomp
          }[variant]
    return f

CXX = ['-std=c++20'] + sum([['-include', h] for h in PCH], [])

def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def atomic(cmd_out):
    return cmd_out + '.%d.tmp' % os.getpid()

def build_lib(variant, pool):
    """returns list of futures giving object lists"""
    os.makedirs(BUILD + '/gen/Version', exist_ok=True)
    vf = BUILD + '/gen/Version/Version.hpp'
    if not os.path.exists(vf):
        with open(vf, 'w') as f:
            f.write('#pragma once\nstatic const char versionString[64] = "5.0.1.0";\n')
    outd = BUILD + '/' + variant
    os.makedirs(outd, exist_ok=True)
    srcs = []
    for d in ('libs/MeshKernel/src', 'libs/MeshKernelApi/src'):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            srcs += [os.path.join(r, f) for f in fs if f.endswith('.cpp')]
    srcs.sort()
    hdrs = []
    for d in ('libs/MeshKernel', 'libs/MeshKernelApi', 'tools', 'extern/triangle'):
        for r, dn, fs in os.walk(os.path.join(REPO, d)):
            if '/tests' in r or r.endswith('/Version'):
                continue
            hdrs += [os.path.join(r, f) for f in fs if f.endswith(('.hpp', '.h', '.ipp', '.inl', '.hxx'))]
    hh = sh256(*[h + '\0' + sh256(read(h)) for h in sorted(hdrs)])
    flags = base_flags(variant)
    fk = sh256(' '.join(flags + CXX))
    # balance into units by size
    units = [[] for _ in range(8)]
    load = [0] * 8
    for s in sorted(srcs, key=lambda p: (-os.path.getsize(p) - 12000, p)):
        i = load.index(min(load)); units[i].append(s); load[i] += os.path.getsize(s) + 12000
    def one(srcfiles, out):
        tmp = atomic(out)
        cmd = ['g++'] + CXX + flags + ['-c', srcfiles, '-o', tmp]
        p = run_cmd(cmd)
        if p.returncode == 0:
            os.rename(tmp, out)
        return p
    def unit(u):
        u = sorted(u)
        key = sh256(hh, fk, *[s + '\0' + sh256(read(s)) for s in u])
        marker = outd + '/u_' + key + '.list'
        if os.path.exists(marker):
            return json.load(open(marker))
        ucpp = outd + '/u_' + key + '.cpp'
        with open(ucpp, 'w') as f:
            f.write(''.join('#include "%s"\n' % s for s in u))
        o = outd + '/u_' + key + '.o'
        p = one(ucpp, o)
        objs = [o]
        if p.returncode != 0:
            # name collisions between translation units: fall back to one object per file
            objs = []
            for s in u:
                os_ = outd + '/f_' + sh256(key, s) + '.o'
                p = one(s, os_)
                if p.returncode != 0:
                    raise RuntimeError('compile failed: %s\n%s' % (s, p.stdout.decode(errors='replace')[-4000:]))
                objs.append(os_)
        json.dump(objs, open(atomic(marker), 'w')); os.rename(atomic(marker), marker)
        return objs
    def cunit():
        cs = [REPO + '/extern/triangle/src/triangle.c', REPO + '/extern/triangle/src/TriangleFacade.c']
        objs = []
        for c in cs:
            o = outd + '/c_' + sh256(hh, fk, read(c), c) + '.o'
            if not os.path.exists(o):
                tmp = atomic(o)
                fl = [x for x in flags if x != '-D_GLIBCXX_ASSERTIONS']
                p = run_cmd(['gcc'] + fl + ['-DANSI_DECLARATORS', '-DTRILIBRARY', '-DNO_TIMER', '-c', c, '-o', tmp])
                if p.returncode: raise RuntimeError('compile failed: %s\n%s' % (c, p.stdout.decode(errors='replace')[-4000:]))
                os.rename(tmp, o)
            objs.append(o)
        return objs
    return [pool.submit(unit, u) for u in units if u] + [pool.submit(cunit)]

def build(harness, variant, defs=()):
    t0 = time.time()
    pool = ThreadPoolExecutor(10)
    src = os.path.join(HERE, 'harness', harness + '.cpp')
    flags = base_flags(variant)
    hkey_parts = [read(src)] + [read(p) for p in sorted(glob.glob(HERE + '/lib/*.hpp'))] + \
                 [read(p) for p in sorted(glob.glob(REPO + '/libs/MeshKernelApi/include/**/*.hpp', recursive=True) + glob.glob(REPO + '/libs/MeshKernel/include/**/*.hpp', recursive=True))]
    hk = sh256(' '.join(flags + list(defs)), *hkey_parts)
    os.makedirs(BUILD + '/h', exist_ok=True)
    ho = BUILD + '/h/%s_%s_%s.o' % (harness, variant, hk)
    def hb():
        if not os.path.exists(ho):
            tmp = atomic(ho)
            p = run_cmd(['g++', '-std=c++20'] + [x for x in flags if x != '-fsanitize=thread'] + list(defs) + ['-I' + HERE + '/lib', '-c', src, '-o', tmp])
            if p.returncode: raise RuntimeError('harness compile failed\n' + p.stdout.decode(errors='replace')[-6000:])
            os.rename(tmp, ho)
        return [ho]
    hf = pool.submit(hb)
    libs = build_lib(variant, pool)
    objs = sum([f.result() for f in (libs + [hf] if variant == 'omp' else [hf] + libs)], [])
    key = sh256(*objs)
    exe = BUILD + '/h/%s_%s_%s.exe' % (harness, variant, key)
    if not os.path.exists(exe):
        lf = [x for x in flags if x.startswith('-fsanitize') or x == '-fopenmp']
        if variant == 'omp': lf = ['-Wl,--wrap=' + x for x in ('memcpy', 'memmove', 'memset', 'free', 'pthread_mutex_lock', 'pthread_mutex_unlock')]
        tmp = atomic(exe)
        p = run_cmd(['g++', '-o', tmp] + objs + lf)
        if p.returncode: raise RuntimeError('link failed\n' + p.stdout.decode(errors='replace')[-4000:])
        os.rename(tmp, exe)
    return exe, time.time() - t0

ENV = dict(os.environ, OMP_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:abort_on_error=1', MALLOC_PERTURB_='85')

def read_progress(path, cases=True):
    try:
        b = read(path)
    except OSError:
        return 0, []
    if len(b) < 16: return 0, []
    c, n = struct.unpack('<QQ', b[:16])
    if not cases: return c, []
    t = b[16:16 + n].decode(errors='replace')
    v = [tuple(map(int, x.split(':'))) for x in t.split('.') if ':' in x]
    return c, v

def next_prefix(v):
    v = list(v)
    while v and v[-1][0] + 1 >= v[-1][1]: v.pop()
    if not v: return None
    return [a for a, _ in v[:-1]] + [v[-1][0] + 1]

class Shard(threading.Thread):
    def __init__(s, exe, i, n, work, args, stall, cap):
        super().__init__(daemon=True)
        s.exe, s.i, s.n, s.work, s.args, s.stall, s.cap = exe, i, n, work, args, stall, cap
        s.results, s.crashes, s.early, s.incomplete = [], [], [], False
    def run(s):
        start = None
        t_end = time.time() + s.cap
        part = 0
        while True:
            out = '%s/s%d_%d.json' % (s.work, s.i, part); prog = '%s/s%d_%d.prog' % (s.work, s.i, part)
            part += 1
            cmd = [s.exe, '--shard', str(s.i), '--nshards', str(s.n), '--out', out, '--progress', prog, '--time', str(max(5, t_end - time.time()))] + s.args
            if start is not None: cmd += ['--start', '.'.join(map(str, start))]
            errf = open(out + '.err', 'wb')
            p = subprocess.Popen(cmd, stdout=errf, stderr=errf, env=ENV, start_new_session=True, cwd=s.work)
            last, lastt = -1, time.time()
            why = None
            while True:
                try:
                    p.wait(timeout=0.5); break
                except subprocess.TimeoutExpired:
                    c, _ = read_progress(prog, False)
                    if c != last: last, lastt = c, time.time()
                    elif time.time() - lastt > s.stall:
                        why = 'hang'; os.killpg(p.pid, signal.SIGKILL); p.wait(); break
            errf.close()
            if os.path.exists(out):
                s.results.append((json.load(open(out)), out))
                return
            if os.path.exists(out + '.viol'):
                for l in read(out + '.viol').decode(errors='replace').splitlines():
                    ch, _, k = l.partition('\t'); s.early.append(dict(choices=ch, key=k, msg='', trace=''))
            _, v = read_progress(prog)
            txt = read(out + '.err').decode(errors='replace')[-3000:]
            s.crashes.append(('.'.join(str(a) for a, _ in v), why or 'exit %s' % p.returncode, txt))
            start = next_prefix(v)
            if start is None: return
            if len(s.crashes) >= int(os.environ.get('VERIF_CRASHES', '6')) or sum(c[1] == 'hang' for c in s.crashes) >= 2 or time.time() > t_end:
                s.incomplete = True; return

def crash_key(txt, why):
    if why == 'hang': return 'hang'
    for l in txt.splitlines():
        if 'ERROR: AddressSanitizer' in l:
            return 'asan:' + l.split('AddressSanitizer:')[1].strip().split(' ')[0]
        if 'Assertion' in l and 'failed' in l: return 'assert'
        if 'runtime error:' in l: return 'ubsan'
    return 'crash'

def replay_case(exe, args, choices, limit, work, tag='r'):
    out = '%s/%s.json' % (work, tag)
    if os.path.exists(out): os.remove(out)
    try:
        p = subprocess.run([exe, '--replay', choices, '--out', out] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=limit, cwd=work)
        txt = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'hang', 'hang', (e.stdout or b'').decode(errors='replace'), []
    if os.path.exists(out):
        r = json.load(open(out))
        if r['violations']: return 'viol', r['violations'][0]['key'], txt, r['violations']
        return 'pass', '', txt, []
    if p.returncode == 97: return 'diverged', '', txt, []
    return 'crash', crash_key(txt, ''), txt, []

def known_findings(prop):
    p = HERE + '/known_findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k['status'] == 'open']

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        for v in ('plain',):
            pool = ThreadPoolExecutor(10)
            for f in build_lib(v, pool): f.result()
        return 0
    prop = a[0]
    P = PROPS[prop]
    thorough = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    jobs = JOBS
    if '--jobs' in a: jobs = int(a[a.index('--jobs') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    exe, bt = build(P['harness'], P.get('variant', 'plain'), P.get('defs', []))
    log('build %.1fs' % bt)
    if '--build-only' in a: return 0
    args = ['--thorough'] if thorough else []
    work = BUILD + '/work/%s_%d' % (prop, os.getpid())
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if '--replay' in a:
        f = json.load(open(a[a.index('--replay') + 1]))
        st, key, txt, _ = replay_case(exe, f['args'], f['choices'], 300, work)
        log(txt); log('replay result:', st, key)
        return 0 if st == 'pass' else 1
    cap = (3 * 3600 if thorough else 420)
    if '--cap' in a: cap = float(a[a.index('--cap') + 1])
    stall = 180 if thorough else 60
    shards = [Shard(exe, i, jobs, work, args, stall, cap) for i in range(jobs)]
    for s in shards: s.start()
    for s in shards: s.join()
    if any(not s.results and not s.incomplete and not s.crashes for s in shards):
        log('a shard of the exploration gave no result'); return 2
    tot = dict(cases=0, transitions=0, checks=0, validated=0)
    states, outcomes, samples, viols = set(), set(), [], []
    capped = any(s.incomplete for s in shards)
    for s in shards:
        for r, out in s.results:
            for k in tot: tot[k] += r[k]
            capped |= r['capped']
            samples += r['samples']
            for v in r['violations']: viols.append(v)
            for nm, st in (('.states', states), ('.outcomes', outcomes)):
                arr = array.array('Q'); b = read(out + nm); arr.frombytes(b); st.update(arr)
    # crashes and hangs
    for s in shards:
        viols += s.early
        for ch, why, txt in s.crashes:
            viols.append(dict(choices=ch, key=crash_key(txt, why), msg='process died (%s)\n%s' % (why, txt), trace='', crash=True))
    kf = known_findings(prop)
    confirmed, known_hit, unconfirmed = [], {}, []
    viols.sort(key=lambda v: (v['choices'].count('.'), v['choices']))
    if os.environ.get('VERIF_CRASHES'):
        for v in viols: log('RAW', v['choices'], v['key'], ' '.join(l for l in v['msg'].splitlines() if 'Assert' in l or 'SUMMARY' in l or 'what()' in l or not v.get('crash'))[:300])
    byk = {}
    for v in viols: byk.setdefault(v['key'], []).append(v)
    for key, vs in byk.items():
        for v in vs[:3]:
            st, k2, txt, vv = replay_case(exe, args, v['choices'], 90, work)
            if st == 'pass' or st == 'diverged':
                unconfirmed.append((key, v, st)); continue
            if st == 'viol' : v['key'] = k2; v['msg'] = vv[0]['msg']; v['trace'] = vv[0]['trace']
            elif st in ('crash', 'hang'): v['key'] = k2; v['msg'] = 'process died: %s\n%s' % (st, txt[-3000:]); v['trace'] = txt[-6000:]
            m = [f for f in kf if f['key'] == v['key']]
            if m: known_hit[m[0]['key']] = m[0]
            else: confirmed.append(v)
            break
    if unconfirmed and not confirmed:
        # Not reproducible from a fresh process: the outcome depends on earlier cases of the same shard (global
        # state of the library). Re-run the exploration once; identical failure => reported as a history violation.
        again = [Shard(exe, i, jobs, work + '', args, stall, min(cap, 150)) for i in range(jobs)]
        for s in again: s.start()
        for s in again: s.join()
        seen = set()
        for s in again:
            for r, _ in s.results:
                for v in r['violations']: seen.add((v['choices'], v['key']))
            for ch, why, txt in s.crashes: seen.add((ch, crash_key(txt, why)))
        for key, v, st in unconfirmed:
            c = (v['choices'].rstrip('.'), v['key'])
            if any(x[0].rstrip('.') == c[0] and x[1] == c[1] for x in seen) and v['key'] not in [f['key'] for f in kf]:
                v['msg'] += '\n(only after the preceding cases of the shard: reproduced by re-running the exploration)'
                confirmed.append(v)
    for f in kf:
        # a listed finding is announced whenever the check is run on a tree that still has it
        if f['key'] in known_hit: log('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    cov = dict(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['validated'] or tot['cases'],
               executions=tot['cases'], oracle_checks=tot['checks'], distinct_outcomes=len(outcomes) or len(states),
               exhaustive=not capped, bound=P['bound'][tier] if isinstance(P['bound'], dict) else P['bound'],
               samples=samples[:6] or ['none'])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    log('%s %s: executions=%d states=%d transitions=%d checks=%d outcomes=%d capped=%s known=%d wall=%.1fs' % (
        prop, tier, tot['cases'], len(states), tot['transitions'], tot['checks'], len(outcomes), capped, len(known_hit), time.time() - t0))
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)
    if confirmed:
        os.makedirs(HERE + '/replays', exist_ok=True)
        for i, v in enumerate(confirmed[:20]):
            rp = HERE + '/replays/%s_%d.json' % (prop, i)
            json.dump(dict(property=prop, choices=v['choices'], args=args, key=v['key'], message=v['msg'], trace=v.get('trace', '')), open(rp, 'w'), indent=1)
            log('--- %s key=%s choices=%s\n%s\n%s' % (prop, v['key'], v['choices'], v['msg'][:2500], v.get('trace', '')[-2500:]))
            log('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if tot['cases'] == 0:
        log('no execution explored'); return 2
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as e:
        log(str(e)); sys.exit(2)
