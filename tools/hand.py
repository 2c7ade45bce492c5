"""Development aid: hand.py SPEC.py [ids]  -- SPEC defines B = {id: (props, file, [(old, new)...])}; each is compiled like a mutant
(mutate.py) and run against the unit tests and the quick exploration of the listed properties."""
import sys, os, re, json
sys.path.insert(0, '/verif/tools')
import mutate as mu
spec = {}; exec(open(sys.argv[1]).read(), spec); B = spec['B']
mu.setup(); cmds = json.load(open(mu.B + '/cmds.json')); w = mu.M + '/hw%d' % os.getpid(); os.makedirs(w, exist_ok=True)
for i in (sys.argv[2:] or B):
    props, rel, eds = B[i]; src = mu.REPO + '/' + rel; s = open(src).read(); bad = None
    for a, b in eds:
        if s.count(a) != 1: bad = 'edit matches %d times: %s' % (s.count(a), a[:60]); break
        s = s.replace(a, b)
    if bad: print(i, bad, flush=True); continue
    f = w + '/m.cpp'; open(f, 'w').write(s); o = w + '/m.o'
    c = re.sub(r'-MD -MT \S+ -MF \S+', '', re.sub(r'-o \S+', '-o ' + o, cmds[src])).replace('-c ' + src, '-c ' + f + ' -I' + os.path.dirname(src))
    r = mu.sh(c, cwd=w)
    if not r or r.returncode: print(i, 'does not compile', r and r.stderr[-500:], flush=True); continue
    base = [x for x in mu.objs('k') + mu.objs('a') if x.endswith('/' + rel.split('/src/')[1] + '.o')][0]; mut = (base, o)
    k = mu.tests(mut, w)
    if k: print(i, 'KILLED BY TESTS', k[:300], flush=True); continue
    res = [(p, mu.check(p, mut, w)) for p in props.split(',')]
    print(i, '; '.join('%s %s' % (p, 'CAUGHT ' + k[:110] if k else 'MISSED') for p, k in res), flush=True)
os.system('rm -rf ' + w)
