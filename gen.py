#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/lib')
from props import PROPS, TECH
try: from props import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = []
P = {k: v for k, v in PROPS.items() if v.get('claimed')}
NA = {x['property']: x for x in NOT_APPLICABLE}
with open(H + '/properties.jsonl', 'w') as f:
    for k in sorted(list(P) + list(NA)):
        v = P.get(k) or NA[k]
        assert len(v['title']) <= 80, (k, len(v['title']))
        f.write(json.dumps(dict(id=k, title=v['title'], statement=v['statement'], quantifier=dict(over=v['over'], text=v['text']), why_tests_cant=v['why'],
            anchors=dict(files=v['files'], mechanism=[dict(name=a, where=b) for a, b in v['mech']], observe_at=v.get('observe', ['the C API of libs/MeshKernelApi']), hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='python3 run.py --setup',
         hooks=dict(guard='none', enable='no hooks: the checks drive the public C API of the sources as they are', source_commits=[]),
         checks=[dict(property=k, quick_cmd='python3 run.py ' + k, thorough_cmd='python3 run.py %s --thorough' % k, evidence_file='evidence/%s.json' % k,
                      technique=v.get('tech', TECH), level='model_checking', level_note='quick: %s. thorough: %s.' % (v['bound']['quick'], v['bound']['thorough'])) for k, v in sorted(P.items())],
         not_applicable=[dict(property=k, reason=v['reason']) for k, v in sorted(NA.items())])
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')

import glob
def cost(k):
    try:
        e = open(H + '/lib/costs.json').read(); return json.loads(e).get(k, '?')
    except OSError: return '?'
with open(H + '/DESIGN.md', 'w') as f:
    f.write(open(H + '/lib/design_head.md').read())
    f.write('## Properties\n\n')
    for k, v in sorted(P.items()):
        f.write('### %s %s\n\n%s\n\n' % (k, v['title'], v['statement']))
        f.write('* Enumerated: %s.\n* Bounds: quick - %s; thorough - %s.\n' % (v['text'], v['bound']['quick'], v['bound']['thorough']))
        if v.get('oracle'): f.write('* Oracle: %s\n' % v['oracle'])
        f.write('* Why tests cannot settle it: %s\n' % v['why'])
        if v.get('assumptions'): f.write('* Limits: %s.\n' % '; '.join(v['assumptions']))
        f.write('* Cost of the quick check: about %s s on 8 cores after the build.\n\n' % cost(k))
    for k, v in sorted(NA.items()): f.write('### %s %s\n\nNot applicable: %s\n\n' % (k, v['title'], v['reason']))
    f.write('## Defects repaired\n\nEach was found by a check on the unchanged tree, confirmed by replay, and repaired in its own commit.\n\n')
    for x in json.load(open(H + '/known_findings.json'))['findings']: f.write('* open: property=%s %s\n' % (x['property'], x['what']))
    for x in json.load(open(H + '/known_findings.json'))['fixed']: f.write('* %s\n' % (x if isinstance(x, str) else json.dumps(x)))
    f.write('\n## Planted bugs\n\n| id | property | caught by | what it breaks | needs |\n|---|---|---|---|---|\n')
    caught = json.load(open(H + '/lib/caught.json')) if os.path.exists(H + '/lib/caught.json') else {}
    for p in sorted(glob.glob(H + '/seeded/*/meta.json')):
        m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
        f.write('| %s | %s | %s | %s | %s |\n' % (i, m['property'], caught.get(i, '?'), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
