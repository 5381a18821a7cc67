#!/usr/bin/env python3
"""Makes or verifies a planted bug of /verif/seeded.

  plant.py new ID EDITS.json   EDITS: {property, needs, breaks, edits: [[file, old, new]...]}; writes patch.diff, meta.json
  plant.py verify ID...        demo on the clean tree, then with the patch: build, tests, demo, the check of the property
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    return sh('git -C %s status --porcelain' % R).stdout.strip() == ''


def new(bug, path):
    d = json.load(open(path))
    assert clean()
    out = os.path.join(V, 'seeded', bug)
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, nw in d['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, nw))
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(sh('git -C %s diff' % R).stdout)
    finally:
        sh('git -C %s checkout -- .' % R)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, f, indent=1)
        f.write('\n')


def tests():
    sh('bash /opt/vp/test.sh /tmp/pl-t.json')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    t = json.load(open('/tmp/pl-t.json'))
    ok = set(t.get('passed', []) if isinstance(t.get('passed'), list) else [k for k, v in t.items() if v in ('pass', 'passed', True)])
    return [x for x in b if x not in ok]


def verify(bug, with_check=True):
    out = os.path.join(V, 'seeded', bug)
    meta = json.load(open(os.path.join(out, 'meta.json')))
    assert clean()
    res = {}
    r = sh('cd %s && bash %s/demo.sh' % (R, out))
    if r.returncode:
        print(bug, 'BAD: demo on the clean tree', r.returncode, r.stdout[-1500:])
        return
    try:
        assert sh('git -C %s apply %s/patch.diff' % (R, out)).returncode == 0
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(bug, 'BAD: build', r.stdout[-1500:])
            return
        lost = tests()
        r = sh('cd %s && bash %s/demo.sh' % (R, out))
        demo = r.returncode
        c = None
        if with_check:
            c = sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s' % (V, meta['property']))
            caught = c.returncode == 1 and 'VIOLATION property=' + meta['property'] in c.stdout
        print('%s: tests lost %s, demo %d, %s %s' % (bug, lost, demo, meta['property'], 'CAUGHT' if c and caught else 'missed'))
        if demo == 0:
            print('BAD: ', r.stdout[-800:])
        if c:
            print('\n'.join(l for l in c.stdout.split('\n') if 'key=' in l or 'held' in l or 'no answer' in l)[:1500])
    finally:
        sh('git -C %s checkout -- .' % R)


if sys.argv[1] == 'new':
    new(sys.argv[2], sys.argv[3])
else:
    for b in sys.argv[2:]:
        verify(b)
    sh('bash /opt/vp/build.sh')
