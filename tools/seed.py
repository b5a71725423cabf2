#!/usr/bin/env python3
"""seed.py new ID PROP < spec.py   make a planted bug from edits (spec defines EDITS, DEMO, NEEDS, BREAKS)
   seed.py try ID...               apply it to /repo; tests, demo, check; undo"""
import os, subprocess, sys, json, stat, time
V = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip() == '', '/repo not clean'


def undo():
    sh('git -C /repo checkout -- .')


def new(sid, prop):
    spec = {}
    exec(sys.stdin.read(), spec)
    clean()
    d = os.path.join(V, sid)
    os.makedirs(d, exist_ok=True)
    try:
        for fn, a, b in spec['EDITS']:
            p = '/repo/' + fn
            s = open(p).read()
            assert s.count(a) == 1, (fn, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        undo()
    open(d + '/demo.py', 'w').write(spec['DEMO'])
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    tryit([sid])


def tests_ok():
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    o = json.load(open('/tmp/seedtest.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    st = b if isinstance(b, list) else (b.get('stable') or b.get('passed') or b.get('tests'))
    return [t for t in st if t not in o['passed']]


def tryit(sids, notests=False):
    for sid in sids:
        d = os.path.join(V, sid)
        meta = json.load(open(d + '/meta.json'))
        clean()
        if not notests:
            r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(sid, 'PATCH FAILS', r.stderr)
            continue
        native = any(x in open(d + '/patch.diff').read() for x in ('.i\n', '.cc\n', '.c\n', '.h\n'))
        try:
            bad = None
            if not notests:
                if native:
                    sh('bash /opt/vp/build.sh')
                r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
                bad = tests_ok()
            t = time.time()
            c = sh('python3 check.py %s' % meta['property'], cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            t = time.time() - t
        finally:
            undo()
            if native:
                sh('bash /opt/vp/build.sh')
        caught = c.returncode == 1 and 'VIOLATION property=%s ' % meta['property'] in c.stdout
        if notests:
            print(sid, meta['property'], 'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode, '%.0fs' % t, flush=True)
        else:
            print(sid, meta['property'], 'demo clean rc', r0.returncode, 'patched rc', r1.returncode, 'tests broken', bad,
                  'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode, '%.0fs' % t, flush=True)
            if r0.returncode:
                print(r0.stdout[-1500:], r0.stderr[-1500:])
            if r1.returncode == 0:
                print(r1.stdout[-1500:])
        print('   ', [l for l in c.stdout.splitlines() if 'violation kind' in l or 'error' in l.lower()][:3])


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(*sys.argv[2:4])
    elif sys.argv[1] == 'quick':
        tryit(sys.argv[2:] or sorted(os.listdir(V)), True)
    else:
        tryit(sys.argv[2:] or sorted(os.listdir(V)))
