#!/usr/bin/env python3
"""mut.py FILE [NAME...]: run every mutant of FILE (list M of (name, prop, [(file, old, new)...])) in a scratch copy
of /repo against the check of its property.  Prints CAUGHT/MISSED."""
import os, shutil, subprocess, sys, time
D = '/tmp/mw/repo%d' % os.getpid()


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def main(fn, names):
    g = {}
    exec(open(fn).read(), g)
    shutil.rmtree(D, ignore_errors=True)
    sh('mkdir -p /tmp/mw; cp -a /repo %s' % D)
    try:
        for name, prop, edits in g['M']:
            if names and name not in names and prop not in names:
                continue
            ok = True
            for f, a, b in edits:
                p = D + '/' + f
                s = open(p).read()
                if s.count(a) != 1:
                    print('%-34s %s BAD-EDIT count %d: %r' % (name, prop, s.count(a), a[:60]), flush=True)
                    ok = False
                    break
                open(p, 'w').write(s.replace(a, b))
            if ok:
                for pr in prop.split('+'):
                    t = time.time()
                    r = sh('/usr/bin/timeout 600 python3 check.py %s --nobuild' % pr, cwd='/verif', env=dict(os.environ, VERIF_REPO=D, VERIF_SEED='1', VERIF_TIER='quick'))
                    k = [l for l in r.stdout.splitlines() if 'violation kind' in l]
                    runs = [l.split(' ')[0] for l in r.stdout.splitlines() if ' runs in ' in l]
                    st = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s ' % pr in r.stdout else 'MISSED rc=%d' % r.returncode
                    print('%-34s %s %s %.0fs runs=%s %s' % (name, pr, st, time.time() - t, runs, k), flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stdout[-600:], r.stderr[-600:])
            sh('git -C %s checkout -- .' % D)
    finally:
        shutil.rmtree(D, ignore_errors=True)


main(sys.argv[1], sys.argv[2:])
