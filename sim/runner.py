"""Runs many seeds of one scenario, each in its own forked process, and turns
the outcome into an exit code, replay file and evidence file."""
import faulthandler
import hashlib
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import env
from .core import Ctx, Violation, subseed

RUN_TIMEOUT = 120       # wall seconds; a run normally takes well under 2
REPO_PREFIX = os.path.join(os.path.realpath(env.REPO), '')


class HarnessError(Exception):
    pass


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _touches_repo(tb):
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO_PREFIX):
            return '%s:%s' % (fn[len(REPO_PREFIX):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return None


def _last_repo(tb):
    last = None
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO_PREFIX):
            last = '%s:%s' % (fn[len(REPO_PREFIX):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return last


def execute(mod, seed=0, tape=None, run_index=0):
    """Run one simulated execution in this process; returns a plain dict."""
    ctx = Ctx(seed=seed, tape=tape)
    ctx.run_index = run_index
    ctx.scratch = tempfile.mkdtemp(prefix='verif-sim-')
    res = dict(outcome='ok', kind=None, detail=None)
    try:
        try:
            mod.run(ctx)
        except Violation as v:
            res.update(outcome='violation', kind=v.kind, detail=v.detail)
        except MemoryError as e:
            # an enormous model; says nothing about the property
            ctx.probe('out-of-memory')
            ctx.log('out of memory', str(e)[:100])
        except (Exception, KeyboardInterrupt) as e:
            where = _last_repo(e.__traceback__)
            txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
            if where is not None:
                res.update(outcome='violation',
                           kind='unexpected-%s' % type(e).__name__,
                           detail='%s raised in %s\n%s' % (e, where, txt[-3000:]))
            else:
                res.update(outcome='harness-error', kind=type(e).__name__, detail=txt[-4000:])
    finally:
        for f in reversed(ctx.cleanups):
            try:
                f()
            except Exception:
                pass
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    res.update(seed=seed, tape=ctx.tape, labels=ctx.labels, events=ctx.events,
               faults=ctx.faults, offered=ctx.offered, states=list(ctx.states),
               sched=ctx.sched, ops=ctx.ops, probes=ctx.probes,
               simtime=ctx.simtime, ilv=ctx.interleaving(),
               nontrivial=ctx.nontrivial())
    return res


def digest(res):
    """Digest of everything observable in a run (determinism check)."""
    keys = ('outcome', 'kind', 'tape', 'events', 'faults', 'sched', 'ops', 'probes',
            'simtime', 'ilv')
    h = hashlib.blake2b(digest_size=12)
    h.update(json.dumps([res[k] for k in keys], sort_keys=True, default=str).encode())
    h.update(repr(sorted(res['states'])).encode())
    return h.hexdigest()


def forked(mod, seed=0, tape=None, run_index=0, timeout=RUN_TIMEOUT):
    """execute() in a forked child so that no run sees another's memory."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            die_with_parent()
            if os.environ.get('VERIF_COV'):     # development aid: which lines do the runs reach?
                sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
                import cov
                cov.start(os.environ['VERIF_COV'])
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get('VERIF_SHOW'):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = execute(mod, seed=seed, tape=tape, run_index=run_index)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    import select
    chunks = []
    deadline = time.monotonic() + getattr(mod, 'TIMEOUT', timeout)
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rr, _, _ = select.select([r], [], [], min(left, 5))
        if rr:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)     # stray helpers of this run
    except OSError:
        pass
    base = dict(seed=seed, tape=list(tape or []), labels=[], events=[], faults={}, offered={},
                states=[], sched=0, ops=0, probes={}, simtime=0., ilv='', nontrivial=False)
    if timed_out and not getattr(mod, 'LIVENESS', True):
        # an enormous model; the property promises nothing about time
        base.update(outcome='ok', kind=None, detail=None, probes={'timeout': 1})
        return base
    if timed_out:
        base.update(outcome='violation', kind='no-progress',
                    detail='run did not finish within %d s' % timeout)
        return base
    data = b''.join(chunks)
    if data:
        try:
            return pickle.loads(data)
        except Exception:
            pass
    if os.WIFSIGNALED(status):
        base.update(outcome='violation', kind='crash',
                    detail='process died with signal %d' % os.WTERMSIG(status))
        return base
    base.update(outcome='harness-error', kind='no-result', detail='status %d' % status)
    return base


# ---------------------------------------------------------------------------
def minimise(mod, res, budget_s=60., log=None):
    """Shrink the tape while the same violation kind persists."""
    t0 = time.monotonic()
    kind = res['kind']
    best = list(res['tape'])
    best_res = res
    tries = 0

    def ok(tape):
        nonlocal tries, best_res
        tries += 1
        r = forked(mod, seed=res['seed'], tape=tape, timeout=RUN_TIMEOUT)
        if r['outcome'] == 'violation' and r['kind'] == kind:
            best_res = r
            return True
        return False

    def time_left():
        return time.monotonic() - t0 < budget_s

    if kind in ('no-progress', 'crash') and not best:
        return best, res, tries
    # trailing decisions -> defaults
    lo, hi = 0, len(best)
    while lo < hi and time_left():
        mid = (lo + hi) // 2
        if ok(best[:mid]):
            hi = mid
        else:
            lo = mid + 1
    if hi < len(best) and ok(best[:hi]):
        best = best[:hi]
    changed = True
    while changed and time_left():
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time_left():
            i = 0
            while i < len(best) and time_left():
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and ok(cand):
                    best = cand
                    changed = True
                    continue
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * min(size, len(best) - i) + best[i + size:]
                    if ok(cand):
                        best = cand
                        changed = True
                i += size
            size //= 2
        for i in range(len(best)):
            if not time_left():
                break
            while best[i] > 1 and time_left():
                cand = list(best)
                cand[i] = best[i] // 2
                if ok(cand):
                    best = cand
                    changed = True
                else:
                    break
    while best and best[-1] == 0:
        best = best[:-1]
    return best, best_res, tries


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def known_findings():
    fn = os.path.join(env.VERIF, 'known_findings.json')
    try:
        with open(fn) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def match_known(prop, res):
    for k in known_findings():
        if k.get('status') == 'known' and k['property'] == prop and k['kind'] == res['kind'] \
           and (k.get('contains', '') in (res['detail'] or '')):
            return k
    return None


def _worker(mod, prop, seed, idxs, wfd, deadline):
    out = os.fdopen(wfd, 'wb')
    for i in idxs:
        if time.monotonic() > deadline:
            break
        s = subseed(seed, prop, i)
        res = forked(mod, seed=s, run_index=i)
        res['i'] = i
        if i >= 40:
            res['labels'] = []
            if res['outcome'] == 'ok':
                res['events'] = []
                res['tape'] = []
        b = pickle.dumps(res)
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()
        if res['outcome'] == 'violation' and match_known(prop, res) is None:
            break
        if res['outcome'] == 'harness-error':
            break
    out.close()


def campaign(prop, tier, seed, nruns=None, jobs=None, wall=None):
    mod = load(prop)
    tiers = mod.TIERS[tier]
    nruns = nruns or int(os.environ.get('VERIF_RUNS', 0)) or tiers['runs']
    wall = wall or tiers.get('wall', 420)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1)
    if hasattr(mod, 'preload'):
        mod.preload()
    t0 = time.monotonic()
    deadline = t0 + wall
    # contiguous interleave: worker k runs seeds k, k+jobs, ...
    fds = {}
    pids = []
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            die_with_parent()
            for fd in fds:
                os.close(fd)
            code = 0
            try:
                _worker(mod, prop, seed, range(k, nruns, jobs), w, deadline)
            except BaseException:
                traceback.print_exc()
                code = 4
            os._exit(code)
        os.close(w)
        fds[r] = bytearray()
        pids.append(pid)
    agg = dict(n=0, faults={}, offered={}, states=set(), ilvs=set(), nontrivial=0, ops=0, sched=0,
               probes={}, simtime=0., samples=[], known={}, distinct_nontrivial=set())
    bad = []
    herr = []
    import select
    open_fds = set(fds)
    stop = False

    def absorb(res):
        agg['n'] += 1
        for key in ('faults', 'offered', 'probes'):
            for k, v in res[key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        agg['states'].update(res['states'])
        agg['ilvs'].add(res['ilv'])
        agg['ops'] += res['ops']
        agg['sched'] += res['sched']
        agg['simtime'] += res['simtime']
        if res['nontrivial']:
            agg['nontrivial'] += 1
            agg['distinct_nontrivial'].add(res['ilv'])
        if res.get('i', 99) < 40 and res['outcome'] == 'ok' and res['nontrivial']:
            agg['samples'].append((res['i'], dict(seed=res['seed'], faults=res['faults'],
                                                  trace=res['events'][:12])))
        if res['outcome'] == 'violation':
            k = match_known(prop, res)
            if k is not None:
                agg['known'][k['id']] = k
            else:
                bad.append(res)
        elif res['outcome'] == 'harness-error':
            herr.append(res)

    while open_fds:
        rr, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in rr:
            b = os.read(fd, 1 << 20)
            if not b:
                open_fds.discard(fd)
                continue
            buf = fds[fd]
            buf.extend(b)
            while len(buf) >= 8:
                n = struct.unpack('<Q', buf[:8])[0]
                if len(buf) < 8 + n:
                    break
                res = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                absorb(res)
        if bad or herr:
            # let the other workers finish their current run only
            if not stop:
                stop = True
                grace = time.monotonic() + 8
            if time.monotonic() > grace:
                break
    for p in pids if stop else ():
        # (otherwise they have said all they had to say and are exiting)
        try:
            os.kill(p, signal.SIGTERM)
        except OSError:
            pass
    codes = []
    for p in pids:
        try:
            codes.append(os.waitpid(p, 0)[1])
        except OSError:
            pass
    agg['wall'] = time.monotonic() - t0
    agg['jobs'] = jobs
    agg['planned'] = nruns
    if not stop and any(c != 0 for c in codes):
        herr.append(dict(kind='worker', detail='worker exit codes %s' % codes, seed=None, events=[]))
    return mod, agg, bad, herr


def write_replay(prop, mod, res, tape, tries, orig):
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, '%s-%d.json' % (prop, orig['seed']))
    with open(fn, 'w') as f:
        json.dump(dict(property=prop, seed=orig['seed'], kind=res['kind'], detail=res['detail'],
                       tape=tape, original_tape_length=len(orig['tape']),
                       minimiser_runs=tries, labels=res['labels'], faults=res['faults'],
                       trace=res['events']), f, indent=1, default=str)
    return fn


def evidence(prop, tier, seed, mod, agg, extra=None):
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    wall = agg['wall']
    samples = [s for _, s in sorted(agg['samples'], key=lambda x: x[0])][:3]
    cov = dict(
        evaluations=agg['n'],
        distinct_nontrivial=len(agg['distinct_nontrivial']),
        rule=mod.RULE,
        samples=samples or [dict(note='no fault-free-passing sample kept')],
        planned_runs=agg['planned'],
        operations_on_real_code=agg['ops'],
        runs_per_hour=int(agg['n'] / max(wall, 1e-3) * 3600),
        parallel_jobs=agg['jobs'],
        simulated_seconds=round(agg['simtime'], 3),
        faults_injected=agg['faults'],
        fault_points_offered=agg['offered'],
        nondefault_schedule_decisions=agg['sched'],
        distinct_interleavings=len(agg['ilvs']),
        distinct_states=len(agg['states']),
        distinct_measure='interleavings: digest of operation, schedule and fault decisions; '
                         'states: digest of the scenario state after each step',
        probes=agg['probes'],
        components=mod.COMPONENTS,
        known_findings=sorted(agg['known']),
    )
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              wall_s=round(wall, 3))
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def replay_file(fn, show=True):
    with open(fn) as f:
        rp = json.load(f)
    mod = load(rp['property'])
    if hasattr(mod, 'preload'):
        mod.preload()
    if rp['tape'] is None:
        res = forked(mod, seed=rp['seed'])
    else:
        res = forked(mod, seed=rp['seed'], tape=rp['tape'])
    same = res['outcome'] == 'violation' and res['kind'] == rp['kind']
    if show:
        for e in res['events']:
            print('  ', e)
        print('outcome:', res['outcome'], res['kind'])
        print(res['detail'])
    return rp, res, same


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--wall', type=float, default=0)
    ap.add_argument('--one', type=int, default=None, help='run index to execute and show')
    ap.add_argument('--replay', default=None)
    ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--digest', type=int, default=0, help='print digests of the first N runs')
    a = ap.parse_args(argv)
    prop = a.property
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    print('seed', a.seed, 'tier', a.tier, 'property', prop)
    if not a.nobuild:
        ok, log = env.build()
        if not ok:
            print(log[-3000:])
            print('BUILD FAILED')
            return 2
    env.setup_path()
    if a.replay:
        rp, res, same = replay_file(a.replay)
        if same:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('replay did not reproduce')
        return 0 if res['outcome'] == 'ok' else 2
    if a.one is not None:
        mod = load(prop)
        if hasattr(mod, 'preload'):
            mod.preload()
        res = forked(mod, seed=subseed(a.seed, prop, a.one), run_index=a.one)
        for e in res['events']:
            print('  ', e)
        print(res['outcome'], res['kind'], res['faults'], res['probes'], 'tape', len(res['tape']))
        print(res['detail'])
        return 0
    if a.digest:
        mod = load(prop)
        if hasattr(mod, 'preload'):
            mod.preload()
        for i in range(a.digest):
            res = forked(mod, seed=subseed(a.seed, prop, i), run_index=i)
            print(i, res['outcome'], digest(res))
        return 0
    mod, agg, bad, herr = campaign(prop, a.tier, a.seed, nruns=a.runs, jobs=a.jobs, wall=a.wall)
    evidence(prop, a.tier, a.seed, mod, agg)
    for k in sorted(agg['known']):
        print('KNOWN-FINDING: property=%s %s' % (prop, agg['known'][k]['what']))
    print('%d runs in %.1f s, %d distinct interleavings, %d states, faults %s, probes %s' % (
        agg['n'], agg['wall'], len(agg['ilvs']), len(agg['states']), agg['faults'], agg['probes']))
    if bad:
        # the failure with the lowest run index, so the report does not depend on timing
        bad.sort(key=lambda r: r.get('i', 0))
        res = bad[0]
        full = forked(mod, seed=res['seed'])
        if full['outcome'] == 'violation' and full['kind'] == res['kind']:
            tape, mres, tries = minimise(mod, full, budget_s=45 if a.tier == 'quick' else 150)
        else:
            tape, mres, tries = (None if not res['tape'] else res['tape']), res, 0
        if mres['kind'] in ('crash', 'no-progress') and not tape:
            tape = None      # replay by seed
        fn = write_replay(prop, mod, mres, tape, tries, full if full['tape'] else res)
        print('violation kind: %s' % mres['kind'])
        print('seed %d, %d decisions minimised to %s' % (
            res['seed'], len(full['tape']), None if tape is None else len(tape)))
        print(str(mres['detail'])[:3000])
        print('trace:')
        for e in mres['events'][-40:]:
            print('   ', e)
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        return 1
    if herr:
        print('HARNESS ERROR', herr[0]['kind'])
        print(herr[0]['detail'])
        return 2
    if agg['n'] < min(agg['planned'], getattr(mod, 'MIN_RUNS', 20)):
        print('too few runs completed: %d' % agg['n'])
        return 2
    return 0
