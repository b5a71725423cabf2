"""C14: results do not depend on clocks, hash seed, object addresses, global
random state or logging, and leave global state alone.

Every run makes an engine and an operation history here, then repeats both in a
process with another hash seed, moved addresses, simulated clocks that stop,
jump or run backwards, another random state, log level and error settings."""
import gc
import logging
import os
import random
import warnings

import numpy as np

from sim import rich, zygote
from sim.core import Ctx

TIERS = dict(quick=dict(runs=1000, wall=260), thorough=dict(runs=40000, wall=3000))
LIVENESS, TIMEOUT = False, 60
RULE = ('one evaluation = one simulated run: a random engine and a history of 4..10 operations, executed in the reference world and again in a world with other hash seed, '
        'clock behaviour, random state, log level, error settings and address layout; distinct_nontrivial counts runs with distinct (world, operation history) digests')
COMPONENTS = dict(real=['tractor engine, sources, PSFs, calibration, sky, priors, optimizers, forced photometry; separately started interpreters with their own hash seeds'],
                  stub=['time.time/perf_counter/process_time/monotonic (simulated clocks)', 'log handlers (discard)'])
SEEDS = ['1', '7', '12345', '4000000007']
CLOCKS = [None, 'stopped', 'backwards', 'jumps', 'racing']


def preload():
    rich.preload()
    zygote.start(SEEDS)


class Sink(logging.Handler):
    n = 0

    def emit(self, rec):
        rec.getMessage()
        Sink.n += 1


def world_state():
    lg = {}
    for nm in [''] + sorted(k for k in logging.root.manager.loggerDict if k.startswith('tractor')):
        l = logging.getLogger(nm) if nm else logging.root
        if isinstance(l, logging.Logger):
            lg[nm] = (l.level, l.disabled, l.propagate, [type(h).__name__ for h in l.handlers])
    st = np.random.get_state()
    return dict(numpy_random=(st[0], st[1].tobytes(), st[2:]), random=random.getstate(), seterr=np.geterr(), errcall=repr(np.geterrcall()),
                logging=lg, gc=(gc.isenabled(), gc.get_threshold()), cwd=os.getcwd(), environ=dict(os.environ),
                warnings=len(warnings.filters), log_disable=logging.root.manager.disable)


def execute(piece, ops, world):
    """In the zygote's child: the same engine and operations in another world."""
    rs = random.Random(world['junk'])
    keep = [bytearray(rs.randrange(1, 4000)) for _ in range(rs.randrange(0, 3000))]
    del keep[::2]
    if world['gc'] == 'off':
        gc.disable()
    elif world['gc'] == 'eager':
        gc.set_threshold(7, 3, 3)
    logging.root.addHandler(Sink())
    logging.root.setLevel(world['level'])
    logging.getLogger('tractor').setLevel(world['level'])
    np.random.seed(world['random'])
    random.seed(world['random'])
    np.seterr(all=world['err'])
    os.environ['TZ'] = world['tz']
    zygote.clock.set(world['clock'], world['random'])
    before = world_state()
    changed = None
    out = []
    try:
        tr = rich.make(Ctx(tape=piece))
        info = tr.info
        del tr.info
        for k, (op, pc) in enumerate(ops):
            before = world_state()
            out.append(rich.attempt(tr, op, Ctx(tape=pc), info))
            after = world_state()
            if after != before and changed is None:
                changed = (op, [(q, rich.short(before[q]), rich.short(after[q])) for q in before if before[q] != after[q]])
        st = rich.state(tr)
    finally:
        reads, span = zygote.clock.reads, zygote.clock.span
        zygote.clock.set(None, 0)
    return dict(results=out, state=st, changed=changed, reads=reads, span=span, logs=Sink.n)


def run(ctx):
    kinds = ctx.swarm(['hashseed', 'clock', 'random', 'logging', 'addresses', 'errstate'], 0.7)
    world = dict(clock=None, random=3, level=logging.WARNING, junk=0, gc='on', err='warn', tz='UTC')
    k = 0
    if 'hashseed' in kinds:
        k = ctx.draw(4, 'hash-seed')
    if 'clock' in kinds:
        world['clock'] = ctx.pick(CLOCKS[1:], 'clock')
        world['tz'] = ctx.pick(['UTC', 'Asia/Tokyo', 'America/Toronto'], 'tz')
    if 'random' in kinds:
        world['random'] = ctx.bits('random-state') % (1 << 31)
    if 'logging' in kinds:
        world['level'] = ctx.pick([logging.DEBUG, logging.INFO, logging.CRITICAL], 'log-level')
    if 'addresses' in kinds:
        world['junk'] = ctx.bits('junk')
        world['gc'] = ctx.pick(['on', 'off', 'eager'], 'gc')
    if 'errstate' in kinds:
        world['err'] = ctx.pick(['ignore', 'print', 'warn'], 'err')
    start = len(ctx.tape)
    A = rich.make(ctx)
    piece = list(ctx.tape[start:])
    info = A.info
    del A.info
    ctx.log(info.desc)
    ctx.log('hash seed', SEEDS[k], 'world', {a: b for a, b in world.items()})
    changes = rich.SPECIAL_CHANGES if info.special else rich.CHANGES
    fits = rich.FITS[:2] if info.special else rich.FITS
    table = rich.EVALS + [(w * 1.0, o) for w, o in changes] + [(w * 4., o) for w, o in fits]
    ops, ref = [], []
    for _ in range(ctx.between(4, 10, 'n-ops')):
        op = ctx.wpick(table, 'op')
        start = len(ctx.tape)
        ref.append(rich.attempt(A, op, ctx, info))
        ops.append((op, list(ctx.tape[start:])))
        ctx.op(op, ref[-1][0])
    sa = rich.state(A)
    for f in sorted(kinds):
        ctx.injected(f)
    try:
        res = zygote.request(k, execute, piece, ops, world)
    except zygote.NodeDied:
        ctx.probe('lost')
        return
    ctx.simtime += min(res['span'], 1e12)
    ctx.probe('clock-reads', res['reads'])
    ctx.probe('log-records', res['logs'])
    ctx.state(k, sorted(world.items(), key=str))
    # (numbers that went through an iterative fit may differ in their last bits)
    tol = 1e-6 if 'varying' in info.desc else 1e-8
    for (op, pc), ra, rb in zip(ops, ref, res['results']):
        if op in ('optimize', 'loop', 'forced', 'newpsf'):
            tol = 1e-6
        ctx.check(ra[0] == rb[0] and (ra[0] == 'ok' or ra[1] == rb[1]), 'depends-on-world',
                  lambda: '%s: %s in the reference world, %s with %s' % (op, rich.short(ra), rich.short(rb), world))
        if ra[0] == 'ok':
            ctx.check(rich.same(plain(ra[1]), plain(rb[1]), tol), 'depends-on-world',
                      lambda: '%s differs between worlds (%s): %s' % (op, world, rich.why(plain(ra[1]), plain(rb[1]), tol)))
    sb = res['state']
    ctx.check(rich.same(plain(sa), plain(sb), 1e-6), 'depends-on-world', lambda: 'engine after the history (%s): %s' % (world, rich.diff(sa, sb)))
    ch = res['changed']
    ctx.check(ch is None, 'global-state-changed', lambda: '%s changed global state: %s' % ch)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    return x
