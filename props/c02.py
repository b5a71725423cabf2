"""C02: an engine checkpointed by pickling and restored in a process that shares
no memory with the first continues exactly as the uninterrupted one."""
import io
import pickle

from sim import rich
from sim.core import Ctx, InjectedFault
from sim.nodes import Node

TIERS = dict(quick=dict(runs=900, wall=260), thorough=dict(runs=40000, wall=3000))
# (a run whose fit wanders off to an enormous galaxy says nothing here)
LIVENESS, TIMEOUT = False, 40
RULE = ('one evaluation = one simulated run: a random engine built twice (controller and node), a history of 4..12 operations, and seeded checkpoint/kill/restore '
        'points with failing checkpoint writes and truncated checkpoints; distinct_nontrivial counts runs with distinct operation/restart digests in which a restart or fault happened')
COMPONENTS = dict(real=['tractor engine, sources, PSFs, WCS, calibration, sky, priors, optimizers, caches; pickle; real processes'],
                  stub=['the checkpoint store (bytes in memory, with failing and short writes decided by the simulator)'])

W = {}


def preload():
    rich.preload()


# ---- in the node
def n_build(piece, opts):
    W['tr'] = rich.make(Ctx(tape=piece), **opts)
    W['info'] = W['tr'].info
    del W['tr'].info
    return rich.state(W['tr'])


def n_apply(op, piece):
    return rich.attempt(W['tr'], op, Ctx(tape=piece), W['info'])


def n_state():
    return rich.state(W['tr'])


def n_save(protocol):
    return pickle.dumps(W['tr'], protocol)


class FullDisk(io.RawIOBase):
    def __init__(self, room):
        self.room = room

    def write(self, b):
        n = memoryview(b).nbytes
        if n > self.room:
            self.room = 0
            raise OSError(28, 'No space left on device (injected)')
        self.room -= n
        return n

    def writable(self):
        return True


def n_failed_save(protocol, room):
    """A checkpoint whose write fails: True if it did."""
    try:
        pickle.Pickler(FullDisk(room), protocol).dump(W['tr'])
    except OSError as e:
        return e.errno == 28
    return False


def n_load(blob, info):
    W['tr'] = pickle.loads(blob)
    W['info'] = info
    return rich.state(W['tr'])


def n_try_load(blob):
    try:
        tr = pickle.loads(blob)
    except Exception as e:
        return type(e).__name__
    return None


class PlainInfo(object):
    pass


def run(ctx):
    nrestart = ctx.pick([1, 2, 3], 'standbys')
    # standby processes that have imported the code but hold nothing else
    nodes = [Node('standby%d' % i) for i in range(nrestart + 1)]
    ctx.cleanups.extend(n.kill for n in nodes)
    kinds = ctx.swarm(['kill', 'lost-work', 'full-disk', 'truncated'], 0.7)
    start = len(ctx.tape)
    opts = {}
    A = rich.make(ctx, **opts)
    piece = list(ctx.tape[start:])
    info = A.info
    del A.info
    ctx.log(info.desc)
    node = nodes.pop(0)
    sb = node.call(n_build, piece, opts)
    sa = rich.state(A)
    ctx.check(sa == sb, 'harness', lambda: 'twins differ at birth: ' + rich.diff(sa, sb))
    ckpt = None         # (bytes, operations since)
    changes = rich.SPECIAL_CHANGES if info.special else rich.CHANGES
    fits = rich.FITS[:2] if info.special else rich.FITS
    table = rich.EVALS + [(w * 1.5, o) for w, o in changes] + [(w * 2.5, o) for w, o in fits]
    for _ in range(ctx.between(4, 12, 'n-ops')):
        op = ctx.wpick(table, 'op')
        start = len(ctx.tape)
        ra = rich.attempt(A, op, ctx, info)
        piece = list(ctx.tape[start:])
        rb = node.call(n_apply, op, piece)
        ctx.op(op, ra[0])
        compare(ctx, op, ra, rb, 'engine in its process')
        if ckpt is not None:
            ckpt[1].append((op, piece, ra))
        what = None
        if kinds and ctx.flip(0.45, 'event'):
            what = ctx.pick(sorted(kinds), 'event-kind')
        if what == 'full-disk':
            proto = ctx.pick([2, 4, 5], 'protocol')
            n = len(node.call(n_save, proto))
            room = ctx.draw(n, 'room')
            failed = node.call(n_failed_save, proto, room)
            ctx.check(failed, 'failed-checkpoint-unreported', 'writing a checkpoint of %d bytes to a disk with room for %d succeeded' % (n, room))
            ctx.injected('full-disk')
            s1 = node.call(n_state)
            s0 = rich.state(A)
            ctx.check(s0 == s1, 'checkpoint-changed-engine', lambda: 'after a failed checkpoint: ' + rich.diff(s0, s1))
        elif what == 'truncated':
            proto = ctx.pick([2, 4, 5], 'protocol')
            blob = node.call(n_save, proto)
            cut = ctx.pick([len(blob) - 1, 0, len(blob) // 2, ctx.draw(len(blob), 'cut')], 'where')
            sp = Node('victim')
            try:
                e = sp.call(n_try_load, blob[:cut])
            finally:
                sp.kill()
            ctx.injected('truncated')
            ctx.check(e is not None, 'truncated-checkpoint-accepted', 'a checkpoint cut to %d of %d bytes was loaded' % (cut, len(blob)))
        elif what in ('kill', 'lost-work'):
            if what == 'kill' or ckpt is None:
                ckpt = (node.call(n_save, ctx.pick([2, 4, 5, 3], 'protocol')), [])
                s1 = node.call(n_state)
                s0 = rich.state(A)
                ctx.check(s0 == s1, 'checkpoint-changed-engine', lambda: 'after a checkpoint: ' + rich.diff(s0, s1))
                if what == 'lost-work':
                    ctx.op('checkpoint')
                    continue
            if not nodes:
                continue
            node.kill()
            node = nodes.pop(0)
            sb = node.call(n_load, ckpt[0], info)
            ctx.injected('kill')
            ctx.op('restored', len(ckpt[1]))
            # redo what was lost
            for o, pc, r0 in ckpt[1]:
                r1 = node.call(n_apply, o, pc)
                compare(ctx, o, r0, r1, 'restored engine, repeating operations since its checkpoint')
                ctx.probe('redone')
            sb = node.call(n_state)
            sa = rich.state(A)
            ctx.check(agree(sa, sb), 'restored-differs', lambda: 'restored engine: ' + rich.diff(sa, sb))
            ctx.state(info.cls, info.opt, op, len(ckpt[1]))
        s1 = None
    sb = node.call(n_state)
    sa = rich.state(A)
    ctx.check(agree(sa, sb), 'restored-differs', lambda: 'at the end: ' + rich.diff(sa, sb))
    for op in ('models', 'derivs', 'logprob'):
        ra = rich.attempt(A, op, Ctx(tape=[]), info)
        rb = node.call(n_apply, op, [])
        compare(ctx, op, ra, rb, 'restored engine at the end')


def agree(a, b):
    if a == b:
        return True
    # values that went through a fit may differ in the last bits
    for k in a:
        if a[k] != b.get(k) and not rich.same(plain(a[k]), plain(b.get(k)), 1e-6):
            return False
    return True


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    return x


def compare(ctx, op, ra, rb, who):
    ctx.check(ra[0] == rb[0] and (ra[0] == 'ok' or ra[1] == rb[1]), 'restored-differs',
              lambda: '%s (%s): %s instead of %s' % (op, who, rich.short(rb), rich.short(ra)))
    if ra[0] == 'ok':
        ctx.check(rich.same(plain(ra[1]), plain(rb[1]), 1e-6), 'restored-differs',
                  lambda: '%s (%s) differs from the uninterrupted one: %s' % (op, who, rich.why(plain(ra[1]), plain(rb[1]))))
    else:
        ctx.probe('refused-' + op + '-' + ra[1] + ra[2][:60])
