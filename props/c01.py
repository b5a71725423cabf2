"""C01: evaluating through a worker pool gives what serial evaluation gives,
under every dispatch/completion schedule, and worker failures reach the caller
with the engine intact."""
import copy
import pickle
import numpy as np

from sim import scenes
from sim.core import InjectedFault, InjectedInterrupt, Violation
from sim.nodes import Node, NodeDied

TIERS = dict(quick=dict(runs=900, wall=240), thorough=dict(runs=8000, wall=3000))
RULE = ('one evaluation = one simulated run: a random scene and engine history evaluated through '
        'simulated pool workers; distinct_nontrivial counts runs with distinct '
        'operation/schedule/fault digests in which a non-first task was dispatched or a fault fired')
COMPONENTS = dict(real=['tractor engine, sources, PSFs, skies, WCS, TractorMultiprocMixin, LsqrOptimizer',
                        'pickling of engine/images/sources across a real process boundary',
                        'worker processes (forked, own memory)'],
                  stub=['the pool: task dispatch, chunking, completion order, worker death and result '
                        'loss are decided by the simulator'])


def preload():
    scenes.preload()


class WorkerLost(Exception):
    pass


def _run_chunk(func, args, faults):
    """Runs in the worker node; args is one pickled chunk (objects shared
    within a chunk are shared in the worker, as with a real pool)."""
    out = []
    for a, f in zip(args, faults):
        if f == 'raise':
            raise InjectedFault('task')
        if f == 'raise-inside':
            # (a task that hides the failure returns whatever it made up)
            with raising_inside():
                out.append(func(a))
            continue
        out.append(func(a))
    return out


class raising_inside(object):
    """The rendering code fails on its n-th patch."""

    def __init__(self, n=0):
        self.n = n
        self.fired = False

    def __enter__(self):
        from tractor import patch
        self.patch = patch
        self.orig = patch.Patch.__init__

        def boom(*a, **k):
            if self.n == 0:
                self.n -= 1
                self.fired = True
                raise InjectedFault('inside')
            self.n -= 1
            return self.orig(*a, **k)
        patch.Patch.__init__ = boom
        return self

    def __exit__(self, *a):
        self.patch.Patch.__init__ = self.orig


class Async(object):
    def __init__(self, pool, job):
        self.pool, self.job = pool, job

    def wait(self, *a):
        self.pool.finish(self.job)

    def ready(self):
        return self.job.done()

    def get(self, *a):
        self.pool.finish(self.job)
        if self.job.error is not None:
            raise self.job.error
        return list(self.job.results)


class Job(object):
    def __init__(self, func, args):
        self.func, self.args = func, args
        self.results = [None] * len(args)
        self.pending = []
        self.error = None

    def done(self):
        return not self.pending


class SimPool(object):
    """multiproc-like pool (map, map_async) whose every choice is ctx's."""

    def __init__(self, ctx, nworkers):
        self.ctx = ctx
        self.nodes = [Node('w%d' % i) for i in range(nworkers)]
        self.jobs = []
        self.armed = set()
        for n in self.nodes:
            ctx.cleanups.append(n.kill)

    def _submit(self, func, iterable):
        args = list(iterable)
        job = Job(func, args)
        cs = self.ctx.between(1, max(1, min(4, len(args))), 'chunksize')
        # real pools pickle a chunk when it is handed to a worker, not here
        for i in range(0, len(args), cs):
            job.pending.append((i, args[i:i + cs]))
        self.jobs.append(job)
        return job

    def map(self, func, iterable, *a, **k):
        job = self._submit(func, iterable)
        self.finish(job)
        if job.error is not None:
            raise job.error
        return list(job.results)

    def map_async(self, func, iterable, *a, **k):
        job = self._submit(func, iterable)
        # some tasks may run before the caller gets round to waiting
        while job.pending and self.ctx.flip(0.3, 'run-early'):
            self.step()
        return Async(self, job)

    def finish(self, job):
        while job.pending:
            if 'interrupt' in self.armed and self.ctx.fault('interrupt-wait', 0.15):
                self.armed.clear()
                self.abandon()
                raise InjectedInterrupt('waiting for pool')
            self.step()
        if job in self.jobs:
            self.jobs.remove(job)

    def abandon(self):
        for j in self.jobs:
            j.pending = []
        self.jobs = []

    def step(self):
        ctx = self.ctx
        # choose any chunk of any outstanding job, and any worker
        runnable = [(j, c) for j in self.jobs for c in j.pending]
        j, c = runnable[ctx.schedule(len(runnable), 'task')]
        node = self.nodes[ctx.schedule(len(self.nodes), 'worker')]
        j.pending.remove(c)
        i0, args = c
        faults = [None] * len(args)
        kind = None
        if 'task' in self.armed:
            kind = ('raise' if ctx.fault('task-exception', 0.12) else
                    'raise-inside' if ctx.fault('render-exception', 0.12) else
                    'die' if ctx.fault('worker-killed', 0.08) else None)
        if kind in ('raise', 'raise-inside'):
            faults[ctx.draw(len(args), 'which')] = kind
        if kind == 'die':
            node.kill()
            k = self.nodes.index(node)
            self.nodes[k] = Node('w%d+' % k)
            ctx.cleanups.append(self.nodes[k].kill)
            j.error = j.error or WorkerLost(node.name)
            ctx.log('worker', node.name, 'killed')
            return
        ctx.log('worker %s runs %s chunk @%d n=%d %s' % (node.name, j.func.__name__, i0, len(args), kind or ''))
        try:
            res = node.call(_run_chunk, j.func, args, faults)
            if len(res) != len(args):
                raise Violation('pool-protocol', 'wrong number of results')
            j.results[i0:i0 + len(args)] = res
        except (InjectedFault,) as e:
            j.error = j.error or e
        except Exception as e:
            # a task that failed on its own: the caller sees it
            if hasattr(e, 'remote_tb'):
                ctx.log('task failed:', type(e).__name__, e, '|', e.remote_tb.strip().splitlines()[-3:])
            j.error = j.error or e


def close(a, b, what, ctx, tol=2e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ctx.check(a.shape == b.shape, 'parallel-differs', '%s: shape %s vs %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    a, b = scenes.level(a, b)
    s = max(np.abs(b).max(), 1e-30)
    d = np.abs(a - b).max()
    ctx.check(d <= tol * s + 1e-10, 'parallel-differs',
              lambda: '%s: max difference %g (scale %g)' % (what, d, s))


def compare_derivs(ctx, par, ser, pims, sims, what):
    ctx.check(len(par) == len(ser), 'parallel-differs',
              '%s: %d parameter derivatives vs %d' % (what, len(par), len(ser)))
    for k, (pp, ss) in enumerate(zip(par, ser)):
        def render(dd, ims):
            out = {}
            for d, im in dd:
                i = [q for q, x in enumerate(ims) if x is im]
                ctx.check(len(i) == 1, 'parallel-differs',
                          '%s: derivative %d refers to an image that is not the engine\'s' % (what, k))
                if d is None:
                    continue
                c = scenes.canvas(d, im.shape)
                out[i[0]] = out.get(i[0], 0) + c
            return out
        P, S = render(pp, pims), render(ss, sims)
        for i in sorted(set(P) | set(S)):
            z = np.zeros(sims[i].shape)
            close(P.get(i, z), S.get(i, z), '%s: derivative of parameter %d in image %d' % (what, k, i), ctx)


def evaluate(t, op):
    if op == 'models':
        return list(t.getModelImages())
    if op == 'derivs':
        return t.getDerivs()
    if op == 'optimize':
        return t.optimize(shared_params=False)
    return t.getLogProb()


def fails_too(ctx, ser, op, e):
    """An evaluation that fails by itself has to fail serially too."""
    try:
        evaluate(ser, op)
    except Exception as e2:
        if type(e2) is type(e):
            ctx.probe('both-fail')
            ctx.log(op, 'fails serially as well:', type(e2).__name__)
            return True
    return False


def run(ctx):
    from tractor import Tractor
    from tractor.multiproc import TractorMultiprocMixin
    from tractor.cache import TractorCacheMixin
    from tractor.patch import ModelMask

    class MPTractor(TractorMultiprocMixin, Tractor):
        pass

    class MPCTractor(TractorMultiprocMixin, TractorCacheMixin, Tractor):
        pass
    # they must be importable in the nodes
    import props.c01 as me
    me.MPTractor, me.MPCTractor = MPTractor, MPCTractor
    for c in (MPTractor, MPCTractor):
        c.__module__, c.__qualname__ = 'props.c01', c.__name__

    sc = scenes.make_scene(ctx, nim=(1, 4), nsrc=(1, 3), sky=('const', 'null', 'spline'),
                           psfs=['ncirc', 'pix', 'hybrid', 'mog', 'mogell'])
    scenes.perturb(ctx, sc.sources)
    ims2, srcs2 = pickle.loads(pickle.dumps((sc.images, sc.sources)))
    for im in ims2:
        im.sig = 1.
    ser = Tractor(ims2, srcs2)

    use_cache = ctx.flip(0.3, 'cache')
    mode = ctx.wpick([(0.7, 'sim'), (0.3, 'inline')], 'pool')
    if mode == 'sim':
        pool = SimPool(ctx, ctx.between(1, 4, 'workers'))
    else:
        pool = None
        ctx.probe('nontrivial')
    kinds = ctx.swarm(['task-exception', 'render-exception', 'worker-killed', 'interrupt-wait'], 0.5)
    par = (MPCTractor if use_cache else MPTractor)(mp=pool, images=sc.images, catalog=sc.sources)

    freeze_images = ctx.flip(0.35, 'freeze-images')
    for t in (par, ser):
        if freeze_images:
            t.freezeParam('images')
        else:
            for im in t.images:
                im.freezeAllBut('sky', 'psf')
    if not freeze_images:
        # thaw psf only where it has few params; sometimes freeze a whole image
        for i, (a, b) in enumerate(zip(par.images, ser.images)):
            what = ctx.pick(['sky', 'sky+psf', 'frozen', 'photocal'], 'image-params')
            for im, t in ((a, par), (b, ser)):
                im.freezeAllParams()
                if what == 'frozen':
                    t.images.freezeParam(i)
                elif what == 'sky':
                    im.thawParam('sky')
                elif what == 'sky+psf':
                    im.thawParam('sky')
                    if im.psf.numberOfParams() <= 12:
                        im.thawParam('psf')
                else:
                    im.thawParam('photocal')

    masks = freeze_images and ctx.flip(0.3, 'model-masks')

    def set_masks(on):
        for t in (par, ser):
            if not on:
                t.setModelMasks(None)
                continue
            mm = []
            for im in t.images:
                d = {}
                H, W = im.shape
                for j, s in enumerate(t.catalog):
                    d[s] = ModelMask(j, 0, W - j, H)
                mm.append(d)
            t.setModelMasks(mm)

    if masks:
        set_masks(True)

    nops = ctx.between(1, 4, 'n-ops')
    for _ in range(nops):
        op = ctx.wpick([(3, 'models'), (4, 'derivs'), (2, 'optimize'), (1, 'logprob'), (2, 'perturb'),
                        (1, 'freeze-source')], 'op')
        if op == 'perturb':
            p = np.array(ser.catalog.getParams())
            k = ctx.draw(len(p), 'param')
            st = ser.catalog.getStepSizes()[k] * ctx.pick([1., -3., 5.], 'size')
            for t in (par, ser):
                q = t.catalog.getParams()
                q[k] += st
                t.catalog.setParams(q)
            ctx.op('perturb', k)
            continue
        if op == 'freeze-source':
            if len(ser.catalog) > 1:
                k = ctx.draw(len(ser.catalog), 'which')
                fr = not ser.catalog.liquid[k]
                for t in (par, ser):
                    (t.catalog.thawParam if fr else t.catalog.freezeParam)(k)
                if ser.catalog.numberOfParams() == 0:
                    for t in (par, ser):
                        t.catalog.thawParam(k)
            ctx.op('freeze')
            continue
        if op in ('derivs', 'optimize') and masks:
            op = 'models'
        armed = set()
        if pool is not None and kinds and ctx.flip(0.6, 'arm'):
            armed = {'task', 'interrupt'}
        before = scenes.snapshot(par)
        if pool is not None:
            pool.armed = set(armed)
        nf0 = sum(ctx.faults.values())
        try:
            if pool is None and ctx.fault('render-exception', 0.4, 'inline'):
                with raising_inside(ctx.draw(40, 'nth-patch')) as ri:
                    got, err = evaluate(par, op), None
            else:
                got, err = evaluate(par, op), None
        except (InjectedFault, InjectedInterrupt, WorkerLost) as e:
            err = e
        except Exception as e:
            if fails_too(ctx, ser, op, e):
                return
            raise
        if pool is not None:
            pool.armed = set()
            pool.abandon()
        injected = sum(ctx.faults.values()) > nf0
        ctx.op(op, 'error' if err else 'ok')
        if err is not None:
            ctx.probe('failure-reached-caller')
            after = scenes.snapshot(par)
            for key in before:
                ctx.check(before[key] == after[key], 'engine-damaged',
                          lambda: 'after a failed %s (%s) the engine\'s %s changed: %s -> %s' % (
                              op, type(err).__name__, key, before[key], after[key]))
            # progress: once faults stop, the same operation succeeds
            try:
                got = evaluate(par, op)
            except Exception as e:
                if fails_too(ctx, ser, op, e):
                    return
                raise
            ctx.op(op, 'retried')
        elif injected:
            # a failure that was not reported: the answer must still be right (checked below)
            ctx.probe('fault-absorbed')
        if op == 'models':
            ref = list(ser.getModelImages())
            ctx.check(got is not None and len(got) == len(ref), 'parallel-differs', 'number of model images')
            for i, (a, b) in enumerate(zip(got, ref)):
                close(a, b, 'model image %d' % i, ctx)
            ctx.state(op, [scenes.arr_digest(np.round(a, 3)) for a in ref])
        elif op == 'derivs':
            ref = ser.getDerivs()
            compare_derivs(ctx, got, ref, list(par.images), list(ser.images), op)
            ctx.state(op, [len(x) for x in ref])
            if any(d[0][0] is not None and 'im' in str(getattr(d[0][0], 'name', '')) for d in ref if len(d)):
                ctx.probe('image-derivs')
        elif op == 'optimize':
            ref = ser.optimize(shared_params=False)
            ctx.check(got[0] == ref[0] or abs(got[0] - ref[0]) <= 1e-3 + 1e-3 * abs(ref[0]) or not (np.isfinite(got[0]) or np.isfinite(ref[0])), 'parallel-differs',
                      'optimize: improvement %g vs %g' % (got[0], ref[0]))
            pa, pb = np.array(par.getParams()), np.array(ser.getParams())
            ss = np.abs(np.array(ser.getStepSizes()))
            ctx.check(np.all(np.abs(pa - pb) <= 1e-2 * ss + 1e-4 * np.abs(pb)), 'parallel-differs',
                      lambda: 'optimize: parameters %s vs %s' % (pa, pb))
            ser.setParams(list(pa))
            ctx.state(op, [round(x, 4) for x in pb])
        else:
            ref = ser.getLogProb()
            ctx.check(got == ref or abs(got - ref) <= 1e-6 * abs(ref) + 1e-6, 'parallel-differs', 'log prob %g vs %g' % (got, ref))
        # the engine is the one the caller had
        after = scenes.snapshot(par)
        for key in before:
            if op == 'optimize' and key in ('params', 'allparams'):
                continue
            ctx.check(before[key] == after[key], 'engine-damaged',
                      lambda: 'evaluation (%s) changed the engine\'s %s: %s -> %s' % (
                          op, key, before[key], after[key]))
