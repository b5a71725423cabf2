"""C10: threads that render at the same time from shared images, PSFs and
sources get what each gets alone, under a seeded line/bytecode scheduler."""
import os
import pickle
import numpy as np

from sim import scenes, threads
from sim.core import Violation

TIERS = dict(quick=dict(runs=4000, wall=240), thorough=dict(runs=150000, wall=3000))
RULE = ('one evaluation = 1..5 interleavings of 2..3 threads doing 1..4 renderings each from shared objects, every result compared '
        'with a serial evaluation on a separate copy; distinct_nontrivial counts distinct schedules with at least one preemption')
COMPONENTS = dict(real=['Tractor, images, sources, PSFs (Gaussian, pixelized, hybrid, PsfEx, caching), sky, cache; Python threads'],
                  stub=['thread scheduling (line- or bytecode-level, seeded) and threading locks'])

FILES = ['psf.py', 'psfex.py', 'galaxy.py', 'pointsource.py', 'mixture_profiles.py', 'cache.py', 'engine.py', 'sersic.py',
         'image.py', 'patch.py', 'ellipses.py', 'wcs.py', 'brightness.py', 'splinesky.py', 'sky.py', 'utils.py', 'shifted.py',
         'basics.py']


# how long a thread runs before it is preempted (yield points); the first is for ever
QUANTA = [[10 ** 9, 1, 2, 3, 5, 9, 16, 30, 60, 120, 300, 800],
          [10 ** 9] + [1, 2, 3, 4, 5, 7, 9, 12, 16, 20] * 4,
          [10 ** 9] + [3, 8, 15, 25, 40, 70, 110] * 3]


def preload():
    threads.install()
    scenes.preload()
    import tractor.mixture_profiles
    from props.c03 import make_psfex


def make_caching(ctx, cache=True):
    from tractor.psfex import CachingPsfEx, PsfExModel, PsfEx
    from props.c03 import make_psfex
    px = make_psfex(ctx, None)
    if not cache:
        c = PsfEx(None, 40, 40, nx=4, ny=4, K=1)
    else:
        c = CachingPsfEx(None, 40, 40, nx=4, ny=4, K=1, rounding=ctx.pick([10, 5], 'rounding'))
    c.psfex = px.psfex
    X = np.linspace(0, 40, 4)
    xx, yy = np.meshgrid(X, X)
    # amp, mean x,y, var xx,yy,xy
    pp = np.dstack([1. + 0 * xx, 0.002 * xx, 0.001 * yy, 2. + 0.02 * xx, 2.5 + 0.01 * yy, 0.1 + 0.001 * xx])
    c.fitSavedData(pp, X, X)
    c.radius = 8.
    return c


def tasks_for(ctx, n, ims, srcs):
    out = []
    for _ in range(n):
        k = ctx.wpick([(4, 'model'), (3, 'patch'), (3, 'psf'), (2, 'fft'), (2, 'loglike'), (1, 'chi'), (1, 'mog'),
                       (2, 'derivs'), (1, 'sky'),
                       (2, 'mpsf'), (2, 'mpatch'), (1.5, 'mderivs'), (1, 'unitflux'), (1, 'constpsf'), (1, 'subimage'), (1, 'fit')], 'task')
        i = ctx.draw(len(ims), 'image')
        j = ctx.draw(len(srcs), 'source')
        x = round(ctx.unif(3., 15., 'x'), 2)
        y = round(ctx.unif(3., 15., 'y'), 2)
        r = ctx.pick([6, 8, 12, 20], 'radius')
        out.append((k, i, j, x, y, r))
    return out


def do(task, tr, ims, srcs, private):
    k, i, j, x, y, r = task
    im, s = ims[i], srcs[j]
    if k == 'model':
        return [tr.getModelImage(i)]
    if k == 'patch':
        return [scenes.canvas(tr.getModelPatch(im, s), im.shape)]
    if k == 'psf':
        p = im.psf.getPointSourcePatch(x, y)
        return [np.array([p.x0, p.y0]), np.array(p.patch)]
    if k == 'fft':
        if not hasattr(im.psf, 'getFourierTransform'):
            p = im.psf.getPointSourcePatch(y, x)
            return [np.array([p.x0, p.y0]), np.array(p.patch)]
        P, c, sh, (v, w) = im.psf.getFourierTransform(x, y, r)
        return [np.abs(P), np.array(P.imag), np.array(c, float), np.array(sh, float), np.array(v), np.array(w)]
    if k == 'mog':
        if not hasattr(im.psf, 'getMixtureOfGaussians'):
            return []
        m = im.psf.getMixtureOfGaussians(px=x, py=y)
        return [np.array(m.amp), np.array(m.mean), np.array(m.var)]
    if k == 'loglike':
        return [np.array([tr.getLogLikelihood()])]
    if k == 'chi':
        return [tr.getChiImage(i)]
    if k == 'sky':
        a = np.zeros(im.shape, np.float32)
        im.sky.addTo(a)
        return [a]
    if k == 'derivs':
        # of this thread's own source, on the shared image
        out = []
        for d in private.getParamDerivatives(im):
            out.append(scenes.canvas(d, im.shape))
        return out
    if k in ('mpsf', 'mpatch', 'mderivs'):
        # inside a model mask
        from tractor.patch import ModelMask
        x0, y0 = max(0, int(x) - r // 2), max(0, int(y) - r // 2)
        mm = ModelMask(x0, y0, r, r + 1)
        if r == 8:
            m = np.ones((r + 1, r), bool)
            m[:2] = False
            mm = ModelMask(x0, y0, m)
        if k == 'mpsf':
            p = im.psf.getPointSourcePatch(x, y, modelMask=mm)
            return [] if p is None else [np.array([p.x0, p.y0]), np.array(p.patch)]
        if k == 'mpatch':
            return [scenes.canvas(private.getModelPatch(im, modelMask=mm), im.shape)]
        return [scenes.canvas(d, im.shape) for d in private.getParamDerivatives(im, modelMask=mm)]
    if k == 'unitflux':
        return [scenes.canvas(p, im.shape) for p in private.getUnitFluxModelPatches(im)]
    if k == 'constpsf':
        p = im.psf.constantPsfAt(x, y).getPointSourcePatch(x + 0.25, y - 0.25)
        return [np.array([p.x0, p.y0]), np.array(p.patch)]
    if k == 'subimage':
        sub = im.subimage(2, 14, 3, 15)
        return [scenes.canvas(private.getModelPatch(sub), sub.shape)]
    if k == 'fit':
        # this thread's own engine and source, over the shared image
        from tractor import Tractor
        t = Tractor([im], [private])
        t.freezeParam('images')
        p0 = private.getParams()
        X = t.getDerivs()
        up = t.optimizer.getUpdateDirection(t, X)
        out = [np.array(up, float)]
        t.setParams(np.array(p0) + 1e-3 * np.abs(p0))
        out.append(np.array([t.getLogLikelihood()]))
        t.setParams(p0)
        return out
    raise KeyError(k)


def run(ctx):
    from tractor import Tractor
    from tractor.cache import TractorCacheMixin, Cache
    import tractor

    class CTractor(TractorCacheMixin, Tractor):
        pass

    psfs = ['ncirc', 'pix', 'mog', 'hybrid', 'mogell', 'normpix']
    sc = scenes.make_scene(ctx, nim=(1, 2), nsrc=(1, 3), psfs=psfs, sky=('const', 'spline', 'null'), size=(18, 24))
    ims, srcs = sc.images, sc.sources
    for im in ims:
        k = ctx.wpick([(4, 'same'), (2, 'psfex'), (1, 'caching'), (1, 'varying'), (1, 'oversampled')], 'psf2')
        if k == 'psfex':
            from props.c03 import make_psfex
            im.psf = make_psfex(ctx, None)
        elif k in ('caching', 'varying'):
            im.psf = make_caching(ctx, k == 'caching')
        elif k == 'oversampled':
            from tractor import PixelizedPSF
            from tractor.psf import NormalizedPixelizedPsf
            im.psf = ctx.pick([PixelizedPSF, NormalizedPixelizedPsf], 'cls')(scenes.gauss_stamp(12, 3.), sampling=0.5)
        ctx.log('psf', type(im.psf).__name__)
    share_psf = len(ims) > 1 and ctx.flip(0.4, 'share-psf')
    if share_psf:
        ims[1].psf = ims[0].psf
    # thread-private sources
    nth = ctx.between(2, 3, 'threads')
    privs = [scenes.make_source(ctx, sc.wcskind, sc.bkind, 18, 18)[1] for _ in range(nth)]
    mode = ctx.pick(['one-engine', 'engine-each', 'cached-shared', 'shared-cache'], 'engines')
    blob = pickle.dumps((ims, srcs, privs))
    cap = ctx.pick([1, 2, 100], 'cap')

    def engines(ims, srcs):
        if mode == 'one-engine':
            return [Tractor(ims, srcs)] * nth
        if mode == 'engine-each':
            return [Tractor(list(ims), list(srcs)) for _ in range(nth)]
        c = Cache(maxsize=cap)
        if mode == 'cached-shared':
            return [CTractor(ims, srcs, cache=c)] * nth
        return [CTractor(list(ims), list(srcs), cache=c) for _ in range(nth)]
    trs = engines(ims, srcs)
    plans = [tasks_for(ctx, ctx.between(1, 4, 'ntasks'), ims, srcs) for _ in range(nth)]
    how = ctx.pick(['own', 'same', 'similar'], 'plans')
    if how == 'same':
        plans = [list(plans[0]) for _ in range(nth)]
    elif how == 'similar':
        # the same calls on the same objects, with other arguments
        plans = [[(t[0], t[1], t[2], round(ctx.unif(3., 15., 'x'), 2), round(ctx.unif(3., 15., 'y'), 2), ctx.pick([t[5], 6, 12], 'radius')) for t in plans[0]] for _ in range(nth)]
    ctx.probe(how + '-plan')
    # serial reference: for each thread, on its own cold copy
    warm = ctx.flip(0.3, 'warm')
    refs = []
    for n in range(nth):
        ims2, srcs2, privs2 = pickle.loads(blob)
        t2 = Tractor(ims2, srcs2)
        rr = []
        for task in plans[n]:
            try:
                rr.append(do(task, t2, ims2, srcs2, privs2[n]))
            except Exception as e:
                rr.append(type(e))
        refs.append(rr)
    d = os.path.dirname(os.path.realpath(tractor.__file__))
    rounds = ctx.between(1, 5, 'rounds')
    for rnd in range(rounds):
        if rnd and ctx.flip(0.75, 'fresh'):
            ims, srcs, privs = pickle.loads(blob)
            trs = engines(ims, srcs)
        if warm:
            for task in plans[0][:2]:
                try:
                    do(task, trs[0], ims, srcs, privs[0])
                except Exception:
                    pass
        opc = ctx.flip(0.25, 'opcodes')
        # a random subset of the files, so that the preemptions concentrate
        focus = ctx.pick([None, 'psf.py', 'psfex.py', 'galaxy.py', 'cache.py', 'mixture_profiles.py', 'sersic.py'], 'focus')
        files = [os.path.join(d, f) for f in ([focus] if focus else FILES)]
        sched = threads.Scheduler(ctx, files, opcodes=opc,
                                  quanta=ctx.pick(QUANTA, 'pace'))
        results = [[] for _ in range(nth)]

        def body(n):
            def f():
                for task in plans[n]:
                    try:
                        r = do(task, trs[n], ims, srcs, privs[n])
                    except Exception as e:
                        r = type(e)
                    results[n].append(r)
            return f
        for n in range(nth):
            sched.spawn('t%d' % n, body(n))
        before = [scenes.arr_digest(im.getImage()) for im in ims], [s.getAllParams() for s in srcs], [im.getAllParams() for im in ims]
        try:
            ths = sched.run()
        except threads.Deadlock as e:
            raise Violation('deadlock', str(e))
        ctx.simtime += sched.total * 1e-6
        ctx.op(mode, nth, 'threads', 'warm' if warm else 'cold', 'focus', focus, 'share-psf' if share_psf else '')
        for n, p in enumerate(plans):
            ctx.log('thread', n, p)
        ctx.probe('switches', sched.switches)
        for t in ths:
            if t.error is not None:
                raise Violation('concurrent-failure', '%s: %s: %s' % (t.name, type(t.error).__name__, t.error))
        for n in range(nth):
            for task, got, ref in zip(plans[n], results[n], refs[n]):
                compare(ctx, n, task, got, ref)
        after = [scenes.arr_digest(im.getImage()) for im in ims], [s.getAllParams() for s in srcs], [im.getAllParams() for im in ims]
        ctx.check(before == after, 'shared-state-changed', 'concurrent rendering changed pixels or parameters')
    # and the shared objects are still good afterwards
    ims2, srcs2, privs2 = pickle.loads(blob)
    t2 = Tractor(ims2, srcs2)
    for task in plans[0]:
        out = []
        for (t, a, b, c) in ((trs[0], ims, srcs, privs[0]), (t2, ims2, srcs2, privs2[0])):
            try:
                out.append(do(task, t, a, b, c))
            except Exception as e:
                out.append(type(e))
        compare(ctx, 'afterwards', task, out[0], out[1])
    ctx.state([(t[0], t[1], t[2]) for p in plans for t in p], mode)


def compare(ctx, n, task, got, ref):
    if isinstance(got, type) or isinstance(ref, type):
        ctx.check(got is ref, 'concurrent-differs', 'thread %s, %s: %s instead of %s' % (n, task, got, ref))
        ctx.probe('both-fail-%s-%s' % (task[0], ref.__name__))
        return
    ctx.check(len(got) == len(ref), 'concurrent-differs', 'thread %s, %s' % (n, task))
    for a, b in zip(got, ref):
        a, b = np.asarray(a, float), np.asarray(b, float)
        ctx.check(a.shape == b.shape, 'concurrent-differs', 'thread %s, %s: shapes %s %s' % (n, task, a.shape, b.shape))
        if a.size:
            a, b = scenes.level(a, b)
            s = np.abs(b).max()
            dd = np.abs(a - b).max()
            ctx.check(dd <= 1e-5 * s + 1e-9, 'concurrent-differs',
                      lambda: 'thread %s, %s: max difference %g (scale %g)' % (n, task, dd, s))
