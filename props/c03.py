"""C03: an engine that caches rendered source models against an uncached twin
holding the same images and sources, over random histories of changes,
evaluations, evictions and failed evaluations; and the cache alone against an
LRU reference model."""
import collections
import gc
import pickle
import numpy as np

from sim import scenes
from sim.core import InjectedFault, InjectedInterrupt

TIERS = dict(quick=dict(runs=2500, wall=240), thorough=dict(runs=40000, wall=3000))
RULE = ('one evaluation = one history of 6..30 changes/evaluations on a cached engine compared with an uncached twin (or of '
        '10..60 operations on the bare cache compared with an LRU reference); distinct_nontrivial counts distinct histories '
        'in which an entry was re-used after a change, evicted, or an evaluation failure was injected')
COMPONENTS = dict(real=['tractor.cache.Cache, TractorCacheMixin, Tractor, every hashkey(), sources, PSFs, WCS, photometric calibrations'],
                  stub=['a source and a PSF subclass that fail on command'])


def preload():
    scenes.preload()


class Trip(object):
    """Armed fault: the n-th rendering call from now fails."""
    n = None
    exc = InjectedFault

    @classmethod
    def hit(cls):
        if cls.n is None:
            return
        cls.n -= 1
        if cls.n <= 0:
            cls.n = None
            raise cls.exc('rendering')


def tripping(src):
    """Give this source's class a failure point, through a public override."""
    base = src.__class__
    if getattr(base, '_trips', False):
        return
    late = [False]

    class T(base):
        _trips = True

        def getModelPatch(self, *a, **k):
            Trip.hit()
            r = base.getModelPatch(self, *a, **k)
            Trip.hit()
            return r
    T.__name__ = base.__name__
    T.__qualname__ = base.__qualname__
    T.__module__ = base.__module__
    src.__class__ = T


# ---------------------------------------------------------------- bare cache
class Key(object):
    """Keys that collide in hash and may fail to hash or compare."""
    fail = None

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        if Key.fail == 'hash':
            raise InjectedFault('hash')
        return self.i % 3

    def __eq__(self, o):
        if Key.fail == 'eq':
            raise InjectedFault('eq')
        return isinstance(o, Key) and self.i == o.i

    def __repr__(self):
        return 'K%d' % self.i


def run_lru(ctx):
    from tractor.cache import Cache
    size = ctx.pick([1, 2, 3, 5, 8, 1000], 'maxsize')
    c = Cache(maxsize=size)
    ref = collections.OrderedDict()
    nk = ctx.pick([2, 4, 9, 14], 'nkeys')
    keymode = ctx.pick(['int', 'tuple', 'colliding', 'negative'], 'keys')

    def mk(i):
        return {'int': i, 'tuple': ('k', float(i), None), 'colliding': Key(i), 'negative': (-float(i),)}[keymode]
    ctx.swarm(['key-fault'], 0.5)
    hits = misses = 0
    counter = [0]
    for _ in range(ctx.between(10, 60, 'nops')):
        op = ctx.wpick([(5, 'put'), (4, 'get'), (2, 'getdef'), (0.4, 'clear'), (1, 'len'), (0.5, 'pickle'),
                        (1, 'getitem'), (0.5, 'stats')], 'op')
        i = ctx.draw(nk, 'key')
        k = mk(i)
        if keymode == 'colliding' and op in ('put', 'get', 'getdef', 'getitem') and ctx.fault('key-fault', 0.1):
            Key.fail = ctx.pick(['hash', 'eq'], 'how')
            try:
                if op == 'put':
                    c.put(k, object())
                    # an eq fault only fires when there is something to compare with
                elif op == 'getdef':
                    c.get(k, 'default')
                else:
                    c.get(k)
                failed = False
            except (InjectedFault, KeyError):
                failed = True
            finally:
                Key.fail = None
            if not failed or op == 'put':
                # cannot say what happened: start the reference again from what it holds now
                c.clear()
                ref.clear()
                hits = misses = 0
            ctx.op('faulty', op)
            ctx.check(len(c) == len(ref), 'failed-lookup-changed-cache',
                      '%d entries after a failed lookup, %d before' % (len(c), len(ref)))
            for kk in list(ref)[:1] if ref else []:
                pass
            if failed and op != 'put':
                # contents unchanged (order may have been refreshed only by a successful lookup)
                for kk in list(ref):
                    v = c.get(mk(kk), None)
                    ctx.check(v is ref[kk], 'failed-lookup-changed-cache', 'key %s lost after a failed lookup' % kk)
                    ref.move_to_end(kk)
            continue
        if op == 'put':
            counter[0] += 1
            v = ctx.wpick([(5, 'obj'), (1, 'none'), (1, 'tuple')], 'val')
            v = {'obj': ['v', i, counter[0]], 'none': None, 'tuple': (0., None)}[v]
            if ctx.flip(0.3, 'via-setitem'):
                c[k] = v
            else:
                c.put(k, v)
            if i in ref:
                ctx.probe('replaced')
                del ref[i]
            elif len(ref) >= size:
                ref.popitem(last=False)
                ctx.probe('evicted')
                ctx.probe('nontrivial')
            ref[i] = v
        elif op == 'clear':
            c.clear()
            ref.clear()
        elif op == 'len':
            pass
        elif op == 'stats':
            str(c)
            c.totalSize()
        elif op == 'pickle':
            if keymode != 'colliding':
                c2 = pickle.loads(pickle.dumps(c))
                ctx.check(len(c2) <= size, 'capacity', 'restored cache too large')
                c3 = pickle.loads(pickle.dumps(c))
                for kk, vv in ref.items():
                    got = c3.get(mk(kk), 'missing')
                    ctx.check(got == vv or got == 'missing', 'wrong-value', 'restored cache: key %s' % kk)
        else:
            default = object()
            want = ref.get(i, default)
            if op == 'get':
                try:
                    got = c.get(k)
                except KeyError:
                    got = default
            elif op == 'getitem':
                try:
                    got = c[k]
                except KeyError:
                    got = default
            else:
                got = c.get(k, default)
            if i in ref:
                ref.move_to_end(i)
                ctx.probe('hit')
            ctx.check(not (got is default and want is not default), 'lost-entry',
                      lambda: 'key %s should be present (reference, oldest first: %s; capacity %d)' % (i, list(ref), size))
            ctx.check(not (got is not default and want is default), 'not-least-recently-used',
                      lambda: 'key %s should have been dropped (reference: %s; capacity %d)' % (i, list(ref), size))
            ctx.check(got is want, 'wrong-value', lambda: 'key %s: got %r, stored %r' % (i, got, want))
        ctx.op(op, i)
        ctx.check(len(c) <= size, 'capacity', lambda: '%d entries, capacity %d' % (len(c), size))
        ctx.check(len(c) == len(ref), 'lost-entry', lambda: '%d entries, reference has %d' % (len(c), len(ref)))
        ctx.state(op, list(ref))


# ---------------------------------------------------------------- engines
def close(ctx, a, b, what, extra=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ctx.check(a.shape == b.shape, 'cached-differs', '%s: shape %s vs %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    a, b = scenes.level(a, b)
    d = np.abs(a - b).max()
    s = np.abs(b).max()
    ctx.check(d <= 1e-6 * s + 1e-9 + extra, 'cached-differs',
              lambda: '%s: max difference %g (scale %g)' % (what, d, s))


def compare(ctx, A, B, i, what, extra=0., **kw):
    try:
        ref = B.getModelImage(i, **kw)
    except (RuntimeError, AssertionError) as e:
        try:
            A.getModelImage(i, **kw)
        except type(e):
            ctx.probe('unrenderable')
            return
        ctx.check(False, 'cached-differs', '%s fails without the cache (%s) but not with it' % (what, e))
    close(ctx, A.getModelImage(i, **kw), ref, what, extra)


def run(ctx):
    if ctx.flip(0.25, 'bare-cache'):
        return run_lru(ctx)
    from tractor import Tractor, PixelizedPSF, NullWCS, ConstantSky, Image
    from tractor.cache import TractorCacheMixin, Cache, NullCache
    from tractor.patch import ModelMask
    from tractor.psf import NormalizedPixelizedPsf

    class CTractor(TractorCacheMixin, Tractor):
        pass
    import props.c03 as me
    me.CTractor = CTractor
    CTractor.__module__, CTractor.__qualname__ = 'props.c03', 'CTractor'

    sc = scenes.make_scene(ctx, nim=(1, 2), nsrc=(1, 3), sky=('const', 'null'))
    scenes.perturb(ctx, sc.sources)
    ims, srcs = sc.images, sc.sources
    if ctx.flip(0.3, 'csb'):
        from tractor.basics import ConstantSurfaceBrightness
        srcs.append(ConstantSurfaceBrightness(scenes.make_brightness(ctx, sc.bkind, 1., 3.)))
    for im in ims:
        if ctx.flip(0.2, 'minval'):
            im.modelMinval = 0.05
    size = ctx.pick([1, 2, 3, 5, 1000], 'maxsize')
    kind = ctx.wpick([(8, 'cache'), (1, 'default'), (1, 'null')], 'cache-kind')
    cache = {'cache': Cache(maxsize=size), 'default': None, 'null': NullCache()}[kind]
    A = CTractor(ims, srcs, cache=cache)
    B = Tractor(list(ims), list(srcs))
    both = (A, B)
    ctx.swarm(['render-exception', 'render-interrupt'], 0.5)
    if ctx.enabled:
        for s in srcs:
            tripping(s)
    saved_cache = [None]
    minsbs = [0.]
    history = []
    nev = 0

    def setmasks(mm, expect):
        for t in both:
            t.setModelMasks(mm, assumeMasks=expect)

    def cur():
        return [list(s.getParams()) for s in srcs]

    def evaluate(what, args):
        """on one engine"""
        def f(t):
            if what == 'image':
                i, kw = args
                return [t.getModelImage(i, **kw)]
            if what == 'images':
                return list(t.getModelImages())
            if what == 'chi':
                return [t.getChiImage(i) for i in range(len(ims))]
            if what == 'loglike':
                return [np.array([t.getLogLikelihood()])]
            if what == 'logprob':
                return [np.array([t.getLogProb()])]
            if what == 'patch':
                i, j, kw = args
                p = t.getModelPatch(ims[i], srcs[j], **kw)
                return [scenes.canvas(p, ims[i].shape)]
            raise KeyError(what)
        return f

    nops = ctx.between(6, 30, 'nops')
    for _ in range(nops):
        op = ctx.wpick([(9, 'eval'), (4, 'perturb'), (3, 'back'), (2, 'psf'), (1.5, 'photocal'), (1.5, 'wcs'),
                        (1, 'sky'), (2, 'masks'), (0.7, 'clear'), (0.7, 'disable'), (1, 'addsrc'), (1, 'newimage'),
                        (1, 'minval'), (1, 'hashpair'), (0.6, 'size'), (0.7, 'pickle'), (0.7, 'optimize'),
                        (0.6, 'kwargs'), (0.7, 'swapclass'), (0.5, 'reorder'), (0.5, 'pixels'), (0.4, 'shape')], 'op')
        if op == 'eval':
            what = ctx.wpick([(4, 'image'), (2, 'images'), (1, 'chi'), (2, 'loglike'), (1, 'logprob'), (3, 'patch')], 'what')
            args = None
            extra = 0.
            if what == 'image':
                kw = {}
                m = ctx.pick([None, 0., 0.3], 'minsb')
                if m is not None:
                    kw['minsb'] = m
                if ctx.flip(0.3, 'nosky'):
                    kw['sky'] = False
                i = ctx.draw(len(ims), 'image')
                if ctx.flip(0.3, 'subset'):
                    kw['srcs'] = [s for s in srcs if ctx.flip(0.5, 'in')]
                args = (i, kw)
                mv = kw.get('minsb')
                if mv is None:
                    mv = ims[i].modelMinval
                extra = 4. * mv * len(srcs)
            elif what == 'patch':
                i, j = ctx.draw(len(ims), 'image'), ctx.draw(len(srcs), 'source')
                m = ctx.pick([None, 0., 0.3], 'minsb')
                kw = {} if m is None else dict(minsb=m)
                args = (i, j, kw)
            elif what in ('images', 'loglike', 'logprob'):
                extra = 4. * max(im.modelMinval for im in ims) * len(srcs)
                if extra and what != 'images':
                    what, args = 'chi', None
                    extra = 0.
            f = evaluate(what, args)
            before = cur()
            if ctx.enabled and ctx.flip(0.3, 'arm'):
                kindf = ctx.pick(sorted(ctx.enabled), 'which-fault')
                Trip.exc = InjectedFault if kindf == 'render-exception' else InjectedInterrupt
                Trip.n = ctx.between(1, 5, 'at')
                try:
                    got = f(A)
                    ctx.offered[kindf] = ctx.offered.get(kindf, 0) + 1
                except (InjectedFault, InjectedInterrupt):
                    ctx.injected(kindf)
                    got = None
                except (RuntimeError, AssertionError):
                    got = None      # unrenderable; see below
                Trip.n = None
                ctx.op('failing-eval', what, kindf, 'failed' if got is None else 'survived')
            else:
                got = None
            try:
                ref = f(B)
            except (RuntimeError, AssertionError) as e:
                # a model that cannot be rendered (e.g. centre outside its mask)
                ctx.probe('unrenderable')
                try:
                    f(A)
                except type(e):
                    ctx.op('eval', what, 'fails in both')
                    continue
                ctx.check(False, 'cached-differs', '%s fails without the cache (%s) but not with it' % (what, e))
            if got is None:
                got = f(A)
            ctx.check(cur() == before, 'evaluation-changed-parameters', what)
            ctx.check(len(got) == len(ref), 'cached-differs', 'number of results')
            for k, (a, b) in enumerate(zip(got, ref)):
                if what == 'patch':
                    # may be a more precise version than asked for
                    i, j, kw = args
                    mv = kw.get('minsb')
                    mv = ims[i].modelMinval if mv is None else mv
                    ok = False
                    for m in sorted(set([mv, 0., 0.05, 0.3])):
                        if m <= mv:
                            q = scenes.canvas(B.getModelPatch(ims[i], srcs[j], minsb=m), ims[i].shape)
                            if np.abs(a - q).max() <= 1e-6 * np.abs(q).max() + 1e-9:
                                ok = True
                    ctx.check(ok, 'cached-differs', lambda: 'patch of source %d in image %d, minsb %s: max difference %g' % (
                        j, i, mv, np.abs(a - b).max()))
                else:
                    close(ctx, a, b, '%s %d' % (what, k), extra)
            ctx.state(what, [scenes.arr_digest(np.round(np.asarray(r, float), 2)) for r in ref])
            if A.cache is not None and kind == 'cache':
                ctx.check(len(A.cache) <= size or A.cache.maxsize != size, 'capacity', '%d entries, capacity %d' % (len(A.cache), size))
            ctx.op('eval', what, args if what == 'patch' else '')
            if A.cache is not None and getattr(A.cache, 'hits', 0) > 0:
                ctx.probe('cache-hit')
                ctx.probe('nontrivial')
            nev += 1
            continue
        if op == 'perturb':
            history.append(cur())
            j = ctx.draw(len(srcs), 'source')
            p = srcs[j].getParams()
            if len(p):
                k = ctx.draw(len(p), 'param')
                names = srcs[j].getParamNames()
                st = scenes.small_step(srcs[j], k, names[k]) * ctx.pick([0.5, -0.5, 1e-2, 1e-3, 1e-4], 'step')
                srcs[j].setParam(k, p[k] + st)
            ctx.op(op, j)
        elif op == 'back':
            if history:
                h = history[ctx.draw(len(history), 'to')]
                for s, p in zip(srcs, h):
                    if len(p) == s.numberOfParams():
                        s.setParams(list(p))
            ctx.op(op)
        elif op == 'hashpair':
            # -1.0 and -2.0 have the same hash; so do other pairs
            js = [j for j, s in enumerate(srcs) if any(n.endswith('.ee1') or n.endswith('.ee2') or n == 'pos.x' or n == 'pos.y'
                                                      for n in s.getParamNames())]
            if js:
                s = srcs[ctx.pick(js, 'source')]
                ns = s.getParamNames()
                ks = [k for k, n in enumerate(ns) if n.endswith('.ee1') or n.endswith('.ee2') or n in ('pos.x', 'pos.y')]
                k = ctx.pick(ks, 'param')
                old = s.getParams()[k]
                i = ctx.draw(len(ims), 'image')
                for v in (-1., -2.):
                    s.setParam(k, v)
                    compare(ctx, A, B, i, 'model with %s = %g' % (ns[k], v), 4 * ims[i].modelMinval * len(srcs))
                s.setParam(k, old)
            ctx.op(op)
        elif op == 'psf':
            i = ctx.draw(len(ims), 'image')
            how = ctx.pick(['new', 'normalized', 'transpose', 'sampling', 'params', 'pixels', 'psfex'], 'how')
            p = ims[i].psf
            if how == 'new' or not hasattr(p, 'img') and how not in ('params', 'psfex'):
                ims[i].psf = scenes.make_psf(ctx)[1]
            elif how == 'params':
                if p.numberOfParams():
                    k = ctx.draw(p.numberOfParams(), 'param')
                    v = p.getParams()[k]
                    p.setParam(k, v * 1.05)
            elif how == 'psfex':
                ims[i].psf = make_psfex(ctx, ims[i].psf)
            elif how == 'normalized':
                ims[i].psf = (NormalizedPixelizedPsf if type(p).__name__ == 'PixelizedPSF' else PixelizedPSF)(p.img * 1.)
            elif how == 'transpose':
                h, w = p.img.shape
                if ctx.flip(0.5, 'reshape') and h > 5:
                    # same pixels, other shape
                    flat = np.ascontiguousarray(p.img[h // 2 - 1:h // 2 + 2, :])
                    ims[i].psf = PixelizedPSF(flat)
                    compare(ctx, A, B, i, 'flat PSF', 4 * ims[i].modelMinval * len(srcs))
                    ims[i].psf = PixelizedPSF(flat.reshape(w, 3))
                else:
                    ims[i].psf = PixelizedPSF(np.ascontiguousarray(p.img.T))
            elif how == 'sampling':
                ims[i].psf = PixelizedPSF(p.img * 1., sampling=ctx.pick([1., 0.5], 'sampling'))
            else:
                q = p.pix if hasattr(p, 'pix') else p
                img = q.img.copy()
                img[img.shape[0] // 2, img.shape[1] // 2] *= 1.01
                ims[i].psf = (PixelizedPSF if hasattr(q, 'psfex') else q.__class__)(img)
            ctx.op(op, how)
        elif op == 'photocal':
            i = ctx.draw(len(ims), 'image')
            pc = ims[i].photocal
            how = ctx.pick(['param', 'new', 'band'], 'how')
            if how == 'param' and pc.numberOfParams():
                pc.setParam(0, pc.getParams()[0] * ctx.pick([1.01, 0.97], 'f'))
            elif how == 'band' and sc.bkind == 'nmgy2':
                from tractor import LinearPhotoCal
                ims[i].photocal = LinearPhotoCal(pc.getScale(), band='g' if pc.band == 'r' else 'r')
            else:
                ims[i].photocal = scenes.make_photocal(ctx, sc.bkind, i)
            ctx.op(op, how)
        elif op == 'wcs':
            i = ctx.draw(len(ims), 'image')
            w = ims[i].wcs
            H, W = ims[i].shape
            if sc.wcskind == 'null':
                how = ctx.pick(['dx', 'pixscale', 'new'], 'how')
                if how == 'dx':
                    w.dx += ctx.pick([0.5, 1., -1.], 'd')
                elif how == 'pixscale':
                    w.setPixscale(ctx.pick([0.8, 1.2, 1.], 'ps'))
                else:
                    ims[i].wcs = NullWCS()
            else:
                how = ctx.pick(['x0', 'new'], 'how')
                if how == 'x0':
                    w.setX0Y0(ctx.pick([0, 1, 2], 'x0'), ctx.pick([0, 1], 'y0'))
                else:
                    # drop the old one, so that its memory may be reused
                    ims[i].wcs = None
                    del w
                    gc.collect()
                    ims[i].wcs = scenes.make_wcs(ctx, W, H, sc.wcskind, i)
            ctx.op(op, how)
        elif op == 'sky':
            i = ctx.draw(len(ims), 'image')
            if ims[i].sky.numberOfParams():
                ims[i].sky.setParam(0, ims[i].sky.getParams()[0] + 1.)
            else:
                ims[i].sky = ConstantSky(0.5)
            ctx.op(op)
        elif op == 'masks':
            how = ctx.pick(['none', 'rect', 'bool', 'partial', 'inplace', 'shift'], 'how')
            if how == 'none':
                setmasks(None, True)
            elif how == 'inplace' and A.modelMasks is not None:
                for d in A.modelMasks:
                    for s in srcs:
                        m = d.get(s)
                        if m is not None and m.mask is not None:
                            m.mask[:, :m.w // 2] = False
                            break
                        elif m is not None and m.w > 8:
                            m.w -= 2
                            break
            else:
                mm = []
                for im in ims:
                    H, W = im.shape
                    d = {}
                    for j, s in enumerate(srcs):
                        if how == 'partial' and ctx.flip(0.5, 'skip'):
                            continue
                        if how == 'bool':
                            m = np.ones((H - 1, W - 2), bool)
                            m[:, ctx.draw(W // 2, 'col')] = False
                            d[s] = ModelMask(1, 0, m)
                        elif how == 'shift':
                            d[s] = ModelMask(ctx.draw(3, 'x0'), 1, W - 6, H - 5)
                        else:
                            d[s] = ModelMask(0, 0, W - ctx.draw(4, 'w'), H)
                    mm.append(d)
                setmasks(mm, ctx.flip(0.5, 'expect'))
            ctx.op(op, how)
        elif op == 'clear':
            if A.cache is not None:
                A.clearCache()
            ctx.op(op)
        elif op == 'disable':
            if A.cache is not None:
                saved_cache[0] = A.cache
                A.disable_cache()
            else:
                A.cache = saved_cache[0]
            ctx.op(op)
        elif op == 'addsrc':
            if ctx.flip(0.5, 'remove') and len(srcs) > 1:
                j = ctx.draw(len(srcs), 'which')
                if A.modelMasks is not None:
                    setmasks(None, True)
                s = srcs.pop(j)
                for t in both:
                    t.catalog.remove(s)
                history[:] = []
            else:
                if ctx.flip(0.4, 'dup') and len(srcs):
                    s = srcs[ctx.draw(len(srcs), 'which')].copy()
                else:
                    s = scenes.make_source(ctx, sc.wcskind, sc.bkind, ims[0].getWidth(), ims[0].getHeight())[1]
                if ctx.enabled:
                    tripping(s)
                srcs.append(s)
                for t in both:
                    t.catalog.append(s)
                history[:] = []
            ctx.op(op)
        elif op == 'newimage':
            # a new image object of another size in place of the old one; the old is freed
            i = ctx.draw(len(ims), 'image')
            im = ims[i]
            H, W = im.shape
            H2, W2 = H - ctx.draw(4, 'dH'), W - ctx.draw(4, 'dW')
            if A.modelMasks is not None:
                setmasks(None, True)
            new = Image(data=im.getImage()[:H2, :W2].copy(), inverr=im.getInvError()[:H2, :W2].copy(), psf=im.psf,
                        wcs=im.wcs, sky=im.sky, photocal=im.photocal, name=im.name)
            for t in both:
                t.images[i] = new
            ims[i] = new
            del im
            gc.collect()
            ctx.op(op, H2 - H, W2 - W)
        elif op == 'minval':
            i = ctx.draw(len(ims), 'image')
            ims[i].modelMinval = ctx.pick([0., 0.05, 0.3], 'v')
            ctx.op(op)
        elif op == 'size':
            j = ctx.draw(len(srcs), 'source')
            s = srcs[j]
            if hasattr(s, 'fixedRadius'):
                s.fixedRadius = ctx.pick([None, 3, 6], 'r')
            elif hasattr(s, 'shape'):
                if hasattr(s, 'nre') and ctx.flip(0.4, 'nre'):
                    s.nre = ctx.pick([2., 8.], 'nre')
                else:
                    s.halfsize = ctx.pick([4, 8], 'r')
            ctx.op(op)
        elif op == 'kwargs':
            # rendering arguments the engine passes on to every source
            kw = ctx.pick([{}, dict(harness_unused=1), dict(harness_unused=(1, 2))], 'kw')
            ok = all(type(s).__mro__[1 if getattr(type(s), '_trips', False) else 0].__name__ == 'ConstantSurfaceBrightness'
                     for s in srcs)
            if ok:
                for t in both:
                    t.model_kwargs = dict(kw)
            ctx.op(op)
        elif op == 'pickle':
            if ctx.enabled or A.cache is None:
                continue
            A2 = pickle.loads(pickle.dumps(A))
            ctx.op(op)
            for i in range(len(ims)):
                compare(ctx, A2, B, i, 'restored engine: model %d' % i, minsb=0.)
        elif op == 'optimize':
            if A.modelMasks is not None or any(im.modelMinval for im in ims):
                continue
            # shapes frozen: unbounded shape fits may run off to enormous galaxies
            frozen = [(s, n) for s in srcs for n in ('shape', 'shapeExp', 'shapeDev', 'sersicindex') if hasattr(s, n)]
            for s, n in frozen:
                s.freezeParam(n)
            p0 = cur()
            for t in both:
                t.freezeParam('images')
            res = []
            for t in both:
                try:
                    r = t.optimize(shared_params=False)
                    res.append((float(r[0]), cur()))
                except (AssertionError, RuntimeError):
                    res.append(None)
                for s, p in zip(srcs, p0):
                    s.setParams(list(p))
            for t in both:
                t.thawParam('images')
            for s, n in frozen:
                s.thawParam(n)
            ctx.op(op)
            if res[0] is None or res[1] is None:
                # a trial point at which a model is not finite
                ctx.probe('nonfinite-model')
                continue
            ctx.check(abs(res[0][0] - res[1][0]) <= 1e-4 + 1e-5 * abs(res[1][0]), 'cached-differs',
                      lambda: 'optimization step: improvement %g with cache, %g without' % (res[0][0], res[1][0]))
            pa, pb = np.hstack(res[0][1]), np.hstack(res[1][1])
            ctx.check(np.all(np.abs(pa - pb) <= 1e-4 * np.abs(pb) + 1e-6), 'cached-differs',
                      lambda: 'optimization step: parameters %s with cache, %s without' % (pa, pb))
        elif op == 'swapclass':
            # a source of another class with equal parameters takes its place
            from tractor import ExpGalaxy, DevGalaxy
            js = [j for j, s in enumerate(srcs) if type(s).__name__ in ('ExpGalaxy', 'DevGalaxy', 'GaussianGalaxy')]
            if js and A.modelMasks is None:
                j = ctx.pick(js, 'source')
                s = srcs[j]
                new = (DevGalaxy if type(s).__name__ == 'ExpGalaxy' else ExpGalaxy)(s.pos, s.brightness, s.shape)
                if ctx.enabled:
                    tripping(new)
                srcs[j] = new
                for t in both:
                    t.catalog[j] = new
            ctx.op(op)
        elif op == 'reorder':
            if len(ims) > 1:
                mm = A.modelMasks
                ims.reverse()
                for t in both:
                    t.images[0], t.images[1] = ims[0], ims[1]
                if mm is not None:
                    setmasks([mm[1], mm[0]], A.expectModelMasks)
            ctx.op(op)
        elif op == 'pixels':
            i = ctx.draw(len(ims), 'image')
            d = ims[i].getImage()
            if ctx.flip(0.5, 'replace'):
                ims[i].data = (d * 1.01).astype(np.float32)
            else:
                d += 0.25
            ctx.op(op)
        elif op == 'shape':
            # move a source off the image and back
            s = srcs[ctx.draw(len(srcs), 'source')]
            if hasattr(s, 'pos'):
                p0 = s.pos.getParams()
                d = 200. if sc.wcskind == 'null' else 200. / 3600.
                s.pos.setParams([p0[0] + d, p0[1]])
                for i in range(len(ims)):
                    compare(ctx, A, B, i, 'source off the image', minsb=0.)
                s.pos.setParams(list(p0))
            ctx.op('away-and-back')
    # final: everything once more
    for i in range(len(ims)):
        compare(ctx, A, B, i, 'final model %d' % i, minsb=0.)
    if A.cache is not None and kind == 'cache':
        ctx.check(len(A.cache) <= size, 'capacity', '%d entries, capacity %d' % (len(A.cache), size))


def make_psfex(ctx, cur):
    """A position-dependent pixelized PSF."""
    from tractor.psfex import PsfExModel, PixelizedPsfEx, NormalizedPixelizedPsfEx
    if hasattr(cur, 'psfex') and ctx.flip(0.6, 'psfex-shift'):
        if ctx.flip(0.5, 'in-place'):
            cur.shift(ctx.pick([3., -5.], 'dx'), 1.)
            return cur
        return cur.getShifted(ctx.pick([3., -5.], 'dx'), 1.)
    m = PsfExModel()
    m.sampling = 1.
    m.degree = 1
    b = np.array([scenes.gauss_stamp(7, 1.5), scenes.gauss_stamp(7, 1.2) * 0.2, scenes.gauss_stamp(7, 2.) * 0.1])
    if ctx.flip(0.5, 'other-bases'):
        b[1] *= 0.5
    m.psfbases = b.astype(np.float32)
    m.x0 = m.y0 = 10.
    m.xscale = m.yscale = 10.
    m.radius = 8.
    m.fwhm = 3.
    cls = NormalizedPixelizedPsfEx if ctx.flip(0.3, 'normalized') else PixelizedPsfEx
    return cls(None, psfex=m)
