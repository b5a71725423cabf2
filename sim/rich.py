"""Engines with as many kinds of components as the package offers, and
operations on them.  Everything is decided by a Ctx, so an engine (or an
operation) can be repeated in another process from the piece of tape that was
recorded when it was first made: `Ctx(tape=piece)`.
"""
import numpy as np

from sim import scenes, engines
from sim.values import canon, same, short, why     # noqa: F401  (re-exported)

CTractor = MTractor = None
import os
DEBUG = os.environ.get("RICHDEBUG")


def preload():
    scenes.preload()
    import tractor.sercore
    import tractor.devcore
    import tractor.shifted
    import tractor.tractortime
    from tractor import Tractor
    from tractor.cache import TractorCacheMixin
    from tractor.multiproc import TractorMultiprocMixin
    g = globals()
    for nm, mix in (('CTractor', TractorCacheMixin), ('MTractor', TractorMultiprocMixin)):
        g[nm] = type(nm, (mix, Tractor), {'__module__': 'sim.rich', '__qualname__': nm})


def make_psfexmodel(ctx, sampling=1.):
    from tractor.psfex import PsfExModel
    m = PsfExModel()
    m.sampling = sampling
    m.degree = ctx.pick([1, 0, 2], 'degree')
    nb = (m.degree + 1) * (m.degree + 2) // 2
    rs = np.random.RandomState(ctx.bits('psfex-bases'))
    s = ctx.unif(1.2, 1.8, 'psf-sigma')
    b = [scenes.gauss_stamp(7, s)]
    for i in range(1, nb):
        b.append(scenes.gauss_stamp(7, s * rs.uniform(0.8, 1.4)) * rs.uniform(-0.1, 0.1))
    m.psfbases = np.array(b).astype(np.float32)
    m.x0, m.y0 = 10., 9.
    m.xscale, m.yscale = 10., 12.
    m.radius = 8.
    m.fwhm = 2.35 * s
    return m


def make_psf(ctx):
    from tractor.psfex import PixelizedPsfEx, NormalizedPixelizedPsfEx
    from tractor.psf import PixelizedPSF, HybridPixelizedPSF
    k = ctx.wpick([(6, 'basic'), (1.5, 'psfex'), (0.7, 'normpsfex'), (0.7, 'oversampled'), (0.7, 'hybridpsfex'), (0.5, 'lanczos'), (0.6, 'varying')], 'psf-family')
    if k == 'basic':
        return scenes.make_psf(ctx)
    if k == 'psfex':
        return k, PixelizedPsfEx(None, psfex=make_psfexmodel(ctx))
    if k == 'normpsfex':
        return k, NormalizedPixelizedPsfEx(None, psfex=make_psfexmodel(ctx))
    if k == 'hybridpsfex':
        from tractor import GaussianMixturePSF
        var = np.zeros((1, 2, 2))
        var[0] = np.eye(2) * 2.
        return k, HybridPixelizedPSF(PixelizedPsfEx(None, psfex=make_psfexmodel(ctx)), gauss=GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), var))
    if k == 'varying':
        from tractor.psfex import VaryingGaussianPsfEx, CachingPsfEx
        from tractor.psf import GaussianMixtureEllipsePSF
        m = make_psfexmodel(ctx)
        p = VaryingGaussianPsfEx(None, 26, 26, nx=4, ny=4, K=1, psfClass=GaussianMixtureEllipsePSF)
        p.psfex = m
        p.radius = 8.
        if ctx.flip(0.5, 'caching'):
            p.ensureFit()
            p = CachingPsfEx.fromPsfEx(p, rounding=ctx.pick([10, 4], 'rounding'))
            p.psfex = m
            p.radius = 8.
        return k, p
    if k == 'lanczos':
        return k, PixelizedPSF(scenes.gauss_stamp(7, 1.5), Lorder=ctx.pick([3, 5], 'Lorder'))
    return k, PixelizedPSF(scenes.gauss_stamp(10, 2.6), sampling=0.5)


def make_image(ctx, i, wcskind, bkind, shared, points=False):
    from tractor import Image, ConstantSky
    from tractor.sky import NullSky
    from tractor.shifted import ScaledPhotoCal
    from tractor.tractortime import TAITime
    W, H = ctx.between(18, 26, 'W'), ctx.between(18, 26, 'H')
    if shared and ctx.flip(0.25, 'share-psf'):
        k, psf = shared[0]
    else:
        k, psf = make_psf(ctx)
    wcs = scenes.make_wcs(ctx, W, H, wcskind, i)
    if wcskind != 'null' and ctx.flip(0.2, 'shifted-wcs'):
        wcs.setX0Y0(1., -2.)
    # (galaxies need things of a WCS and a PSF that the wrappers do not have)
    if points and ctx.flip(0.4, 'wrapped-wcs'):
        from tractor.shifted import ShiftedWcs
        wcs = ShiftedWcs(wcs, *ctx.pick([(0, 0), (2, -1)], 'offset'))
    if points and not k.startswith('shifted') and ctx.flip(0.4, 'wrapped-psf'):
        from tractor.shifted import ShiftedPsf
        psf = ShiftedPsf(psf, *ctx.pick([(0, 0), (3, 5)], 'offset'))
        k = 'shifted-' + k
    sk = ctx.pick(['const', 'null', 'spline'], 'sky')
    if shared and ctx.flip(0.15, 'share-sky'):
        sky = shared[1]
    elif sk == 'const':
        sky = ConstantSky(ctx.unif(-1., 3., 'sky-level'))
    elif sk == 'spline':
        sky = scenes.make_splinesky(ctx, W, H)
    else:
        sky = NullSky()
    pc = scenes.make_photocal(ctx, bkind, i)
    if ctx.flip(0.1, 'scaled-photocal'):
        pc = ScaledPhotoCal(pc, 1.5)
    rs = np.random.RandomState(ctx.bits('pixels'))
    sig = ctx.pick([1., 0.5, 2.], 'sigma')
    ie = np.full((H, W), 1. / sig, np.float32)
    if ctx.flip(0.3, 'masked-pixels'):
        ie[rs.uniform(size=(H, W)) < 0.1] = 0.
    kw = dict(inverr=ie)
    if ctx.flip(0.2, 'invvar'):
        kw = dict(invvar=ie**2)
    im = Image(data=np.zeros((H, W), np.float32), psf=psf, wcs=wcs, sky=sky, photocal=pc, name='im%d' % i,
               time=TAITime(5e9 + ctx.pick([0., 3e7, 1.1e8], 'time')), **kw)
    im.noise = (rs.normal(size=(H, W)) * sig).astype(np.float32)
    if ctx.flip(0.2, 'minval'):
        im.modelMinval = 0.02
    return im, (k, psf), sky


def make_source(ctx, wcskind, bkind, W, H, points=False):
    from tractor.sersic import SersicIndex
    from tractor.basics import ConstantSurfaceBrightness
    k = ctx.wpick([(8, 'basic'), (1, 'sercore'), (1, 'devcore'), (1, 'moving'), (0.5, 'csb')], 'source-family')
    if points:
        return scenes.make_source(ctx, wcskind, bkind, W, H, kinds=['ptsrc'])
    if k == 'moving' and wcskind == 'null':
        k = 'basic'
    if k == 'basic':
        return scenes.make_source(ctx, wcskind, bkind, W, H)
    br = scenes.make_brightness(ctx, bkind)
    pos = scenes.make_pos(ctx, wcskind, W, H, 5.)
    if k == 'sercore':
        from tractor.sercore import SersicCoreGalaxy
        return k, SersicCoreGalaxy(pos, br, scenes.make_shape(ctx), SersicIndex(scenes.sersic_n(ctx)), scenes.make_brightness(ctx, bkind))
    if k == 'devcore':
        from tractor.devcore import DevCoreGalaxy
        return k, DevCoreGalaxy(pos, br, scenes.make_shape(ctx), scenes.make_brightness(ctx, bkind))
    if k == 'csb':
        return k, ConstantSurfaceBrightness(scenes.make_brightness(ctx, bkind, 0.5, 2.))
    from tractor.motion import MovingPointSource, PMRaDec
    from tractor.tractortime import TAITime
    return k, MovingPointSource(pos, br, PMRaDec(ctx.unif(-1e-4, 1e-4, 'pmra'), ctx.unif(-1e-4, 1e-4, 'pmdec')),
                                ctx.unif(0.05, 0.4, 'parallax'), epoch=TAITime(5e9))


class Info(object):
    pass


def special(ctx):
    sp = engines.make(ctx, kinds=['smarter', 'gpu', 'gpufriendly'], nim=(1, 2))
    tr = sp.build()
    tr.info = info = Info()
    info.opt, info.kw, info.special, info.cls = sp.kind, dict(sp.kw), True, 'plain'
    info.wcskind, info.bkind = sp.scene.wcskind, sp.scene.bkind
    info.desc = '%s on %s' % (sp.kind, ','.join(sp.scene.srckinds))
    return tr


def make(ctx, optimizers=('lsqr', 'constrained', 'dense', 'ceres'), p_special=0.15, nim=(1, 3), nsrc=(1, 3), classes=('plain', 'plain', 'cache', 'mp')):
    """Returns an engine; engine.info describes it (not part of the engine's
    pickle)."""
    from tractor import Tractor
    if p_special and ctx.flip(p_special, 'special'):
        return special(ctx)
    info = Info()
    info.special = False
    info.wcskind = ctx.pick(['null', 'cfits'], 'wcs')
    info.bkind = ctx.pick(scenes.BRIGHTS, 'bright')
    info.points = ctx.flip(0.2, 'points-only')
    ims, psfkinds, shared = [], [], None
    for i in range(ctx.between(nim[0], nim[1], 'n-images')):
        im, p, sky = make_image(ctx, i, info.wcskind, info.bkind, shared, info.points)
        shared = (p, sky)
        psfkinds.append(p[0])
        ims.append(im)
    W0 = min(im.getWidth() for im in ims)
    H0 = min(im.getHeight() for im in ims)
    srcs, srckinds = [], []
    for j in range(ctx.between(nsrc[0], nsrc[1], 'n-sources')):
        k, s = make_source(ctx, info.wcskind, info.bkind, W0, H0, info.points)
        srckinds.append(k)
        srcs.append(s)
    # two sources sharing one shape or position
    if len(srcs) > 1 and ctx.flip(0.15, 'share-shape'):
        a, b = srcs[0], srcs[1]
        if hasattr(a, 'shape') and hasattr(b, 'shape'):
            b.shape = a.shape
    info.opt = ctx.pick(list(optimizers), 'optimizer')
    info.kw = {}
    info.cls = ctx.pick(list(classes), 'engine-class')
    if info.cls == 'cache':
        # (a cache may return a more precise model than was asked for)
        for im in ims:
            im.modelMinval = 0.
    cls = dict(plain=Tractor, cache=CTractor, mp=MTractor)[info.cls]
    kw = {}
    how = ctx.pick(['frozen', 'sky', 'sky-photocal', 'some'], 'image-params')
    if how == 'frozen' and ctx.flip(0.3, 'model-kwargs') and info.cls != 'cache':
        kw['model_kwargs'] = dict(minsb=ctx.pick([0.01, 0., 0.3], 'option'))
    tr = cls(images=ims, catalog=srcs, optimizer=engines.make_optimizer(info.opt), **kw)
    mod = Tractor(ims, srcs)
    for im in ims:
        m = mod.getModelImage(im, minsb=0.)
        im.setImage((m + im.noise).astype(np.float32))
        del im.noise
    scenes.perturb(ctx, [s for s in srcs if s.numberOfParams()], 0.4)
    bounded = info.opt in ('constrained', 'dense', 'ceres')
    for s in srcs:
        for sh in engines.shape_objs(s):
            if info.opt == 'ceres' or (bounded and ctx.flip(0.7, 'bounds')):
                engines.bound_shape(sh)
            if info.opt == 'lsqr' or ctx.flip(0.5, 'prior'):
                engines.prior_shape(sh)
        for k in ('sersicindex', 'fracDev'):
            if hasattr(s, k) and ctx.flip(0.6, 'freeze-extra'):
                s.freezeParam(k)
        for k in ('pos', 'shape', 'shapeExp', 'shapeDev', 'brightness', 'pm', 'parallax'):
            if hasattr(s, k) and s.numberOfParams() and ctx.flip(0.25, 'freeze'):
                try:
                    s.freezeParam(k)
                except Exception:
                    pass
        if hasattr(s, 'pos') and ctx.flip(0.2, 'pos-prior'):
            nm = s.pos.getParamNames()
            if nm:
                s.pos.addGaussianPrior(nm[0], s.pos.getParams()[0], 0.3 if info.wcskind == 'null' else 1e-4)
        if hasattr(s, 'pos') and ctx.flip(0.2, 'pos-bounds'):
            p = s.pos.getAllParams()
            d = 2. if info.wcskind == 'null' else 2. / 3600
            s.pos.lowers = [x - d for x in p]
            s.pos.uppers = [x + d for x in p]
            if info.opt in ('constrained', 'dense'):
                s.pos.maxstep = [d / 2] * 2
    if how == 'frozen':
        tr.freezeParam('images')
    else:
        for i, im in enumerate(ims):
            im.freezeAllBut(*(['sky'] if how != 'sky-photocal' else ['sky', 'photocal']))
            if how == 'some' and ctx.flip(0.5, 'freeze-image'):
                tr.images.freezeParam(i)
            if isinstance(im.sky, type(None)):
                pass
    if len(srcs) > 1 and ctx.flip(0.2, 'freeze-source'):
        tr.catalog.freezeParam(ctx.draw(len(srcs), 'which'))
    if ctx.flip(0.25, 'masks') and info.cls != 'mp' and info.opt != 'ceres':
        set_masks(ctx, tr)
    if ctx.flip(0.1, 'modtype'):
        tr.modtype = np.float64
    info.desc = '%s engine, %s; images %s; sources %s; wcs %s; brightness %s' % (
        info.cls, info.opt, ','.join(psfkinds), ','.join(srckinds), info.wcskind, info.bkind)
    tr.info = info
    return tr


def set_masks(ctx, tr):
    from tractor.patch import ModelMask
    how = ctx.pick(['all', 'some', 'patch'], 'mask-kind')
    mm = []
    for im in tr.images:
        H, W = im.shape
        d = {}
        x0, y0 = ctx.draw(3, 'mx'), ctx.draw(3, 'my')
        for s in tr.catalog:
            if s is None or (how == 'some' and ctx.flip(0.4, 'no-mask')):
                continue
            w, h = W - 2 * x0, H - 2 * y0
            if how == 'patch':
                m = np.ones((h, w), bool)
                m[0, :] = False
                d[s] = ModelMask(x0, y0, m) if ctx.flip(0.5, 'mask-array') else ModelMask(x0, y0, w, h)
            else:
                d[s] = ModelMask(x0, y0, w, h)
        mm.append(d)
    tr.setModelMasks(mm, assumeMasks=bool(how != 'some'))


# ------------------------------------------------------------------ operations
EVALS = [(3, 'models'), (3, 'model1'), (2, 'chi'), (2, 'loglike'), (1, 'logprior'), (2, 'logprob'), (3, 'derivs'), (3, 'srcderivs'),
         (1.5, 'unitflux'), (2, 'patch'), (0.7, 'psfat'), (0.7, 'priorderivs'), (0.5, 'text'), (0.5, 'mog'),
         (0.7, 'psffft'), (0.5, 'psfshift'), (0.5, 'skyimg'), (0.7, 'subeval'), (0.7, 'copyeval'), (0.4, 'newengine'), (0.5, 'maskpsf'), (0.5, 'radiuspsf')]
CHANGES = [(4, 'perturb'), (2, 'setparams'), (2, 'freeze'), (2, 'thaw'), (1, 'sky'), (1.5, 'masks'), (1, 'pixels'), (1, 'addsrc'), (0.7, 'rmsrc'),
           (0.6, 'addimage'), (1, 'prior'), (1, 'psfparam'), (1, 'photocal'), (0.7, 'minval'), (0.7, 'newpsf'), (0.7, 'newsky'), (0.5, 'thawpsf'),
           (0.5, 'inverr'), (0.5, 'steps'), (0.7, 'copyimage'), (0.7, 'copysrc'), (0.6, 'sharepsf'), (0.6, 'shiftpsf'), (0.6, 'call'), (0.4, 'setcatalog')]
FITS = [(3, 'optimize'), (1.5, 'loop'), (1, 'forced')]
SPECIAL_CHANGES = [(4, 'perturb'), (3, 'setparams'), (1, 'pixels')]


def perform(tr, op, ctx, info):
    """One operation; draws its arguments from ctx; returns plain values."""
    ims, srcs = tr.images, tr.catalog
    if op in ('model1', 'chi1', 'patch', 'srcderivs', 'unitflux', 'psfat', 'mog', 'sky', 'pixels', 'psfparam', 'photocal', 'minval', 'newpsf', 'newsky', 'inverr',
              'psffft', 'psfshift', 'skyimg', 'subeval', 'copyeval', 'newengine', 'copyimage', 'sharepsf', 'shiftpsf', 'maskpsf', 'radiuspsf'):
        i = ctx.draw(len(ims), 'image')
        im = ims[i]
    if op in ('patch', 'srcderivs', 'unitflux', 'perturb', 'rmsrc', 'prior', 'steps', 'copysrc'):
        if len(srcs) == 0:
            return None
        j = ctx.draw(len(srcs), 'source')
        src = srcs[j]
    # -- evaluations
    if op == 'models':
        return canon(list(tr.getModelImages()))
    if op == 'model1':
        kw = {}
        if ctx.flip(0.3, 'nosky'):
            kw['sky'] = False
        m = ctx.pick([None, 0., 0.3], 'minsb')
        if m is not None and info.cls != 'cache':
            kw['minsb'] = m
        if ctx.flip(0.3, 'subset'):
            kw['srcs'] = [s for s in srcs if ctx.flip(0.5, 'in')]
        return canon(tr.getModelImage(i, **kw))
    if op == 'chi':
        return canon([tr.getChiImage(k) for k in range(len(ims))])
    if op == 'loglike':
        return canon(tr.getLogLikelihood())
    if op == 'logprior':
        return canon(tr.getLogPrior())
    if op == 'logprob':
        return canon(tr.getLogProb())
    if op == 'priorderivs':
        d = tr.getLogPriorDerivatives()
        return canon([list(np.ravel(x)) for x in d] if d is not None else None)
    if op == 'derivs':
        # derivatives of frozen-image engines keep their images' indices
        index = dict((id(m), k) for k, m in enumerate(ims))
        return canon([[(p, index.get(id(m), m.name)) for p, m in d] for d in tr.getDerivs()])
    if op == 'srcderivs':
        mm = tr._getModelMaskFor(im, src)
        return canon(src.getParamDerivatives(im, modelMask=mm) if mm is not None else src.getParamDerivatives(im))
    if op == 'unitflux':
        return canon(src.getUnitFluxModelPatches(im, minval=ctx.pick([0., 0.01], 'minval')))
    if op == 'patch':
        return canon(tr.getModelPatch(im, src))
    if op == 'psfat':
        H, W = im.shape
        x, y = ctx.unif(3., W - 4., 'x'), ctx.unif(3., H - 4., 'y')
        p = im.psf.constantPsfAt(x, y) if ctx.flip(0.5, 'constant') and hasattr(im.psf, 'constantPsfAt') else im.psf
        return canon(p.getPointSourcePatch(x, y))
    if op == 'mog':
        if not hasattr(im.psf, 'getMixtureOfGaussians'):
            return None
        m = im.psf.getMixtureOfGaussians(px=5., py=6.)
        return canon([np.array(m.amp), np.array(m.mean), np.array(m.var)])
    if op == 'text':
        return [str(tr), [str(s) for s in srcs], [str(m) for m in ims], list(tr.getParamNames())]
    if op == 'psffft':
        if not hasattr(im.psf, 'getFourierTransform'):
            return None
        H, W = im.shape
        x, y = ctx.unif(3., W - 4., 'x'), ctx.unif(3., H - 4., 'y')
        P, c, sh, vw = im.psf.getFourierTransform(x, y, ctx.pick([4, 8, 14, 5], 'radius'))
        return canon([P.real, P.imag, [float(q) for q in c], [int(q) for q in sh], list(vw)])
    if op == 'maskpsf':
        from tractor.patch import ModelMask
        H, W = im.shape
        x, y = ctx.unif(3., W - 4., 'x'), ctx.unif(3., H - 4., 'y')
        x0, y0 = ctx.draw(4, 'mx'), ctx.draw(4, 'my')
        kw = {}
        if ctx.flip(0.4, 'derivs'):
            kw['derivs'] = True
        r = im.psf.getPointSourcePatch(x, y, modelMask=ModelMask(x0, y0, W - 2 * x0, H - 2 * y0), **kw)
        return canon(list(r) if isinstance(r, tuple) else r)
    if op == 'radiuspsf':
        H, W = im.shape
        x, y = ctx.unif(3., W - 4., 'x'), ctx.unif(3., H - 4., 'y')
        return canon(im.psf.getPointSourcePatch(x, y, radius=ctx.pick([3, 5], 'radius')))
    if op == 'psfshift':
        H, W = im.shape
        x, y = ctx.unif(3., W - 4., 'x'), ctx.unif(3., H - 4., 'y')
        return canon(im.psf.getShifted(2, 3).getPointSourcePatch(x - 2, y - 3))
    if op == 'skyimg':
        a = np.zeros(im.shape)
        im.sky.addTo(a, scale=ctx.pick([1., -2.], 'scale'))
        b = np.zeros(im.shape)
        if hasattr(im.sky, 'shifted'):
            im.sky.shifted(2, 1).addTo(b)
        return canon([a, b])
    if op in ('subeval', 'copyeval', 'newengine'):
        from tractor import Tractor
        if op == 'subeval':
            H, W = im.shape
            m = im.subimage(2, W - 1, 1, H - 3)
            return canon(Tractor([m], list(srcs)).getModelImage(0))
        if op == 'copyeval':
            m = im.copy()
            return canon(Tractor([m], [q.copy() for q in srcs]).getModelImage(0))
        t = Tractor([im], list(srcs))
        return canon([t.getModelImage(0), t.getLogProb()])
    # -- changes
    if op == 'copyimage':
        m = im.copy()
        m.modelMinval = im.modelMinval
        m.liquid = list(im.liquid)
        if tr.isParamFrozen('images') or 'images' not in getattr(tr, 'namedparams', {'images': 0}):
            pass
        ims[i] = m
        return None
    if op == 'copysrc':
        if tr.modelMasks is not None:
            return None
        q = src.copy()
        q.liquid = list(src.liquid)
        srcs[j] = q
        return None
    if op == 'sharepsf':
        o = ims[ctx.draw(len(ims), 'other')]
        im.psf = o.psf.copy() if ctx.flip(0.5, 'copy') and hasattr(o.psf, 'copy') else o.psf
        return None
    if op == 'shiftpsf':
        im.psf = im.psf.getShifted(*ctx.pick([(0, 0), (1, 2)], 'shift'))
        return None
    if op == 'perturb':
        p = src.getParams()
        if len(p):
            k = ctx.draw(len(p), 'param')
            st = scenes.small_step(src, k, src.getParamNames()[k]) * ctx.pick([0.5, -0.5, 0.01, 1., 1e-3, 1e-5], 'step')
            src.setParam(k, p[k] + st)
        return None
    if op == 'setparams':
        p = np.array(tr.getParams())
        rs = np.random.RandomState(ctx.bits('params'))
        st = np.array(tr.getStepSizes())
        tr.setParams(p + st * rs.uniform(-0.5, 0.5, size=len(p)))
        return None
    if op == 'call':
        # (the way samplers evaluate an engine)
        p = np.array(tr.getParams())
        rs = np.random.RandomState(ctx.bits('params'))
        st = np.array(tr.getStepSizes())
        return canon(tr(p + st * rs.uniform(-0.5, 0.5, size=len(p))))
    if op == 'setcatalog':
        from tractor.engine import Catalog
        if len(srcs) == 0:
            return None
        c = Catalog(*list(srcs)[::-1])
        c.liquid = list(srcs.liquid)[::-1]
        tr.setCatalog(c)
        return [float(x) for x in tr.getParams()]
    if op in ('freeze', 'thaw'):
        path = ctx.wpick([(3, 'source'), (1, 'catalog'), (1, 'image'), (1, 'engine'), (1, 'leaf')], 'where')
        obj = tr
        if path == 'source':
            obj = srcs[ctx.draw(len(srcs), 'source')]
        elif path == 'catalog':
            obj = srcs
        elif path == 'image':
            obj = ims
        elif path == 'leaf':
            s = srcs[ctx.draw(len(srcs), 'source')]
            obj = ctx.pick([q for q in s.subs if hasattr(q, 'liquid')] or [s], 'leaf')
        n = len(obj.liquid)
        k = ctx.draw(n, 'which')
        if info.opt == 'ceres' and obj is tr:
            return None
        before = tr.numberOfParams()
        (obj.freezeParam if op == 'freeze' else obj.thawParam)(k)
        if tr.numberOfParams() == 0:
            obj.thawParam(k)
        return [before, tr.numberOfParams()]
    if op == 'sky':
        p = im.sky.getAllParams() if hasattr(im.sky, 'getAllParams') else im.sky.getParams()
        d = ctx.pick([0.1, 1e-3], 'step')
        if len(p):
            im.sky.setAllParams([x + d for x in p]) if hasattr(im.sky, 'setAllParams') else im.sky.setParams([x + d for x in im.sky.getParams()])
        return None
    if op == 'masks':
        if info.cls == 'mp' or info.opt == 'ceres':
            return None
        if ctx.flip(0.4, 'no-masks'):
            tr.setModelMasks(None, assumeMasks=False)
        else:
            set_masks(ctx, tr)
        return None
    if op == 'pixels':
        rs = np.random.RandomState(ctx.bits('pixels'))
        im.setImage((im.getImage() + rs.normal(size=im.shape)).astype(np.float32))
        return None
    if op == 'inverr':
        ie = im.getInvError().copy()
        ie[ctx.draw(ie.shape[0], 'row'), :] = 0.
        im.setInvError(ie) if hasattr(im, 'setInvError') else setattr(im, 'inverr', ie)
        return None
    if op == 'addsrc':
        if tr.modelMasks is not None and tr.expectModelMasks:
            return None
        H, W = ims[0].shape
        k, s = make_source(ctx, info.wcskind, info.bkind, W, H, getattr(info, 'points', False))
        for sh in engines.shape_objs(s):
            engines.prior_shape(sh)
            if info.opt in ('constrained', 'dense', 'ceres'):
                engines.bound_shape(sh)
        tr.addSource(s)
        return k
    if op == 'rmsrc':
        if len(srcs) > 1 and not any(s is src for n, s in enumerate(srcs) if n != j):
            srcs.removeParam(src) if hasattr(srcs, 'removeParam') and ctx.flip(0.3, 'removeParam') else tr.removeSource(src)
        return len(srcs)
    if op == 'addimage':
        if tr.modelMasks is not None or len(ims) > 3:
            return None
        m, p, sky = make_image(ctx, len(ims), info.wcskind, info.bkind, None, getattr(info, 'points', False))
        m.setImage(m.noise)
        del m.noise
        m.freezeAllBut('sky')
        if info.cls == 'cache':
            m.modelMinval = 0.
        tr.addImage(m)
        return None
    if op == 'prior':
        objs = [q for q in src.subs if hasattr(q, 'addGaussianPrior') and q.numberOfParams()]
        if objs:
            q = ctx.pick(objs, 'object')
            nm = q.getParamNames()
            k = ctx.draw(len(nm), 'param')
            q.addGaussianPrior(nm[k], q.getParams()[k], abs(scenes.small_step(src, src.numberOfParams(), 'x')) if False else 0.5)
        return None
    if op == 'psfparam':
        p = list(im.psf.getParams())
        if len(p):
            k = ctx.draw(len(p), 'param')
            im.psf.setParam(k, p[k] * ctx.pick([1.03, 1.0003, 1.000003], 'factor'))
        return None
    if op == 'photocal':
        p = list(im.photocal.getParams())
        if len(p):
            im.photocal.setParam(0, p[0] * ctx.pick([1.02, 1.0002], 'factor'))
        return None
    if op == 'minval':
        v = ctx.pick([0., 0.05], 'minval')
        if info.cls != 'cache':
            im.modelMinval = v
        return None
    if op == 'newpsf':
        im.psf = make_psf(ctx)[1]
        return None
    if op == 'newsky':
        from tractor import ConstantSky
        im.sky = ConstantSky(ctx.unif(-1., 1., 'level'))
        return None
    if op == 'thawpsf':
        return None
    if op == 'steps':
        for q in src.subs:
            if hasattr(q, 'setStepSizes') and hasattr(q, 'stepsizes') and hasattr(q, 'vals'):
                q.setStepSizes([x * 0.5 for x in q.stepsizes])
                break
        return None
    # -- fits
    if tr.numberOfParams() == 0:
        return None
    if op in ('optimize', 'loop'):
        kw = dict(info.kw)
        if not info.special:
            if info.opt in ('lsqr', 'constrained'):
                kw['shared_params'] = bool(ctx.flip(0.5, 'shared-params'))
                if op == 'optimize' and ctx.flip(0.3, 'variance'):
                    kw['variance'] = True
            elif info.opt == 'dense':
                kw['shared_params'] = False
            else:
                kw.update(print_progress=False, max_iterations=2, priors=bool(ctx.flip(0.5, 'priors')), bounds=True)
        if info.opt != 'ceres' and ctx.flip(0.2, 'alphas'):
            kw['alphas'] = [0.1, 0.3, 1.]
        if op == 'loop':
            if info.opt != 'ceres':
                kw['dchisq'] = 1e-3
                kw['steps'] = 3
            r = tr.optimize_loop(**kw)
        else:
            r = tr.optimize(**kw)
        return [canon(r), [float(x) for x in tr.getParams()]]
    if op == 'forced':
        return forced(tr, ctx, info)
    raise ValueError(op)


def forced(tr, ctx, info):
    """Forced photometry on a linear engine, then everything as before."""
    if info.bkind != 'nmgy' or info.special or info.opt == 'ceres':
        return None
    if any(type(m.photocal).__name__ == 'ScaledPhotoCal' for m in tr.images):
        return None
    srcs = list(tr.catalog)
    flags = scenes.liquid_state(tr)
    saved = []

    def walk(o):
        if o is None or any(o is q for q, _ in saved):
            return
        if hasattr(o, 'liquid'):
            saved.append((o, list(o.liquid)))
        for q in getattr(o, 'subs', []):
            walk(q)
    walk(tr)
    try:
        tr.freezeParamsRecursive('*')
        tr.thawParam('catalog')
        for k, s in enumerate(srcs):
            tr.catalog.thawParam(k)
            for b, nm in ((b, nm) for b in s.getBrightnesses() for nm, o in zip([s.getNamedParamName(q) for q in range(len(s.subs))], s.subs) if o is b):
                s.thawParam(nm)
                if hasattr(b, 'liquid'):
                    b.thawAllParams()
        if tr.numberOfParams() == 0:
            return None
        r = tr.optimize_forced_photometry(variance=True, shared_params=False, fitstats=bool(ctx.flip(0.5, 'fitstats')) and all(type(m.sky).__name__ == 'ConstantSky' for m in tr.images))
        out = [canon(np.array(r.IV)), [float(x) for x in tr.getParams()]]
        if getattr(r, 'fitstats', None) is not None:
            out.append(canon(dict((k, np.array(v, float)) for k, v in vars(r.fitstats).items())))
        return out
    finally:
        for o, l in saved:
            o.liquid = list(l)


def attempt(tr, op, ctx, info):
    """('ok', result) or ('exc', type name): operations may legitimately be
    refused (a model that cannot be rendered, a wrong combination)."""
    try:
        return 'ok', perform(tr, op, ctx, info)
    except (RuntimeError, AssertionError, ValueError, TypeError, AttributeError, IndexError, KeyError, np.linalg.LinAlgError, ArithmeticError) as e:
        if DEBUG:
            import traceback
            open(DEBUG, 'a').write(op + ' ' + repr([(type(s).__name__, s.liquid, [getattr(q,'liquid',None) for q in s.subs], [type(im.psf).__name__ for im in tr.images]) for s in tr.catalog]) + traceback.format_exc() + '\n')
        return 'exc', type(e).__name__, str(e)[:200]


# ------------------------------------------------------------------ state
def describe(o, depth=0, seen=None):
    """Plain description of a component: class, values, flags, limits, priors."""
    if o is None:
        return None
    d = [type(o).__name__]
    if hasattr(o, 'liquid'):
        d.append(tuple(bool(b) for b in o.liquid))
    if hasattr(o, 'subs'):
        d.append([describe(q) for q in o.subs])
        try:
            d.append(sorted(o.getNamedParams().items()) if not hasattr(o, '_numberOfThings') or len(o.subs) < 30 else None)
        except Exception:
            pass
    elif hasattr(o, 'getAllParams'):
        d.append([float(x) for x in o.getAllParams()])
    for k in ('lowers', 'uppers', 'maxstep', 'stepsizes', 'lower', 'upper', 'stepsize', 'band', 'order', 'epoch', 'x0', 'y0', 'dx', 'dy', 'pixscale', 'radius',
              'sampling', 'Lorder', 'factor', 'fwhm', 'modelMinval', 'name', 'zr'):
        if k in getattr(o, '__dict__', {}):
            v = o.__dict__[k]
            if v is None or isinstance(v, (int, float, str, bool, np.floating)):
                d.append((k, v))
            elif isinstance(v, (list, tuple)):
                d.append((k, [None if x is None else (float(x) if not isinstance(x, str) else x) for x in v]))
            elif hasattr(v, 'getParams'):
                d.append((k, describe(v)))
    gp = getattr(o, 'gpriors', None)
    if gp is not None:
        d.append(('gpriors', repr([getattr(gp, 'terms', None)])))
    if hasattr(o, 'getLogPrior') and not hasattr(o, 'subs'):
        d.append(('logprior', float(o.getLogPrior())))
    return d


def state(tr):
    ims, srcs = tr.images, tr.catalog
    d = dict(images=describe(ims), sources=describe(srcs), params=[float(x) for x in tr.getParams()], names=list(tr.getParamNames()),
             steps=[float(x) for x in tr.getStepSizes()], lower=tr.getLowerBounds(), upper=tr.getUpperBounds(), maxstep=tr.getMaxStep(),
             modtype=str(np.dtype(tr.modtype)), expect=bool(tr.expectModelMasks), opt=type(tr.optimizer).__name__, cls=type(tr).__name__,
             kw=sorted(tr.model_kwargs.items()),
             pix=[scenes.arr_digest(m.getImage()) for m in ims], ie=[scenes.arr_digest(m.getInvError()) for m in ims],
             time=[float(m.time.getValue()) if m.time is not None else None for m in ims])
    # which components are shared
    objs = []
    for m in ims:
        objs += list(m.subs)
    for s in srcs:
        objs += list(s.subs) if s is not None else []
    first = {}
    d['sharing'] = [first.setdefault(id(o), k) for k, o in enumerate(objs)]
    mm = tr.modelMasks
    if mm is None:
        d['masks'] = None
    else:
        where = dict((id(s), k) for k, s in enumerate(srcs))
        d['masks'] = [sorted((where.get(id(s), -1), tuple(m.extent), None if m.mask is None else scenes.arr_digest(m.mask)) for s, m in row.items()) for row in mm]
    return d


def diff(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            out.append('%s: %s -> %s' % (k, short(a[k]), short(b.get(k))))
    return '\n'.join(out)
