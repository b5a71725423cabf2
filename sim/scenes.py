"""Random but decision-driven scenes (images + catalog) built from the real
tractor classes, through their public constructors."""
import numpy as np


def preload():
    import tractor
    import tractor.galaxy
    import tractor.sersic
    import tractor.psfex
    import tractor.splinesky
    import tractor.motion
    import tractor.constrained_optimizer
    import tractor.dense_optimizer
    import tractor.smarter_dense_optimizer
    import tractor.gpu_optimizer
    import tractor.cache
    import tractor.multiproc
    import scipy.sparse.linalg
    import astrometry.util.util
    import astrometry.util.multiproc
    return tractor


def gauss_stamp(half, sigma, e=0.1, wing=0.1):
    x = np.arange(-half, half + 1)
    xx, yy = np.meshgrid(x, x)
    s = np.exp(-0.5 * (xx**2 * (1 + e) + yy**2 * (1 - e) + 0.2 * e * xx * yy) / sigma**2)
    s += wing * np.exp(-0.5 * (xx**2 + yy**2) / (2.2 * sigma)**2)
    return (s / s.sum()).astype(np.float32)


PSFS = ['ncirc', 'pix', 'mog', 'hybrid', 'mogell', 'normpix']


def make_psf(ctx, kinds=None):
    from tractor import (NCircularGaussianPSF, GaussianMixturePSF, PixelizedPSF,
                         HybridPixelizedPSF, GaussianMixtureEllipsePSF)
    from tractor.ellipses import EllipseESoft
    from tractor.psf import NormalizedPixelizedPsf
    k = ctx.pick(kinds or PSFS, 'psf')
    s = ctx.unif(1.0, 2.0, 'psf-sigma')
    if k == 'ncirc':
        if ctx.flip(0.5, 'psf-2comp'):
            return k, NCircularGaussianPSF([s, 2 * s], [0.8, 0.2])
        return k, NCircularGaussianPSF([s], [1.])
    if k == 'mog':
        w = np.array([0.7, 0.3])
        mu = np.zeros((2, 2))
        mu[1] = [0.1, -0.05]
        var = np.zeros((2, 2, 2))
        var[0] = [[s**2, 0.1], [0.1, 1.1 * s**2]]
        var[1] = [[4 * s**2, 0.], [0., 4 * s**2]]
        p = GaussianMixturePSF(w, mu, var)
        p.radius = 12
        return k, p
    if k == 'mogell':
        p = GaussianMixtureEllipsePSF(np.array([0.7, 0.3]), np.zeros((2, 2)),
                                      [EllipseESoft(np.log(s), 0.05, 0.), EllipseESoft(np.log(2 * s), 0., 0.1)])
        p.radius = 12
        return k, p
    half = ctx.pick([6, 7, 9], 'psf-half')
    st = gauss_stamp(half, s)
    if k == 'pix':
        return k, PixelizedPSF(st)
    if k == 'normpix':
        return k, NormalizedPixelizedPsf(st * 1.7)
    w = np.array([0.9, 0.1])
    var = np.zeros((2, 2, 2))
    var[0] = np.eye(2) * s**2
    var[1] = np.eye(2) * (2.2 * s)**2
    return k, HybridPixelizedPSF(PixelizedPSF(st), gauss=GaussianMixturePSF(w, np.zeros((2, 2)), var))


def make_wcs(ctx, W, H, kind, i=0):
    from tractor import NullWCS, ConstantFitsWcs
    from tractor.wcs import TanWcs
    if kind == 'null':
        if i and ctx.flip(0.5, 'wcs-offset'):
            return NullWCS(pixscale=1., dx=float(ctx.draw(3, 'dx')), dy=float(ctx.draw(3, 'dy')))
        return NullWCS()
    from astrometry.util.util import Tan
    ps = 1. / 3600.
    rot = np.deg2rad(ctx.pick([0, 10, 45, 200], 'wcs-rot'))
    c, s = np.cos(rot) * ps, np.sin(rot) * ps
    par = 1. if not ctx.flip(0.3, 'wcs-parity') else -1.
    tan = Tan(150., 2.2, W / 2. + 0.5, H / 2. + 0.5, -par * c, s, par * s, c, float(W), float(H))
    if kind == 'tan':
        return TanWcs(tan)
    return ConstantFitsWcs(tan)


def make_pos(ctx, wcskind, W, H, margin=4.):
    from tractor import PixPos, RaDecPos
    m = margin
    x = ctx.unif(m, W - 1 - m, 'pos-x')
    y = ctx.unif(m, H - 1 - m, 'pos-y')
    if wcskind == 'null':
        return PixPos(x, y)
    dx = (x - W / 2.) / 3600.
    dy = (y - H / 2.) / 3600.
    return RaDecPos(150. + dx, 2.2 + dy)


BRIGHTS = ['flux', 'nmgy', 'nmgy2', 'mags']


def make_brightness(ctx, kind, lo=50., hi=300.):
    from tractor import Flux, NanoMaggies, Mags
    f = ctx.unif(lo, hi, 'flux')
    if kind == 'flux':
        return Flux(f)
    if kind == 'nmgy':
        return NanoMaggies(r=f)
    if kind == 'nmgy2':
        return NanoMaggies(g=f * 0.7, r=f, order=['g', 'r'])
    return Mags(r=25. - 2.5 * np.log10(f))


def make_photocal(ctx, kind, i):
    from tractor import NullPhotoCal, LinearPhotoCal, MagsPhotoCal, Flux
    if kind == 'flux':
        return NullPhotoCal()
    if kind == 'nmgy':
        return LinearPhotoCal(ctx.pick([1., 0.5, 2.], 'pc-scale'), band='r')
    if kind == 'nmgy2':
        return LinearPhotoCal(ctx.pick([1., 0.5, 2.], 'pc-scale'), band='gr'[i % 2])
    return MagsPhotoCal('r', 25.)


SOURCES = ['ptsrc', 'exp', 'dev', 'gauss', 'fixcomp', 'comp', 'sersic']


def make_shape(ctx):
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor import GalaxyShape
    k = ctx.pick(['gshape', 'ee', 'esoft'], 'shape')
    r = ctx.unif(1.5, 3., 'shape-r')
    if k == 'gshape':
        return GalaxyShape(r, ctx.unif(0.5, 0.95, 'ab'), ctx.unif(5., 85., 'phi'))
    if k == 'ee':
        return EllipseE(r, ctx.unif(-0.3, 0.3, 'e1'), ctx.unif(-0.3, 0.3, 'e2'))
    return EllipseESoft(np.log(r), ctx.unif(-0.3, 0.3, 'e1'), ctx.unif(-0.3, 0.3, 'e2'))


def sersic_n(ctx):
    """Mostly ordinary indices; sometimes where the profile changes its number
    of components, or near the upper limit."""
    lo, hi = ctx.wpick([(6, (1., 3.)), (1, (0.36, 0.6)), (1, (0.7, 1.02)), (1, (3., 6.)), (0.5, (6.285, 6.299))], 'sersic-range')
    return ctx.unif(lo, hi, 'sersic-n')


def make_source(ctx, wcskind, bkind, W, H, kinds=None, margin=4.):
    from tractor import (PointSource, ExpGalaxy, DevGalaxy, FixedCompositeGalaxy,
                         CompositeGalaxy, SoftenedFracDev)
    from tractor.galaxy import GaussianGalaxy
    from tractor.sersic import SersicGalaxy, SersicIndex
    k = ctx.pick(kinds or SOURCES, 'source')
    pos = make_pos(ctx, wcskind, W, H, margin)
    br = make_brightness(ctx, bkind)
    if k == 'ptsrc':
        return k, PointSource(pos, br)
    sh = make_shape(ctx)
    if k == 'exp':
        return k, ExpGalaxy(pos, br, sh)
    if k == 'dev':
        return k, DevGalaxy(pos, br, sh)
    if k == 'gauss':
        return k, GaussianGalaxy(pos, br, sh)
    if k == 'sersic':
        return k, SersicGalaxy(pos, br, sh, SersicIndex(sersic_n(ctx)))
    sh2 = make_shape(ctx)
    if k == 'fixcomp':
        from tractor.galaxy import FracDev
        return k, FixedCompositeGalaxy(pos, br, SoftenedFracDev(ctx.unif(0.2, 0.8, 'fracdev')), sh, sh2)
    return k, CompositeGalaxy(pos, br, sh, make_brightness(ctx, bkind), sh2)


class Scene(object):
    """images, sources plus how they were made."""
    pass


def make_scene(ctx, nim=(1, 3), nsrc=(1, 3), psfs=None, sources=None, wcs=None,
               brights=None, size=(16, 26), sky=('const', 'null'), noise=True, minsize=None, margin=4.):
    """Returns Scene with .images .sources (real objects, true params) and
    data = true model + noise."""
    from tractor import Image, ConstantSky, Tractor
    from tractor.sky import NullSky
    sc = Scene()
    n_im = ctx.between(nim[0], nim[1], 'n-images')
    n_src = ctx.between(nsrc[0], nsrc[1], 'n-sources')
    sc.wcskind = ctx.pick(wcs or ['null', 'cfits'], 'wcs')
    sc.bkind = ctx.pick(brights or BRIGHTS, 'bright')
    sc.psfkinds, sc.srckinds = [], []
    rs = np.random.RandomState(ctx.bits('pixel-noise'))
    ims = []
    W0 = H0 = None
    for i in range(n_im):
        W = ctx.between(size[0], size[1], 'W')
        H = ctx.between(size[0], size[1], 'H')
        if W0 is None:
            W0, H0 = W, H
        else:
            W, H = max(W, W0 - 3), max(H, H0 - 3)
        k, psf = make_psf(ctx, psfs)
        sc.psfkinds.append(k)
        w = make_wcs(ctx, W, H, sc.wcskind, i)
        skyk = ctx.pick(sky, 'sky')
        if skyk == 'const':
            s = ConstantSky(ctx.unif(-1., 3., 'sky-level'))
        elif skyk == 'zero':
            s = ConstantSky(0.)
        elif skyk == 'spline':
            s = make_splinesky(ctx, W, H)
        else:
            s = NullSky()
        sig = ctx.pick([1., 0.5, 2.], 'sigma')
        ie = np.full((H, W), 1. / sig, np.float32)
        if ctx.flip(0.3, 'masked-pixels'):
            m = rs.uniform(size=(H, W)) < 0.1
            ie[m] = 0.
        im = Image(data=np.zeros((H, W), np.float32), inverr=ie, psf=psf, wcs=w, sky=s,
                   photocal=make_photocal(ctx, sc.bkind, i), name='im%d' % i)
        im.sig = sig
        ims.append(im)
    srcs = []
    W0 = min(im.getWidth() for im in ims)
    H0 = min(im.getHeight() for im in ims)
    for j in range(n_src):
        k, s = make_source(ctx, sc.wcskind, sc.bkind, W0, H0, sources, margin)
        sc.srckinds.append(k)
        srcs.append(s)
    # true model + noise
    tr = Tractor(ims, srcs)
    for im in ims:
        mod = tr.getModelImage(im)
        n = rs.normal(size=mod.shape) * im.sig if noise else 0.
        im.setImage((mod + n).astype(np.float32))
    sc.images, sc.sources = ims, srcs
    ctx.log('scene: %d images (%s), %d sources (%s), wcs %s, brightness %s' % (
        n_im, ','.join(sc.psfkinds), n_src, ','.join(sc.srckinds), sc.wcskind, sc.bkind))
    return sc


def make_splinesky(ctx, W, H):
    from tractor.splinesky import SplineSky
    X = np.linspace(0, W, 5)
    Y = np.linspace(0, H, 5)
    rs = np.random.RandomState(ctx.bits('splinesky'))
    return SplineSky(X, Y, rs.normal(size=(5, 5)))


def perturb(ctx, sources, scale=0.3):
    """Move the sources off their true values (deterministically) so that there
    is something to optimise."""
    rs = np.random.RandomState(ctx.bits('perturb'))
    for s in sources:
        p = np.array(s.getParams(), float)
        ss = np.array([small_step(s, i, n) for i, n in enumerate(s.getParamNames())])
        s.setParams(list(p + scale * ss * rs.uniform(-1, 1, size=len(p))))


def small_step(s, i, name):
    n = name.lower()
    if n.startswith('pos.r') or n.startswith('pos.d'):
        return 1. / 3600.
    if n.startswith('pos'):
        return 1.
    if 'bright' in n:
        v = abs(s.getParams()[i])
        return 0.2 * v if v > 40 else 0.2
    if n.endswith('phi'):
        return 10.
    if n.endswith('.re') or n.endswith('.r'):
        return 0.4
    return 0.1


def canvas(patch, shape, dtype=float):
    out = np.zeros(shape, dtype)
    if patch is not None and patch.patch is not None:
        q = patch.copy()
        q.patch = q.patch.astype(dtype)
        q.addTo(out)
    return out


def level(a, b):
    """Both arrays with the places where they agree exactly (infinities and
    NaNs included) set to zero, so that differences can be taken."""
    with np.errstate(invalid='ignore'):
        eq = ~np.isfinite(b) & ((a == b) | (np.isnan(a) & np.isnan(b)))
    if np.any(eq):
        a, b = np.where(eq, 0., a), np.where(eq, 0., b)
    return a, b


def arr_digest(a):
    import hashlib
    a = np.ascontiguousarray(a)
    return hashlib.blake2b(a.tobytes() + str((a.shape, a.dtype.str)).encode(), digest_size=8).hexdigest()


def liquid_state(x):
    """Frozen/thawed flags of a whole parameter tree."""
    out = []
    if hasattr(x, 'liquid'):
        out.append(tuple(bool(b) for b in x.liquid))
    if hasattr(x, 'subs'):
        for s in x.subs:
            if s is not None:
                out.append(liquid_state(s))
    return tuple(out)


def snapshot(tr):
    """Everything an operation must leave alone, as plain values."""
    d = dict(params=[float(p) for p in tr.getParams()],
             allparams=[float(p) for p in tr.getAllParams()],
             liquid=liquid_state(tr),
             images=[id(im) for im in tr.images], sources=[id(s) for s in tr.catalog],
             pix=[arr_digest(im.getImage()) for im in tr.images],
             ie=[arr_digest(im.getInvError()) for im in tr.images],
             imtype=type(tr.images).__name__)
    return d


def rel(a, b):
    a, b = float(a), float(b)
    if a == b:
        return 0.
    return abs(a - b) / max(abs(a), abs(b), 1e-300)
