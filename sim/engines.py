"""Engines for the optimizer properties: a random scene, an optimizer that can
handle it, and any number of identical twins (made by pickling the images and
sources before anything is hooked)."""
import pickle
import numpy as np

from sim import scenes

OPTS = ['lsqr', 'constrained', 'dense', 'smarter', 'gpufriendly', 'gpu', 'ceres']


def make_optimizer(kind, cp=None):
    if kind == 'lsqr':
        from tractor.lsqr_optimizer import LsqrOptimizer
        return LsqrOptimizer()
    if kind == 'constrained':
        from tractor.constrained_optimizer import ConstrainedOptimizer
        return ConstrainedOptimizer()
    if kind == 'dense':
        from tractor.dense_optimizer import ConstrainedDenseOptimizer
        return ConstrainedDenseOptimizer()
    if kind == 'smarter':
        from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
        return SmarterDenseOptimizer()
    if kind == 'gpufriendly':
        from tractor.gpu_optimizer import GpuFriendlyOptimizer
        return GpuFriendlyOptimizer()
    if kind == 'gpu':
        from tractor.gpu_optimizer import GpuOptimizer
        return GpuOptimizer(cp or 'numpy')
    if kind == 'ceres':
        from tractor.ceres_optimizer import CeresOptimizer
        return CeresOptimizer()
    raise ValueError(kind)


class Spec(object):
    """Recipe from which equal engines can be assembled."""

    def __init__(self, kind, images, sources):
        self.kind = kind
        self.blob = None
        self.images, self.sources = images, sources
        self.image_params = 'frozen'    # 'frozen' | 'sky'
        self.frozen_images = []
        self.frozen_sources = []
        self.masks = None               # per image: list of (x0,y0,w,h) or None per source
        self.assume = True
        self.kw = {}                    # options of optimize()
        self.cached = False             # gpu: cache image params

    def seal(self):
        self.blob = pickle.dumps((self.images, self.sources))
        self.images = self.sources = None
        return self

    def build(self, cp=None, cls=None):
        from tractor import Tractor
        ims, srcs = pickle.loads(self.blob)
        opt = make_optimizer(self.kind, cp)
        tr = (cls or Tractor)(ims, srcs, optimizer=opt)
        if self.image_params == 'frozen':
            tr.freezeParam('images')
        else:
            for i in self.frozen_images:
                tr.images.freezeParam(i)
        for j in self.frozen_sources:
            tr.catalog.freezeParam(j)
        self.set_masks(tr)
        return tr

    def set_masks(self, tr):
        from tractor.patch import ModelMask
        if self.masks is None:
            return
        mm = []
        for row in self.masks:
            d = {}
            for j, m in enumerate(row):
                if m is not None:
                    d[tr.catalog[j]] = ModelMask(*m)
            mm.append(d)
        tr.setModelMasks(mm, assumeMasks=self.assume)


def shape_objs(src):
    return [o for o in (getattr(src, k, None) for k in ('shape', 'shapeExp', 'shapeDev')) if o is not None]


def bound_shape(sh, r=0.6):
    """Keeps a shape near where it is (bounded optimizers only)."""
    v = list(sh.getAllParams())
    n = type(sh).__name__
    if n == 'GalaxyShape':
        d, m = [0.8, 0.2, 40.], [0.5, 0.1, 20.]
        sh.lowers = [max(0.3, v[0] - d[0]), max(0.1, v[1] - d[1]), None]
        sh.uppers = [v[0] + d[0], min(1., v[1] + d[1]), None]
    elif n == 'EllipseE':
        sh.lowers = [max(0.3, v[0] - r), -0.6, -0.6]
        sh.uppers = [v[0] + r, 0.6, 0.6]
        return
    else:
        sh.lowers = [v[0] - 0.4, -0.8, -0.8]
        sh.uppers = [v[0] + 0.4, 0.8, 0.8]
        m = [0.3, 0.2, 0.2]
    sh.maxstep = m


def prior_shape(sh, frac=0.5):
    """A Gaussian prior on each shape parameter."""
    for nm, x in zip(sh.getParamNames(), sh.getParams()):
        sig = {'r': 0.2, 're': 0.2, 'phi': 8.}.get(nm, 0.05)
        sh.addGaussianPrior(nm, x, sig * frac)


def make(ctx, kinds=OPTS, linear=False, nim=(1, 3), nsrc=(1, 3), thaw_shape=0.4, masks=0.3, priors=0.4,
         flux_prior=0.2, image_params=0.3, perturb=0.4, image_all=0., gpu=None):
    gpukw = gpu or {}
    kind = ctx.pick(kinds, 'optimizer')
    gpu = kind in ('gpu', 'gpufriendly')
    kwargs = {}
    if gpu:
        kwargs = dict(nsrc=(1, 1), psfs=['hybrid'], sources=['ptsrc', 'exp', 'dev', 'gauss'], wcs=['cfits'],
                      brights=['nmgy', 'nmgy2'], sky=('zero',), size=(26, 32), margin=9.)
        kwargs.update(gpukw)
    elif linear:
        kwargs = dict(nsrc=nsrc, brights=['nmgy', 'nmgy2'], sky=('const',))
    else:
        kwargs = dict(nsrc=nsrc)
    if kind == 'smarter':
        # (a galaxy leaving its mask is an error with a plain pixelized PSF)
        kwargs['psfs'] = ['ncirc', 'mog', 'hybrid', 'mogell']
    sc = scenes.make_scene(ctx, nim=nim, **kwargs)
    plain_pix = any(k in ('pix', 'normpix') for k in sc.psfkinds)
    sp = Spec(kind, sc.images, sc.sources)
    sp.scene = sc
    if perturb:
        scenes.perturb(ctx, sc.sources, perturb)
    # shapes: frozen, or kept in place by bounds or priors
    bounded = kind in ('constrained', 'dense', 'smarter', 'gpu', 'gpufriendly', 'ceres')
    sp.thawed_shapes = False
    for s in sc.sources:
        shs = shape_objs(s)
        extra = [k for k in ('sersicindex', 'fracDev') if hasattr(s, k)]
        thaw = bool(shs) and ctx.flip(thaw_shape, 'thaw-shape')
        if not thaw:
            for k in ('shape', 'shapeExp', 'shapeDev'):
                if hasattr(s, k) and not gpu:
                    s.freezeParam(k)
            if gpu and shs:
                # the batched optimizer derives all shape parameters
                for sh in shs:
                    bound_shape(sh)
                sp.thawed_shapes = True
        else:
            sp.thawed_shapes = True
            for sh in shs:
                if bounded:
                    bound_shape(sh)
                if not bounded or ctx.flip(priors, 'shape-prior'):
                    prior_shape(sh)
        for k in extra:
            s.freezeParam(k)
        if ctx.flip(0.15, 'freeze-pos') and not gpu:
            s.freezeParam('pos')
        if ctx.flip(flux_prior, 'flux-prior') and sc.bkind in ('flux', 'nmgy') and not gpu:
            b = s.getBrightnesses()[0]
            if hasattr(b, 'addGaussianPrior'):
                b.addGaussianPrior(b.getParamNames()[0], b.getParams()[0], 20.)
                ctx.probe('flux-prior')
    if len(sc.sources) > 1 and ctx.flip(0.25, 'freeze-source'):
        sp.frozen_sources = [ctx.draw(len(sc.sources), 'which')]
    if not gpu and kind != 'smarter' and ctx.flip(image_params, 'image-params'):
        sp.image_params = 'sky'
        for i, im in enumerate(sc.images):
            im.freezeAllBut('sky')
            if len(sc.images) > 1 and ctx.flip(0.2, 'freeze-image'):
                sp.frozen_images.append(i)
    elif not gpu and kind not in ('smarter', 'ceres') and image_all and ctx.flip(image_all, 'image-all'):
        # parameters whose derivatives the engine takes by stepping the image
        sp.image_params = 'all'
        for i, im in enumerate(sc.images):
            im.freezeAllBut('sky')
            if im.psf.numberOfParams() <= 12:
                im.thawParam('psf')
            if ctx.flip(0.5, 'thaw-photocal'):
                im.thawParam('photocal')
    if gpu or kind == 'smarter' or (kind != 'ceres' and not plain_pix and ctx.flip(masks, 'masks')):
        # one extent per image and source, covering most of the image
        sp.masks = []
        for im in sc.images:
            H, W = im.shape
            m = (ctx.draw(3, 'mx'), ctx.draw(3, 'my'))
            sp.masks.append([(m[0], m[1], W - 2 * m[0], H - 2 * m[1]) for s in sc.sources])
    if kind in ('dense', 'smarter', 'gpufriendly', 'gpu'):
        sp.kw = dict(shared_params=False)
        if ctx.flip(0.2, 'no-scaling') and kind == 'dense':
            sp.kw['scale_columns'] = False
    elif kind == 'ceres':
        sp.kw = dict(print_progress=False)
        if ctx.flip(0.3, 'numeric'):
            sp.kw['numeric'] = True
        if ctx.flip(0.3, 'static-scale'):
            sp.kw['dynamic_scale'] = False
        if ctx.flip(0.3, 'gpriors'):
            sp.kw['priors'] = True
        if ctx.flip(0.3, 'variance'):
            sp.kw['variance'] = True
        if sp.thawed_shapes or ctx.flip(0.2, 'bounds'):
            # (a free shape may become arbitrarily large)
            sp.kw['bounds'] = True
        sp.kw['max_iterations'] = ctx.pick([3, 1, 8], 'max-iter')
    else:
        sp.kw = dict(shared_params=bool(ctx.flip(0.6, 'shared-params')))
        if ctx.flip(0.2, 'variance'):
            sp.kw['variance'] = True
        if ctx.flip(0.15, 'no-scaling'):
            sp.kw['scale_columns'] = False
            sp.kw.pop('variance', None)
        if ctx.flip(0.15, 'damp'):
            sp.kw['damp'] = 0.1
        if ctx.flip(0.15, 'no-priors'):
            sp.kw['priors'] = False
    sp.cached = (kind == 'gpu') and ctx.flip(0.4, 'cache-image-params')
    return sp.seal()


def loop_kw(sp):
    kw = dict(sp.kw)
    kw.pop('variance', None)
    if sp.kind == 'ceres':
        return kw
    kw['dchisq'] = 1e-4
    return kw


def state(tr):
    d = scenes.snapshot(tr)
    d['modelMasks'] = (id(tr.modelMasks), [sorted((id(k), tuple(v.extent)) for k, v in m.items()) for m in tr.modelMasks]
                       if tr.modelMasks is not None else None)
    d['geterr'] = tuple(sorted(np.geterr().items()))
    opt = tr.optimizer
    if hasattr(opt, 'image_params'):
        d['image_params'] = id(opt.image_params)
    d['minval'] = [getattr(im, 'modelMinval', None) for im in tr.images]
    return d
