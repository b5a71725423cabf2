"""C16: the batched (GPU-style) optimizer takes the step of the reference dense
least squares, reusing per-image quantities changes nothing, and a device that
fails at any call leaves the engine as it was and usable."""
import pickle
import numpy as np

from sim import scenes, engines

TIERS = dict(quick=dict(runs=1800, wall=260), thorough=dict(runs=40000, wall=3000))
RULE = ('one evaluation = one simulated run: a random single-source scene and a history of update/step/loop/render/cache operations on a '
        'simulated device that fails at seeded calls; distinct_nontrivial counts runs with distinct operation/fault digests in which a device fault fired '
        'or cached image quantities were used away from where they were computed')
COMPONENTS = dict(real=['batched optimizer (GpuOptimizer), reference optimizer (SmarterDenseOptimizer), engine, sources, hybrid PSFs, WCS, calibration, priors'],
                  stub=['the device: an array module over numpy whose calls (allocation, transfer, FFT, elementwise kernels, solve) can fail'])


def preload():
    scenes.preload()


class DeviceOOM(MemoryError):
    pass


class DeviceError(RuntimeError):
    pass


class DevArray(np.ndarray):
    """Array in device memory: every elementwise operation is a device call."""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        dev = None
        for x in inputs:
            if isinstance(x, DevArray):
                dev = dev or getattr(x, 'dev', None)
        if dev is not None:
            dev.call(ufunc.__name__)
        ins = [x.view(np.ndarray) if isinstance(x, DevArray) else x for x in inputs]
        out = kw.pop('out', None)
        if out is not None:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, DevArray) else o for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and len(out) == 1:
            return out[0]
        if dev is None:
            return r
        return dev.wrap(r)

    def __array_finalize__(self, obj):
        self.dev = getattr(obj, 'dev', None)


class Sub(object):
    def __init__(self, dev, mod):
        self.__dict__.update(_dev=dev, _mod=mod)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k == 'get':
            return self._dev.get
        v = getattr(self._mod, k)
        if type(v).__name__ == 'module':
            return Sub(self._dev, v)
        if isinstance(v, type) or not callable(v):
            return v
        dev = self._dev

        def fn(*a, **kw):
            return dev.run(k, v, a, kw)
        return fn


class Device(object):
    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.solve = None       # 'linalg' | 'nan' | 'inf'
        self.only = None        # 'get' | None
        self.fired = None
        self.module = Sub(self, np)

    def arm(self, at=None, exc=None, solve=None, only=None):
        self.n, self.at, self.exc, self.solve, self.only, self.fired = 0, at, exc, solve, only, None

    def disarm(self):
        self.arm()

    def call(self, name):
        if self.only is not None and name != self.only:
            return
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.at = None
            self.fired = name
            raise self.exc

    def wrap(self, r):
        if isinstance(r, tuple):
            return tuple(self.wrap(x) for x in r)
        if isinstance(r, np.ndarray) and r.dtype != object:
            r = r.view(DevArray)
            r.dev = self
        return r

    def run(self, name, f, a, kw):
        self.call(name)
        un = lambda x: (x.view(np.ndarray) if isinstance(x, DevArray) else [un(y) for y in x] if isinstance(x, list) else x)
        a = [un(x) for x in a]
        kw = dict((k, un(v)) for k, v in kw.items())
        if name == 'lstsq' and self.solve is not None:
            s, self.solve = self.solve, None
            self.fired = 'lstsq:' + s
            if s == 'linalg':
                raise np.linalg.LinAlgError('injected: SVD did not converge in Linear Least Squares')
            r = f(*a, **kw)
            X = np.array(r[0])
            X[len(X) // 2] = np.nan if s == 'nan' else np.inf
            return self.wrap((X,) + tuple(r[1:]))
        return self.wrap(f(*a, **kw))

    def get(self, x):
        self.call('get')
        if isinstance(x, DevArray):
            x = x.view(np.ndarray)
        return np.array(x)


# ---- scene: one source, or one source and a constant surface brightness, or only the latter

def consistent_psf(ctx):
    """Hybrid PSF whose pixels and mixture describe the same function (so that
    it does not matter which of the two a rendering method prefers)."""
    from tractor import HybridPixelizedPSF, PixelizedPSF, GaussianMixturePSF
    s = ctx.unif(1.1, 1.7, 'psf-sigma')
    e = ctx.unif(-0.15, 0.15, 'psf-e')
    w = np.array([0.8, 0.2])
    var = np.zeros((2, 2, 2))
    var[0] = [[s**2 * (1 + e), 0.3 * e], [0.3 * e, s**2 * (1 - e)]]
    var[1] = np.eye(2) * (1.7 * s)**2
    half = ctx.pick([13, 14, 16], 'psf-half')
    x = np.arange(-half, half + 1)
    xx, yy = np.meshgrid(x, x)
    st = 0.
    for a, v in zip(w, var):
        iv = np.linalg.inv(v)
        st = st + a / (2 * np.pi * np.sqrt(np.linalg.det(v))) * np.exp(-0.5 * (iv[0, 0] * xx**2 + 2 * iv[0, 1] * xx * yy + iv[1, 1] * yy**2))
    return HybridPixelizedPSF(PixelizedPSF(st.astype(np.float32)), gauss=GaussianMixturePSF(w, np.zeros((2, 2)), var))


def rescale(im, src, f):
    """Changes the pixel scale of an image, leaving the source where it is."""
    from tractor import ConstantFitsWcs, Tractor
    from astrometry.util.util import Tan
    if f == 1.:
        return
    t = Tractor([im], [src])
    old = t.getModelImage(im)
    w = im.wcs.wcs
    pos = src.getPosition()
    x, y = im.wcs.positionToPixel(pos, src)
    t1 = Tan(w.crval[0], w.crval[1], w.crpix[0], w.crpix[1], *([f * c for c in w.cd] + [float(w.imagew), float(w.imageh)]))
    ok, x1, y1 = t1.radec2pixelxy(pos.ra, pos.dec)
    t1 = Tan(w.crval[0], w.crval[1], w.crpix[0] + x + 1 - x1, w.crpix[1] + y + 1 - y1,
             *([f * c for c in w.cd] + [float(w.imagew), float(w.imageh)]))
    im.wcs = ConstantFitsWcs(t1)
    im.setImage(im.getImage() + Tractor([im], [src]).getModelImage(im) - old)


def make(ctx):
    from tractor import NanoMaggies
    from tractor.basics import ConstantSurfaceBrightness
    kinds = ['ptsrc', 'exp', 'dev', 'gauss']
    gpu = dict(sources=kinds + ['sersic'])
    if ctx.flip(0.25, 'large-images'):
        # (masks so much larger than the padding that cached quantities cannot follow the source everywhere)
        gpu.update(size=(44, 52), margin=17.)
    sp = engines.make(ctx, kinds=['gpu'], nim=(1, 3), gpu=gpu)
    ims, srcs = pickle.loads(sp.blob)
    src = srcs[0]
    if len(ims) > 1 and ctx.flip(0.3, 'pixel-scales'):
        for im in ims[1:]:
            rescale(im, src, ctx.pick([1., 0.6, 0.75, 1.2], 'scale'))
    sp.skip = []
    sp.prior_band = None
    if hasattr(src, 'sersicindex'):
        n = src.sersicindex
        n.setValue(min(max(n.getValue(), n.lower + 0.05), n.upper - 0.05))
    if hasattr(src, 'sersicindex') and ctx.flip(0.5, 'free-index'):
        src.thawParam('sersicindex')
    if ctx.flip(0.2, 'flux-prior'):
        b = src.getBrightness()
        band = ctx.pick(list(b.order), 'band')
        b.addGaussianPrior(band, getattr(b, band) * ctx.unif(0.8, 1.2, 'mu'), 5.)
        sp.prior_band = band
    sp.name = type(src).__name__
    for im in ims:
        im.psf = consistent_psf(ctx)
    if ctx.flip(0.25, 'surface-brightness'):
        bands = src.getBrightness().getParamNames()
        if hasattr(src.getBrightness(), 'order'):
            bands = list(src.getBrightness().order)
        sb = ConstantSurfaceBrightness(NanoMaggies(order=bands, **dict((b, ctx.unif(0., 0.4, 'sb')) for b in bands)))
        if ctx.flip(0.3, 'only-sb'):
            srcs = [None, sb]
            sp.name = 'SB'
        else:
            srcs = [src, sb]
            sp.name += '+SB'
    if srcs[0] is not None and ctx.flip(0.12, 'freeze-pos'):
        srcs[0].freezeParam('pos')
    if len(ims) > 1 and ctx.flip(0.15, 'dead-image'):
        k = ctx.draw(len(ims), 'which')
        ims[k].setInvvar(np.zeros_like(ims[k].getInvError()))
        ctx.probe('image-without-weight')
    nomask = None
    if len(ims) > 1 and ctx.flip(0.2, 'unmasked-image'):
        nomask = ctx.draw(len(ims), 'which')
        ctx.probe('image-without-mask')
    if sp.prior_band is not None and sp.prior_band not in [im.getPhotoCal().band for i, im in enumerate(ims) if i != nomask]:
        # a band without data is left alone, prior or not
        sp.skip.append('brightness.' + sp.prior_band)
    sp.masks = [[None if (i == nomask or s is None) else tuple(row[0]) for s in srcs] for i, row in enumerate(sp.masks)]
    sp.blob = pickle.dumps((ims, srcs))
    sp.dev = 'Dev' in sp.name or 'Sersic' in sp.name
    return sp


# ---- reference: dense least squares on the models the reference code renders

def reference(sp, tr, pad=3, priors=True):
    from tractor.patch import ModelMask
    n = tr.numberOfParams()
    keep = tr.modelMasks
    big = []
    for row in sp.masks:
        d = {}
        for j, m in enumerate(row):
            if m is not None:
                x0, y0, w, h = m
                d[tr.catalog[j]] = ModelMask(x0 - pad, y0 - pad, w + 2 * pad, h + 2 * pad)
        big.append(d)
    tr.setModelMasks(big)
    try:
        A, B = [], []
        D = tr.getDerivs()
        for k, im in enumerate(tr.images):
            ms = [m for m in sp.masks[k] if m is not None]
            if not ms:
                continue
            x0, y0, w, h = ms[0]
            cols = np.zeros(tuple(im.shape) + (n,))
            ie = im.getInvError()
            for j, dl in enumerate(D):
                for d, dim in dl:
                    if dim is im and d is not None:
                        q = np.zeros(im.shape, np.float32)
                        d.addTo(q)
                        cols[:, :, j] = q * ie
            A.append(cols[y0:y0 + h, x0:x0 + w].reshape(-1, n))
            B.append(((im.getImage() - tr.getModelImage(im)) * ie)[y0:y0 + h, x0:x0 + w].ravel())
        if not A:
            return None
        A, B = np.vstack(A), np.hstack(B)
        pv = tr.getLogPriorDerivatives() if priors else None
        if pv is not None:
            rA, cA, vA, pb, mub = pv
            N = max(1 + max(r) for r in rA)
            PA, PB = np.zeros((N, n)), np.zeros(N)
            skip = [j for j, nm in enumerate(tr.getParamNames()) if any(nm.endswith(k) for k in sp.skip)]
            for ri, ci, vi, bi in zip(rA, cA, vA, pb):
                if ci in skip:
                    continue
                for a, b, c in zip(ri, vi, bi):
                    PA[a, ci] = b
                    PB[a] += c
            A, B = np.vstack([A, PA]), np.hstack([B, PB])
    finally:
        tr.modelMasks = keep
    s = np.sqrt((A**2).sum(0))
    I = s > 0
    X = np.zeros(n)
    cond = 1.
    if I.any():
        An = A[:, I] / s[I]
        sv = np.linalg.svd(An, compute_uv=False)
        cond = sv[0] / max(sv[-1], 1e-300)
        X[I] = np.linalg.lstsq(An, B, rcond=None)[0] / s[I]
    return X, A, cond


SIZE = dict(phi=30., ab=0.3, re=0.5, e1=0.3, e2=0.3, logre=0.3, ee1=0.3, ee2=0.3)


def degenerate(tr, A):
    """Is there a shape parameter (the angle of a round galaxy) that hardly
    changes the model, so that its derivative is rounding noise?"""
    if tr.catalog[0] is None:
        return False
    for im in tr.images:
        x, y = im.getWcs().positionToPixel(tr.catalog[0].getPosition(), tr.catalog[0])
        if not (0 <= x <= im.shape[1] and 0 <= y <= im.shape[0]):
            return True
    src = tr.catalog[0]
    if hasattr(src, 'sersicindex') and src.isParamThawed('sersicindex'):
        # where the number of Gaussians changes, either side may be differenced
        n, k = src.sersicindex.getValue(), set()
        for d in (-0.011, 0., 0.011):
            src.sersicindex.setValue(n + d)
            k.add(len(src.getProfile().amp))
        src.sersicindex.setValue(n)
        if len(k) > 1:
            return True
    m = 0.
    for im in tr.images:
        p = tr.getModelPatch(im, tr.catalog[0])
        if p is not None:
            q = np.zeros(im.shape, np.float32)
            p.addTo(q)
            m += np.sum((q * im.getInvError())**2)
    m = np.sqrt(m)
    if m < 1.:
        # faint or off the images: nothing but rounding noise to fit
        return True
    s = np.sqrt((A**2).sum(0))
    for j, nm in enumerate(tr.getParamNames()):
        nm = nm.split('.')[-1]
        if nm in SIZE and s[j] * SIZE[nm] < 0.02 * m:
            return True
    return False


def norm(A, X):
    return float(np.linalg.norm(A @ np.asarray(X, float)))


def content(ip):
    if ip is None:
        return None
    return dict((k, (v.shape, v.tobytes()) if isinstance(v, np.ndarray) else repr(v)) for k, v in sorted(ip.__dict__.items()) if k != 'psf_mogs')


def run(ctx):
    ctx.swarm(['device-out-of-memory', 'device-error', 'transfer-error', 'solve-failure', 'interrupt'], p=0.6)
    sp = make(ctx)
    dev = Device()
    tr = sp.build(cp=dev.module)          # under test
    twin = sp.build()                     # same optimizer, perfect device, nothing reused
    ref = None
    sp.kind = 'gpufriendly'
    ref = sp.build()                      # reference optimizer
    sp.kind = 'gpu'
    opt = tr.optimizer
    ctx.probe('source:' + sp.name)
    kw = dict(sp.kw)
    if ctx.flip(0.15, 'no-priors'):
        kw['priors'] = False
    if ctx.flip(0.3, 'alphas'):
        kw['alphas'] = [0.1, 0.3, 1.0]
    rtol = 0.1 if sp.dev else 2e-2
    home = None                            # parameters at which image quantities were cached
    faulted = 0
    nops = ctx.between(3, 8, 'nops')
    for iop in range(nops + 1):
        last = iop == nops
        op = ctx.wpick([(3, 'update'), (4, 'step'), (1, 'loop'), (2, 'models'), (2, 'cache'), (1, 'clear'), (2, 'move'), (2, 'jump'), (1, 'try')], 'op')
        if last:
            op = 'step'
        if sp.name == 'SB' and op in ('models', 'move', 'jump'):
            op = 'update'
        p0 = np.array(tr.getParams(), float)
        if op in ('move', 'jump'):
            if tr.catalog[0].isParamFrozen('pos'):
                continue
            r = 1. if op == 'move' else 16.
            p = p0.copy()
            p[0] += ctx.unif(-r, r, 'dra') / 3600.
            p[1] += ctx.unif(-r, r, 'ddec') / 3600.
            H, W = tr.images[0].shape
            tr.setParams(p)
            ok = True
            for im in tr.images:
                x, y = im.getWcs().positionToPixel(tr.catalog[0].getPosition())
                ok = ok and (4 < x < im.shape[1] - 5) and (4 < y < im.shape[0] - 5)
            if not ok:
                tr.setParams(p0)
            ctx.op(op, 'accepted' if ok else 'back')
            continue
        if op == 'clear':
            opt.clear_cached_image_params()
            home = None
            ctx.op('clear')
            continue
        # arm a device fault?
        fault = None
        if not last:
            if op in ('update', 'step', 'loop', 'models', 'try', 'cache'):
                if ctx.fault('device-out-of-memory', 0.25):
                    fault = ('oom', DeviceOOM('injected: out of device memory'), None)
                elif ctx.fault('device-error', 0.12):
                    fault = ('err', DeviceError('injected: cudaErrorLaunchFailure'), None)
                elif ctx.fault('transfer-error', 0.12):
                    fault = ('get', DeviceError('injected: transfer failed'), 'get')
                elif ctx.fault('interrupt', 0.08):
                    fault = ('int', KeyboardInterrupt(), None)
                elif op in ('update', 'step') and ctx.fault('solve-failure', 0.25):
                    fault = ('solve', None, None)
        if fault is None:
            dev.disarm()
        elif fault[0] == 'solve':
            dev.arm(solve=ctx.pick(['linalg', 'nan', 'inf'], 'solve'))
        else:
            n = 6 if fault[2] == 'get' else {'cache': 60, 'models': 250}.get(op, 700)
            dev.arm(at=1 + ctx.draw(n, 'at'), exc=fault[1], only=fault[2])
        ip0 = opt.image_params
        ipc0 = content(ip0)
        st0 = engines.state(tr)
        rec = None
        exc = None
        cached = ip0 is not None
        if cached and home is not None and np.any(home != p0):
            ctx.probe('nontrivial')
            ctx.probe('reused-elsewhere')
        Xtry = None
        if op == 'try':
            twin.setParams(p0)
            Xtry = twin.optimizer.getLinearUpdateDirection(twin, **kw)
            if Xtry is None:
                continue
        try:
            res = do(op, tr, kw, Xtry)
        except (DeviceOOM, DeviceError, KeyboardInterrupt) as e:
            exc = e
        fired = dev.fired
        dev.disarm()
        ctx.op(op, 'cached' if cached else 'plain', 'fault=%s@%s' % (fault and fault[0], fired))
        if exc is not None:
            ctx.check(fault is not None and exc is fault[1], 'foreign-exception', lambda: repr(exc))
        if fired and fault[0] != 'solve':
            faulted += 1
            ctx.probe('nontrivial')
            ctx.check(exc is not None, 'device-fault-swallowed', lambda: '%s: fault %s at %s did not reach the caller; result %r' % (op, fault[0], fired, res))
            if op == 'loop':
                # the last completed step stays
                st = engines.state(tr)
                drop = lambda s: dict((k, v) for k, v in s.items() if k not in ('params', 'values', 'image_params'))
            else:
                st = engines.state(tr)
                drop = lambda s: s
            if op == 'loop':
                ctx.check(np.all(np.isfinite(tr.getParams())), 'non-finite-after-fault', '')
                ref.setParams(p0)
                l0 = ref.getLogProb()
                ref.setParams(tr.getParams())
                l1 = ref.getLogProb()
                ctx.check(l1 >= l0 - tol_lnp(sp, l1 - l0), 'worse-after-fault', lambda: 'loop: lnp %r -> %r' % (l0, l1))
            else:
                for k in st0:
                    if op == 'cache' and k == 'image_params':
                        continue
                    ctx.check(_same(st0[k], st[k]), 'changed-by-failed-operation',
                              lambda: '%s with %s at %s: %s was %s now %s' % (op, fault[0], fired, k, str(st0[k])[:300], str(st[k])[:300]))
            ctx.check(opt.image_params is ip0, 'image-quantities-after-fault', lambda: '%s: cached image quantities replaced by a failed operation' % op)
            ctx.check(content(opt.image_params) == ipc0, 'image-quantities-after-fault', lambda: '%s: cached image quantities altered by a failed operation' % op)
            continue
        ctx.check(exc is None, 'unexpected-exception', lambda: repr(exc))
        if op == 'cache':
            if ip0 is None and opt.image_params is not None:
                home = p0
                ctx.probe('cached')
            continue
        ctx.check(opt.image_params is ip0 and content(opt.image_params) == ipc0, 'image-quantities-altered',
                  lambda: '%s altered the cached image quantities' % op)
        if fired:       # solve failure: no step
            faulted += 1
            ctx.probe('nontrivial')
            p1 = np.array(tr.getParams(), float)
            ctx.check(np.array_equal(p0, p1), 'moved-after-solve-failure', lambda: '%s: %s -> %s' % (op, p0, p1))
            if op == 'update':
                ctx.check(res is None, 'update-from-failed-solve', lambda: repr(res))
            else:
                ctx.check(res[0] == 0., 'improvement-from-failed-solve', lambda: repr(res))
            continue
        compare(ctx, sp, op, tr, twin, ref, p0, res, kw, rtol, Xtry, cached)
        ctx.state(op, cached, sp.name)
    ctx.check(opt.image_params is None or home is not None, 'stray-cache', '')


def _same(a, b):
    try:
        return bool(np.all(a == b)) if isinstance(a, np.ndarray) else a == b
    except Exception:
        return repr(a) == repr(b)


def do(op, tr, kw, Xtry):
    opt = tr.optimizer
    if op == 'update':
        return opt.getLinearUpdateDirection(tr, **kw)
    if op == 'step':
        return tr.optimize(**kw)
    if op == 'try':
        k = dict((a, b) for a, b in kw.items() if a == 'alphas')
        return opt.tryUpdates(tr, Xtry, **k)
    if op == 'loop':
        return tr.optimize_loop(dchisq=1e-2, steps=6, **kw)
    if op == 'models':
        return opt.gpu_one_source_models(tr)
    if op == 'cache':
        return opt.cache_image_params(tr)


def tol_lnp(sp, d):
    d = abs(d) if np.isfinite(d) else 0.
    return (0.5 + 0.05 * d) if sp.dev else (0.1 + 0.03 * d)


def compare(ctx, sp, op, tr, twin, ref, p0, res, kw, rtol, Xtry, cached):
    p1 = np.array(tr.getParams(), float)
    if op in ('update', 'models'):
        ctx.check(np.array_equal(p0, p1), 'evaluation-moved-parameters', lambda: '%s: %s -> %s' % (op, p0, p1))
    twin.setParams(p0)
    ref.setParams(p0)
    if op == 'models':
        t = twin.optimizer.gpu_one_source_models(twin)
        ctx.check((res is None) == (t is None), 'models', 'present/absent')
        if res is None:
            return
        good = [k for k in range(len(ref.images)) if sp.masks[k][0] is not None]
        ctx.check(len(res) == len(good), 'models', lambda: '%d patches for %d images' % (len(res), len(good)))
        for k, a, b in zip(good, res, t):
            im = ref.images[k]
            x0, y0, w, h = sp.masks[k][0]
            r = ref.getModelPatch(im, ref.catalog[0])
            R = np.zeros(im.shape, np.float32)
            if r is not None:
                r.addTo(R)
            pk = max(np.abs(R).max(), 1e-6)
            G = np.zeros(im.shape, np.float32)
            a.addTo(G)
            T = np.zeros(im.shape, np.float32)
            b.addTo(T)
            tol = 3e-2 if sp.dev else 3e-3
            e1 = np.abs(G - T).max() / pk
            e2 = np.abs(G - R).max() / pk
            ctx.check(e1 <= tol, 'model-with-reused-quantities', lambda: 'image %d differs by %g of the peak' % (k, e1))
            ctx.check(e2 <= tol, 'model-vs-reference', lambda: 'image %d differs by %g of the peak' % (k, e2))
        return
    R = reference(sp, ref, priors=kw.get('priors', True))
    if op == 'update' or op == 'step':
        X = res if op == 'update' else res[1]
        Xt = twin.optimizer.getLinearUpdateDirection(twin, **kw)
        ctx.check((X is None) == (Xt is None), 'update-with-reused-quantities', lambda: '%r vs %r' % (X, Xt))
        if X is not None and R is not None and degenerate(ref, R[1]):
            ctx.probe('degenerate-shape')
            ctx.check(np.all(np.isfinite(X)), 'update-not-finite', lambda: repr(X))
        elif X is not None and R is not None:
            Xr, A, cond = R
            X = np.asarray(X, float)
            ctx.check(len(X) == len(Xr), 'update-length', lambda: '%d vs %d' % (len(X), len(Xr)))
            n = norm(A, Xr)
            # (single-precision solve: error grows with the conditioning)
            tol = rtol * (n + 0.3) + 3e-6 * cond * (n + 1.)
            e1, e2 = norm(A, X - Xt), norm(A, X - Xr)
            ctx.check(np.all(np.isfinite(X)), 'update-not-finite', lambda: repr(X))
            ctx.check(e1 <= tol, 'update-with-reused-quantities', lambda: 'update %s, without reuse %s (difference %g sigma of %g)' % (X, Xt, e1, n))
            ctx.check(e2 <= tol, 'update-vs-reference', lambda: 'update %s, reference %s (difference %g sigma of %g, cond %g)' % (X, Xr, e2, n, cond))
            loose = X[np.sqrt((A**2).sum(0)) == 0]
            ctx.check(np.all(loose == 0), 'unconstrained-parameter-moved', lambda: repr(X))
            ctx.probe('update-compared')
        elif X is not None:
            ctx.check(False, 'update-without-data', lambda: repr(X))
    # line search
    if op in ('step', 'try', 'loop'):
        ref.setParams(p0)
        l0 = ref.getLogProb()
        ref.setParams(p1)
        l1 = ref.getLogProb()
        if op == 'loop':
            ctx.check(l1 >= l0 - tol_lnp(sp, l1 - l0), 'loop-worse', lambda: '%r -> %r' % (l0, l1))
            return
        if op == 'step':
            dlnp, X, alpha = res[:3]
        else:
            dlnp, alpha = res
            X = Xtry
        dlnp = float(dlnp)
        d = l1 - l0
        ctx.check(abs(d - dlnp) <= tol_lnp(sp, dlnp), 'reported-improvement', lambda: '%s: reported %g, reference code finds %g' % (op, dlnp, d))
        twin.setParams(p0)
        tw = do(op, twin, kw, Xtry)
        dt = float(tw[0])
        ctx.check(abs(dt - dlnp) <= 3 * tol_lnp(sp, dlnp), 'step-with-reused-quantities', lambda: '%s: improvement %g, without reuse %g' % (op, dlnp, dt))
        # the reference line search along the same direction
        if X is not None:
            ref.setParams(p0)
            k = dict((a, b) for a, b in kw.items() if a == 'alphas')
            dr, ar = ref.optimizer.tryUpdates(ref, np.asarray(X), **k)
            ref.setParams(p0)
            if abs(float(ar) - float(alpha)) < 1e-9:
                ctx.check(abs(dr - dlnp) <= 3 * tol_lnp(sp, dlnp), 'line-search-vs-reference', lambda: '%s: alpha %g: %g vs reference %g' % (op, alpha, dlnp, dr))
            else:
                ctx.probe('line-search-other-alpha')
                ctx.check(dlnp >= dr - 0.3 - 3 * tol_lnp(sp, dr), 'line-search-vs-reference', lambda: '%s: alpha %g gives %g; reference alpha %g gives %g' % (op, alpha, dlnp, ar, dr))
        if dlnp == 0:
            ctx.check(np.array_equal(p0, p1), 'moved-without-improvement', lambda: '%s -> %s' % (p0, p1))
        ctx.probe('step-compared')
