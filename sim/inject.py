"""Fault points on the public duck types an engine is built from.

`hook(obj, names, inj)` gives one object (a PSF, WCS, calibration, sky, source,
...) a subclass of its own class in which each named method reports to the
injector before (and after) running the real one.  The injector counts these
calls; a first fault-free pass learns how many there are, then a fault is placed
at a chosen one.  Nothing in the code under test is replaced.
"""
from sim.core import InjectedFault, InjectedInterrupt


class Injector(object):
    def __init__(self):
        self.n = 0
        self.at = None          # raise at this call number
        self.what = None        # callable(name) -> exception to raise
        self.filters = {}       # method name -> f(result) applied while armed
        self.fired = 0
        self.active = False
        self.last = None
        self.when = 'before'
        self.names = []

    def reset(self):
        self.n, self.at, self.what, self.fired, self.last = 0, None, None, 0, None
        self.filters = {}
        self.names = []

    def start(self, at=None, what=None, when='before'):
        self.reset()
        self.at, self.what, self.when = at, what, when
        self.active = True

    def stop(self):
        self.active = False
        return self.n

    def before(self, name):
        if not self.active:
            return False
        k = self.n
        self.n += 1
        if self.at is None:
            self.names.append(name)
        if self.at is not None and k == self.at and not self.fired:
            if self.when == 'before':
                self.fired += 1
                self.last = name
                raise self.what(name)
            return True
        return False

    def after(self, name, pending, res):
        if not self.active:
            return res
        if pending:
            self.fired += 1
            self.last = name
            raise self.what(name)
        f = self.filters.get(name)
        if f is not None:
            res = f(res)
        return res


def _wrap(cls, name, inj):
    def method(self, *args, **kwargs):
        p = inj.before(name)
        return inj.after(name, p, getattr(super(sub, self), name)(*args, **kwargs))
    method.__name__ = name
    sub = None

    def bind(s):
        nonlocal sub
        sub = s
    return method, bind


def hook(obj, names, inj):
    cls = type(obj)
    d, binds = {}, []
    for n in names:
        if callable(getattr(cls, n, None)):
            m, b = _wrap(cls, n, inj)
            d[n] = m
            binds.append(b)
    d['__module__'] = cls.__module__
    d['__qualname__'] = cls.__qualname__
    sub = type(cls.__name__, (cls,), d)
    for b in binds:
        b(sub)
    object.__setattr__(obj, '__class__', sub)
    return obj


PSF = ['getPointSourcePatch', 'getMixtureOfGaussians', 'getFourierTransform', 'getRadius']
WCS = ['positionToPixel', 'cdInverseAtPixel', 'cdAtPixel', 'pixscale_at', 'pixel_scale']
PHOTOCAL = ['brightnessToCounts']
SKY = ['addTo', 'getParamDerivatives']
SOURCE = ['getModelPatch', 'getUnitFluxModelPatches', 'getParamDerivatives', 'getLogPrior', 'getLogPriorDerivatives', 'getPosition', 'getBrightness']
SHAPE = ['getRaDecBasis']
SETTER = ['setParams', 'setParam']


def hook_engine(tr, inj, what=('psf', 'wcs', 'photocal', 'sky', 'source', 'shape')):
    for im in tr.images:
        if 'psf' in what:
            hook(im.psf, PSF, inj)
        if 'wcs' in what:
            hook(im.wcs, WCS, inj)
        if 'photocal' in what:
            hook(im.photocal, PHOTOCAL, inj)
        if 'sky' in what:
            hook(im.sky, SKY, inj)
    for s in tr.catalog:
        if s is None:
            continue
        if 'source' in what:
            hook(s, SOURCE, inj)
        if 'shape' in what:
            for k in ('shape', 'shapeExp', 'shapeDev'):
                o = getattr(s, k, None)
                if o is not None:
                    hook(o, SHAPE + (SETTER if 'setter' in what else []), inj)
        if 'setter' in what:
            for k in ('pos', 'brightness'):
                o = getattr(s, k, None)
                if o is not None:
                    hook(o, SETTER, inj)
    return inj


def choose_point(ctx, names):
    """A fault point: any, one of a randomly chosen kind of call, or among the
    last ones."""
    n = len(names)
    sol = [i for i, x in enumerate(names) if x in ('solver', 'ceres')]
    if sol and ctx.flip(0.15, 'at-solver'):
        return ctx.pick(sol, 'fault-point')
    mode = ctx.pick(['uniform', 'by-name', 'last'], 'point-mode')
    if mode == 'uniform':
        return ctx.draw(n, 'fault-point')
    if mode == 'last':
        return n - 1 - ctx.draw(min(n, 8), 'fault-point')
    k = ctx.pick(sorted(set(names)), 'point-name')
    return ctx.pick([i for i, x in enumerate(names) if x == k], 'fault-point')


class solvers(object):
    """Puts the linear solvers (scipy's sparse lsqr, numpy's dense lstsq, the
    compiled Ceres entry points) behind the injector."""

    def __init__(self, inj):
        self.inj = inj
        self.undo = []

    def wrap(self, mod, name, key='solver'):
        f = getattr(mod, name, None)
        if f is None:
            return
        inj = self.inj

        def g(*a, **k):
            p = inj.before(key)
            return inj.after(key, p, f(*a, **k))
        setattr(mod, name, g)
        self.undo.append((mod, name, f))

    def __enter__(self):
        import numpy.linalg
        import scipy.sparse.linalg
        import tractor.dense_optimizer as d
        import tractor.smarter_dense_optimizer as s
        import tractor.lsqr_optimizer as l
        import tractor.gpu_optimizer as g
        for m in (d, s, l, g):
            for n in ('lstsq', 'lsqr'):
                if n in m.__dict__:
                    self.wrap(m, n)
        self.wrap(scipy.sparse.linalg, 'lsqr')
        self.wrap(numpy.linalg, 'lstsq')
        try:
            import tractor.ceres as c
            self.wrap(c, 'ceres_opt', 'ceres')
            self.wrap(c, 'ceres_forced_phot', 'ceres')
        except ImportError:
            pass
        return self

    def __exit__(self, *a):
        for m, n, f in reversed(self.undo):
            setattr(m, n, f)
        self.undo = []


class tracing(object):
    """Counts executed lines of the model code (rendering, sources, PSFs,
    calibration) and raises at the k-th: an interrupt at an arbitrary point of
    a model evaluation."""
    FILES = ('galaxy.py', 'pointsource.py', 'basics.py', 'psf.py', 'patch.py', 'mixture_profiles.py', 'sersic.py',
             'brightness.py', 'ellipses.py', 'wcs.py', 'sky.py', 'shifted.py', 'splinesky.py', 'imageutils.py')

    def __init__(self, inj, root):
        import os
        self.inj = inj
        self.files = set(os.path.join(root, 'tractor', f) for f in self.FILES)

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.inj.before('%s' % (frame.f_code.co_name,))
        return self.local

    def __enter__(self):
        import sys
        sys.settrace(self.glob)

    def __exit__(self, *a):
        import sys
        sys.settrace(None)


EXCS = {
    'exception': lambda n: InjectedFault('at ' + n),
    'interrupt': lambda n: InjectedInterrupt('at ' + n),
    'memory': lambda n: MemoryError('injected at ' + n),
    'assertion': lambda n: AssertionError('injected at ' + n),
    'value': lambda n: ValueError('injected at ' + n),
    'zerodivide': lambda n: ZeroDivisionError('injected at ' + n),
    'systemexit': lambda n: InjectedExit('injected at ' + n),
}


class InjectedExit(SystemExit):
    pass
