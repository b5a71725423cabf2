"""C13: what was saved reads back identically or not at all.

A history of saves and loads of PSF models, sky models and images on a simulated
disk that fills up at a chosen byte, on which the writer crashes at a chosen byte,
or which loses the tail of a file.  A small model says what each file may hold."""
import os
import pickle
import resource
import shutil
import signal
import tempfile

import numpy as np

from sim import rich, scenes
from sim.core import Ctx
from sim.nodes import _send, _recv

TIERS = dict(quick=dict(runs=2500, wall=260), thorough=dict(runs=100000, wall=3000))
RULE = ('one evaluation = one simulated run: a history of 2..7 saves, overwrites, loads and in-memory changes of PSF models, sky models and images with disk-full, crash and '
        'truncation faults at seeded byte offsets, checked against the set of contents each file may have; distinct_nontrivial counts runs with distinct '
        '(object kind, operation, fault offset) digests in which a fault happened or a file was read back')
COMPONENTS = dict(real=['tractor saving and loading code (psfex, sky, splinesky, image, header conversion)', 'astrometry fits_table, fitsio/CFITSIO, kernel file I/O in a scratch directory'],
                  stub=['disk capacity and crash points: a file-size limit at a seeded byte makes the write fail (full disk) or kills the writing process (crash)'])
COMPONENTS['real'].append('the writing process (forked, killed for crashes)')


def preload():
    rich.preload()
    import fitsio                                   # noqa: F401
    import astrometry.util.fits                     # noqa: F401
    import tractor.psfex                            # noqa: F401
    import tractor.splinesky                        # noqa: F401


# ------------------------------------------------------------------ kinds
class PsfEx(object):
    tight = True

    def make(self, ctx):
        m = rich.make_psfexmodel(ctx, sampling=ctx.pick([1., 0.75, 0.5], 'sampling'))
        d = ctx.pick([None, 3], 'degree3')
        if d:
            m.degree = d
            rs = np.random.RandomState(ctx.bits('bases'))
            m.psfbases = rs.normal(size=((d + 1) * (d + 2) // 2, 9, 9)).astype(np.float32)
            m.radius = 5.
        m.x0, m.y0 = ctx.unif(-500., 2000., 'x0'), ctx.unif(1., 5000., 'y0')
        m.xscale, m.yscale = ctx.unif(100., 2000., 'xs'), ctx.unif(100., 5000., 'ys')
        if ctx.flip(0.15, 'mosaic'):
            m.x0, m.y0 = m.x0 + 71234.5, m.y0 - 40000.
        if ctx.flip(0.2, 'fwhm'):
            m.fwhm = ctx.unif(1., 9., 'fwhm')
        if ctx.flip(0.1, 'faint'):
            m.psfbases = m.psfbases * np.float32(1e-6)
        # (as read from a file)
        m.radius = (m.psfbases.shape[1] + 1) / 2.
        return m

    def change(self, ctx, m):
        how = ctx.pick(['shift', 'bases', 'scale'], 'change')
        if how == 'shift':
            m.shift(ctx.unif(-50., 50., 'dx'), ctx.unif(-50., 50., 'dy'))
        elif how == 'bases':
            m.psfbases = m.psfbases * np.float32(1.25)
        else:
            m.xscale *= 1.5
        return m

    def save(self, m, fn, opt):
        m.writeto(fn)

    def load(self, fn, opt):
        from tractor.psfex import PsfExModel, PixelizedPsfEx, NormalizedPixelizedPsfEx
        if opt == 1:
            return PixelizedPsfEx(fn).psfex
        if opt == 2:
            return NormalizedPixelizedPsfEx(fn).psfex
        if opt == 3:
            return self.row(fn)
        return PsfExModel(fn)

    def row(self, fn):
        """Through the merged-table form (one row per image)."""
        from astrometry.util.fits import fits_table
        from tractor.psfex import PsfExModel
        T = fits_table(fn)
        h = T.get_header()
        for k in ('polzero1', 'polzero2', 'polscal1', 'polscal2', 'poldeg1', 'psf_samp', 'psfaxis3', 'polgrp1', 'polgrp2', 'polngrp', 'psf_fwhm'):
            T.set(k, np.array([h[k.upper()]]))
        for k in ('polname1', 'polname2'):
            T.set(k, np.array([h[k.upper()]]))
        return PsfExModel(Ti=T[0])

    def values(self, m):
        from tractor.psfex import PixelizedPsfEx
        out = [m.degree, float(m.sampling), float(m.fwhm), float(m.radius), list(m.psfbases.shape)]
        for x, y in ((0., 0.), (100., 37.), (-20., 512.), (1999., 4001.), (m.x0 + 5., m.y0 - 3.)):
            out.append(np.array(m.at(x, y), float))
            out.append(np.array(m.polynomials(x, y)))
        p = PixelizedPsfEx(None, psfex=m).getPointSourcePatch(50.3, 40.8)
        out.append(np.array(p.patch, float))
        # (kept in double precision)
        out.append([np.array(m.polynomials(x, y)) for x, y in ((0., 0.), (100., 37.), (m.x0 + 5., m.y0 - 3.))] + [float(m.sampling), float(m.fwhm)])
        return out


class Spline(object):
    def make(self, ctx):
        from tractor.splinesky import SplineSky
        order = ctx.pick([3, 1, 2], 'order')
        nx, ny = ctx.between(order + 1, 8, 'nx'), ctx.between(order + 1, 7, 'ny')
        rs = np.random.RandomState(ctx.bits('grid'))
        off = ctx.pick([0, -7, 3], 'grid-offset')
        x, y = np.arange(nx) * ctx.pick([10, 7, 128, 9999], 'step') + off, np.arange(ny) * ctx.pick([9, 12000], 'ystep') - off
        if ctx.flip(0.3, 'float-grid'):
            x, y = x.astype(float), y.astype(float)
        s = SplineSky(x, y, rs.normal(size=(ny, nx)) * ctx.pick([10., 10., 1e-6, 1e7], 'amplitude'), order=order)
        if ctx.flip(0.4, 'shift'):
            s.shift(ctx.between(-3, 30, 'sx'), ctx.between(-3, 30, 'sy'))
        if ctx.flip(0.15, 'mosaic'):
            s.shift(ctx.pick([0, 40000, 70001, -33000], 'bigx'), ctx.pick([0, 50000, -200], 'bigy'))
        return s

    def change(self, ctx, s):
        how = ctx.pick(['offset', 'scale', 'shift', 'param', 'params', 'copy'], 'change')
        if how == 'offset':
            s.offset(ctx.unif(-5., 5., 'off'))
        elif how == 'scale':
            s.scale(1.5)
        elif how == 'shift':
            s.shift(ctx.between(0, 9, 'sx'), ctx.between(0, 9, 'sy'))
        elif how == 'param':
            k = ctx.draw(s.numberOfParams(), 'param')
            s.setParam(k, 3.)
        elif how == 'params':
            s.setParams(np.array(s.getParams()) * 0.5)
        else:
            s = s.copy()
        return s

    def save(self, s, fn, opt):
        import fitsio
        if opt % 2:
            h = fitsio.FITSHDR()
            h.add_record(dict(name='EXPNUM', value=17))
            s.write_fits(fn, hdr=h, primhdr=fitsio.FITSHDR())
        else:
            s.write_fits(fn)

    def load(self, fn, opt):
        import fitsio
        from tractor.utils import get_class_from_name
        h = fitsio.read_header(fn, ext=opt % 2)
        return get_class_from_name(h['SKY'].strip()).from_fits(fn, h)

    def values(self, s):
        a = np.zeros((30, 40))
        s.addTo(a)
        b = np.zeros((10, 12))
        s.shifted(3, 4).addTo(b, scale=2.)
        # and in the middle of its grid, wherever that is
        c = np.zeros((9, 8))
        s.shifted(int(np.mean(s.xgrid)) - int(s.x0), int(np.mean(s.ygrid)) - int(s.y0)).addTo(c)
        # (one array: the precision is that of the largest grid value)
        v = np.concatenate([x.ravel() for x in (a, b, c, s.get_grid())])
        return [int(s.order), int(s.x0), int(s.y0), v, int(s.numberOfParams())]


class Const(object):
    tight = True

    def make(self, ctx):
        from tractor import ConstantSky
        return ConstantSky(ctx.pick([0., ctx.unif(-1e3, 1e3, 'v'), 1.2345678e-7, -3.5e12], 'level'))

    def change(self, ctx, s):
        how = ctx.pick(['set', 'subtract', 'scale'], 'change')
        if how == 'set':
            s.setParams([ctx.unif(-10., 10., 'v')])
        elif how == 'subtract':
            s.subtract(2.5)
        else:
            s.scale(3.)
        return s

    def save(self, s, fn, opt):
        s.write_fits(fn)

    def load(self, fn, opt):
        import fitsio
        from tractor.utils import get_class_from_name
        h = fitsio.read_header(fn)
        return get_class_from_name(h['SKY'].strip()).fromFitsHeader(h, prefix='SKY_')

    def values(self, s):
        return [float(s.getConstant()), np.array(s.getParams(), float)]


class SkyTable(object):
    """Several sky models in one table."""
    tight = True

    def make(self, ctx):
        from tractor import ConstantSky
        n = ctx.between(1, 4, 'rows')
        if ctx.flip(0.4, 'constant-rows'):
            return [ConstantSky(ctx.unif(-5., 5., 'v')) for _ in range(n)]
        from tractor.splinesky import SplineSky
        rs = np.random.RandomState(ctx.bits('grid'))
        out = []
        for _ in range(n):
            s = SplineSky(np.arange(5) * 10, np.arange(6) * 8, rs.normal(size=(6, 5)), order=ctx.pick([3, 2], 'order'))
            s.shift(ctx.draw(5, 'sx'), 0)
            out.append(s)
        return out

    def change(self, ctx, ss):
        s = ss[ctx.draw(len(ss), 'row')]
        s.scale(2.)
        if len(ss) > 1 and ctx.flip(0.3, 'reorder'):
            ss = ss[::-1]
        return ss

    def save(self, ss, fn, opt):
        from astrometry.util.fits import merge_tables
        merge_tables([s.to_fits_table() for s in ss]).writeto(fn)

    def load(self, fn, opt):
        from astrometry.util.fits import fits_table
        from tractor.utils import get_class_from_name
        T = fits_table(fn)
        cls = [get_class_from_name(t.skyclass.strip()) for t in T]
        if opt % 2 and all(hasattr(c, 'from_fits') for c in cls):
            return [c.from_fits(fn, None, row=i) for i, c in enumerate(cls)]
        return [c.from_fits_row(t) for c, t in zip(cls, T)]

    def values(self, ss):
        out = []
        for s in ss:
            a = np.zeros((12, 15))
            s.addTo(a)
            out.append(a)
        out.append([float(s.getConstant()) for s in ss if hasattr(s, 'getConstant')])
        return out


class Img(object):
    tight = True

    def make(self, ctx):
        from tractor import Image, ConstantSky, NullWCS, LinearPhotoCal
        from tractor.sky import NullSky
        from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF
        from tractor.brightness import MagsPhotoCal, NullPhotoCal, FluxesPhotoCal
        H, W = ctx.between(3, 60, 'H'), ctx.between(3, 60, 'W')
        rs = np.random.RandomState(ctx.bits('pix'))
        K = ctx.wpick([(3, 1), (3, 2), (2, 3), (1, 4), (0.5, 11)], 'K')
        if ctx.flip(0.3, 'ellipse-psf'):
            p = list(rs.uniform(0.2, 1., size=K)) + list(rs.uniform(-1, 1, size=2 * K))
            for _ in range(K):
                p += [rs.uniform(0.2, 0.9), rs.uniform(-0.3, 0.3), rs.uniform(-0.3, 0.3)]
            psf = GaussianMixtureEllipsePSF(*p)
        else:
            var = np.array([[[rs.uniform(2., 4.), c], [c, rs.uniform(2., 4.)]] for c in rs.uniform(-1, 1, size=K)])
            psf = GaussianMixturePSF(rs.uniform(0.2, 1., size=K), rs.uniform(-1, 1, size=(K, 2)), var)
        if ctx.flip(0.4, 'frozen'):
            for i in range(len(psf.liquid)):
                if ctx.flip(0.5, 'freeze'):
                    psf.freezeParam(i)
        wcs = NullWCS(pixscale=ctx.pick([1., 0.262], 'pixscale'), dx=ctx.pick([0., 2.5], 'dx'), dy=ctx.pick([0., -7.], 'dy'))
        pc = ctx.pick([NullPhotoCal(), LinearPhotoCal(ctx.unif(0.1, 9., 'scale')), LinearPhotoCal(2.25, band='r'), MagsPhotoCal('g', 22.5), FluxesPhotoCal('z')], 'photocal')
        sky = ctx.pick([ConstantSky(ctx.unif(-3., 3., 'sky')), NullSky()], 'sky')
        dt = ctx.pick([np.float32, np.float64], 'dtype')
        ie = rs.uniform(0.1, 3., size=(H, W)).astype(dt)
        ie[rs.uniform(size=(H, W)) < 0.2] = 0.
        amp = ctx.pick([1., 1., 1e-7, 1e8], 'pixel-scale')
        ie = (ie / amp).astype(dt)
        return Image(data=(rs.normal(size=(H, W)) * amp).astype(dt), inverr=ie, psf=psf, wcs=wcs, photocal=pc, sky=sky, name='img')

    def change(self, ctx, im):
        how = ctx.pick(['pixels', 'inverr', 'sky', 'psf'], 'change')
        if how == 'pixels':
            im.setImage(im.getImage() * 2.)
        elif how == 'inverr':
            im.setInvError(im.getInvError() * 0.5)
        elif how == 'sky':
            im.setSky(type(im.getSky())(*([0.5] if im.getSky().numberOfParams() else [])))
        else:
            p = np.array(im.psf.getAllParams())
            p[0] *= 1.5
            im.psf.setAllParams(list(p))
        return im

    def save(self, im, fn, opt):
        import fitsio
        if os.path.exists(fn):
            os.remove(fn)
        with fitsio.FITS(fn, 'rw') as F:
            if opt % 2:
                h = fitsio.FITSHDR()
                h.add_record(dict(name='FILTER', value='r'))
                im.toFits(F, primheader=h)
            else:
                im.toFits(F)

    def load(self, fn, opt):
        import fitsio
        from tractor import Image
        with fitsio.FITS(fn) as F:
            return Image.readFromFits(F)

    def values(self, im):
        from tractor import PixPos, Flux, Fluxes
        from tractor.brightness import Mags
        out = [np.array(im.getImage(), float), np.array(im.getInvError(), float), list(im.shape)]
        out.append(np.array(im.psf.getPointSourcePatch(1.3, 2.1).patch, float))
        out.append(np.array(im.psf.getAllParams(), float))
        out.append([float(x) for x in im.wcs.positionToPixel(PixPos(3., 5.))] + [float(im.wcs.pixscale_at(0, 0))])
        b = getattr(im.photocal, 'band', None)
        nm = type(im.photocal).__name__
        out.append(nm)
        br = Mags(r=20., g=19., z=18., order=['g', 'r', 'z']) if nm == 'MagsPhotoCal' else (Fluxes(r=3., z=5., order=['r', 'z']) if b else Flux(7.))
        out.append(float(im.photocal.brightnessToCounts(br)))
        a = np.zeros((4, 4))
        im.sky.addTo(a)
        out.append(a)
        out.append([type(im.psf).__name__, type(im.wcs).__name__, type(im.sky).__name__])
        ie = im.getInvError()
        out.append([out[0], out[4], out[5], out[7], out[8]] + ([np.array(ie)] if ie.dtype == np.float64 else []))
        return out


class Varying(object):
    def make(self, ctx):
        from tractor.psfex import VaryingGaussianPsfEx
        from tractor.psf import GaussianMixtureEllipsePSF
        K = ctx.between(1, 2, 'K')
        nx, ny = ctx.between(4, 6, 'nx'), ctx.between(4, 5, 'ny')
        p = VaryingGaussianPsfEx(None, 26, 40, nx=nx, ny=ny, K=K, psfClass=GaussianMixtureEllipsePSF)
        rs = np.random.RandomState(ctx.bits('grid'))
        pp = np.concatenate([rs.uniform(0.2, 1., size=(ny, nx, K)), rs.uniform(-1, 1, size=(ny, nx, 2 * K))] +
                            [rs.uniform(-0.2, 0.4, size=(ny, nx, 3)) for _ in range(K)], axis=2)
        p.splinedata = (pp, np.linspace(0, 26, nx), np.linspace(0, 40, ny))
        p.ensureSplines()
        return p

    def change(self, ctx, p):
        pp, X, Y = p.splinedata
        p.splinedata = (pp * 1.01, X, Y)
        p.splines = None
        p.ensureSplines()
        return p

    def save(self, p, fn, opt):
        p.toFits(fn, merge=bool(opt % 2))

    def load(self, fn, opt):
        from tractor.psfex import PsfEx
        return PsfEx.fromFits(fn)

    def values(self, p):
        out = [[int(p.W), int(p.H), int(p.K), int(p.nx), int(p.ny)], p.psfclass.__name__]
        for x, y in ((3., 4.), (20., 33.), (11., 0.)):
            out.append(np.array(p.psfParamsAt(x, y)))
        out.append(np.array(p.getPointSourcePatch(12.2, 15.1).patch, float))
        return out


KINDS = dict(psfex=PsfEx(), spline=Spline(), const=Const(), table=SkyTable(), image=Img(), varying=Varying())


# ------------------------------------------------------------------ the disk
def faulty_save(kind, obj, fn, opt, limit, crash):
    """Saves in another process whose files cannot grow past `limit` bytes: the
    write fails there, or (crash) the process dies there.  Returns
    ('ok'|'failed'|'died', values of the object in the writer afterwards)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if crash else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                kind.save(obj, fn, opt)
                st = 'ok'
            except Exception as e:
                st = 'failed'
            _send(w, pickle.dumps((st, kind.values(obj))))
        finally:
            os._exit(0)
    os.close(w)
    try:
        out = pickle.loads(_recv(r))
    except EOFError:
        out = ('died', None)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return out


def read_bytes(fn):
    try:
        with open(fn, 'rb') as f:
            return f.read()
    except OSError:
        return None


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def run(ctx):
    d = tempfile.mkdtemp(prefix='verif-c13-')
    ctx.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
    faults = ctx.swarm(['full-disk', 'crash', 'truncated', 'lost'], 0.6)
    kn = ctx.pick(sorted(KINDS), 'kind')
    kind = KINDS[kn]
    objs = [kind.make(ctx) for _ in range(ctx.between(1, 2, 'objects'))]
    files = [os.path.join(d, 'f%d.fits' % i) for i in range(ctx.between(1, 2, 'files'))]
    # file -> list of values it may read back as; None = may be unreadable
    may = dict((f, [None]) for f in files)
    ctx.log(kn)
    size = 9000
    for _ in range(ctx.between(2, 7, 'n-ops')):
        op = ctx.wpick([(4, 'save'), (4, 'load'), (2, 'change'), (1.5, 'truncate'), (0.5, 'lose')], 'op')
        i = ctx.draw(len(objs), 'object')
        f = ctx.pick(files, 'file')
        opt = ctx.draw(4, 'variant')
        if op == 'change':
            objs[i] = kind.change(ctx, objs[i])
            ctx.op('change')
        elif op == 'save':
            o = objs[i]
            v = kind.values(o)
            before = read_bytes(f)
            fault = None
            if ctx.fault('full-disk', 0.35):
                fault = 'full-disk'
            elif ctx.fault('crash', 0.35):
                fault = 'crash'
            if fault is None:
                kind.save(o, f, opt)
                ctx.op('save', os.path.basename(f), os.path.getsize(f))
                may[f] = [v]
                size = os.path.getsize(f)
                after = kind.values(o)
            else:
                limit = ctx.pick([ctx.draw(size + 100, 'byte'), ctx.draw(max(1, size // 2880), 'block') * 2880, size - 1 - ctx.draw(20, 'near-end')], 'where')
                limit = max(limit, 0)
                st, after = faulty_save(kind, o, f, opt, limit, fault == 'crash')
                now = read_bytes(f)
                ctx.op('save', os.path.basename(f), fault, 'at byte', limit, st, 'left', None if now is None else len(now))
                ctx.state(kn, 'save', fault, limit // 16, st)
                may[f] = [v, None] + (may[f] if now == before else [])
                if after is None:
                    continue
            ctx.check(rich.same(plain(after), plain(v), 0.), 'save-changed-object', lambda: 'saving a %s changed it: %s' % (kn, rich.why(plain(v), plain(after), 0.)))
        elif op == 'truncate' and 'truncated' in faults and os.path.exists(f):
            n = os.path.getsize(f)
            if n == 0:
                continue
            cut = ctx.pick([ctx.draw(n, 'byte'), ctx.draw(n // 2880 + 1, 'block') * 2880, n - 1], 'cut')
            os.truncate(f, min(cut, n))
            ctx.injected('truncated')
            ctx.op('truncate', cut, 'of', n)
            ctx.state(kn, 'cut', cut // 16)
            may[f] = may[f] + [None]
        elif op == 'lose' and 'lost' in faults and os.path.exists(f):
            os.remove(f)
            ctx.injected('lost')
            ctx.op('lose')
            may[f] = [None]
        elif op == 'load':
            check_load(ctx, kn, kind, f, opt, may[f])
    for f in files:
        check_load(ctx, kn, kind, f, 0, may[f])
    for o in objs:
        # a disk that works again
        f = os.path.join(d, 'last.fits')
        v = kind.values(o)
        kind.save(o, f, 0)
        check_load(ctx, kn, kind, f, 0, [v])


def check_load(ctx, kn, kind, f, opt, allowed):
    try:
        o = kind.load(f, opt)
        v = kind.values(o)
    except Exception as e:
        ctx.op('load', os.path.basename(f), 'raised', type(e).__name__)
        ctx.check(None in allowed, 'cannot-read-back', lambda: 'a %s that was saved completely cannot be read: %s: %s' % (kn, type(e).__name__, str(e)[:300]))
        ctx.probe('unreadable')
        return
    ctx.op('load', os.path.basename(f), 'ok')
    ctx.probe('read-back')
    ctx.probe('nontrivial')
    good = [a for a in allowed if a is not None]
    tol = 2e-6

    def match(a):
        # the last entry: what is kept exactly (but for the last digits of header cards)
        return rich.same(plain(v), plain(a), tol) and (not getattr(kind, 'tight', False) or rich.same(plain(v[-1]), plain(a[-1]), 1e-12))
    ctx.check(any(match(a) for a in good), 'read-back-differs',
              lambda: 'a %s read back differs from what was saved: %s' % (kn, (rich.why(plain(good[0]), plain(v), tol) or rich.why(plain(good[0][-1]), plain(v[-1]), 1e-12)) if good else 'nothing was saved there'))
