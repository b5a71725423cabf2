"""C11: loading a survey image (or catalogue) returns the right one or an error.

A simulated survey server and local file store behind the `sdss` object the loaders are
given: component files are missing, truncated, empty or garbage, fetches fail, raise, deliver
short or garbage files or deliver late, reads fail, files are damaged while a load is under
way, and the user interrupts.  The oracle is a load from an intact store, plus pixels, masks
and positions computed here from the arrays the files were made from."""
import bz2
import copy
import os
import shutil
import tempfile

import numpy as np

from sim import values
from sim.core import InjectedInterrupt

TIERS = dict(quick=dict(runs=1200, wall=260), thorough=dict(runs=150000, wall=3000))
RULE = ('one evaluation = one simulated run: a store in a random state and 1..4 image or catalogue loads with seeded fetch and read faults, each compared with the load from an intact '
        'store and with the arrays the files were made from; distinct_nontrivial counts runs with distinct (file states, fetch outcomes, options) digests in which a fault happened or an image was returned')
COMPONENTS = dict(real=['tractor/sdss.py, tractor/imageutils.py, tractor image, PSF and WCS classes', 'astrometry.sdss DR8 file classes, fitsio/CFITSIO, kernel file I/O in a scratch directory'],
                  stub=['the survey server and download command (DR8.retrieve)', 'fitsverify (a script that reads the simulated store\'s list of damaged files)',
                        'opening a file through fitsio (fails or is interrupted at a seeded open)'])
RUN, CAMCOL = 1000, 1
FIELDS = [100, 101]
BANDS = ['r', 'i']
TYPES = ['psField', 'fpM', 'frame']
PLANES = ['INTERP', 'SATUR', 'CR', 'GHOST']

_pristine = {}


def preload():
    import fitsio                                   # noqa: F401
    import astrometry.sdss                          # noqa: F401
    import tractor.sdss                             # noqa: F401
    import tractor.emfit                            # noqa: F401
    import tractor.fitpsf                           # noqa: F401
    prepare()
    make_store('/nowhere')


def prepare():
    """The server's files: made once from the repository's example field, two fields
    and two bands with different contents."""
    if _pristine:
        return
    import fitsio
    import sim.env
    repo = getattr(sim.env, 'REPO', '/repo')
    src = os.path.join(repo, 'test', 'data-sdss')
    d = tempfile.mkdtemp(prefix='verif-c11-')
    try:
        with open(os.path.join(d, 'f.fits'), 'wb') as f:
            f.write(bz2.open(os.path.join(src, 'frame-r-001000-1-0100.fits.bz2')).read())
        F = fitsio.FITS(os.path.join(d, 'f.fits'))
        img0, hdr, cal0, sky, ast = F[0].read(), F[0].read_header(), F[1].read(), F[2].read(), F[3].read()
        M = fitsio.FITS(os.path.join(src, 'fpM-001000-r1-0100.fit'))
        names = M[-1].read()
        plane = np.zeros(1, dtype=[(n, 'i4') for n in ('refcntr', 'nspan', 'row0', 'col0', 'rmin', 'rmax', 'cmin', 'cmax', 'npix')])
        psf = open(os.path.join(src, 'psField-001000-1-0100.fit'), 'rb').read()
        P = fitsio.FITS(os.path.join(src, 'psField-001000-1-0100.fit'))
        p6 = P[6].read()
        obj = fitsio.read(os.path.join(src, 'photoObj-001000-1-0100.fits'), lower=False)
        H, W = img0.shape
        skyt = np.zeros(1, dtype=[('ALLSKY', 'f4', (192, 256)), ('XINTERP', 'f4', (W,)), ('YINTERP', 'f4', (H,))])
        num = {}
        for rec in names:
            dn = rec[0].decode().strip() if isinstance(rec[0], bytes) else rec[0].strip()
            an = rec[1].decode().strip() if isinstance(rec[1], bytes) else rec[1].strip()
            if dn == 'S_MASKTYPE':
                num[an.replace('S_MASK_', '')] = int(rec[2])
        for fi, field in enumerate(FIELDS):
            rs = np.random.RandomState(10 + fi)
            s6 = p6.copy()
            for nm in [n for n in s6.dtype.names if n.lower() in ('psf_sigma1_2g', 'psf_sigma2_2g', 'gain')]:
                s6[nm] = s6[nm] * (1. + 0.1 * fi)
            fn = os.path.join(d, 'ps.fit')
            with open(fn, 'wb') as f:
                f.write(psf)
            with fitsio.FITS(fn, 'rw') as G:
                G[6].write(s6, firstrow=0)
            _pristine['psField', field, None] = open(fn, 'rb').read()
            o = obj.copy()
            o['PSFFLUX'] = o['PSFFLUX'] * (1. + fi)
            # more galaxies, among them composites, with shapes that differ between bands
            for j in range(len(o)):
                if j % 3 != fi and o['OBJC_TYPE'][j] in (3, 6):
                    o['PROB_PSF'][j] = 0.
                    o['OBJC_TYPE'][j] = 3
                    o['FRACDEV'][j] = [(0., 1., 0.25, 0.6)[(j + b) % 4] for b in range(5)]
            for nm in ('THETA_DEV', 'THETA_EXP', 'AB_DEV', 'AB_EXP', 'PHI_DEV_DEG', 'PHI_EXP_DEG'):
                lo, hi = dict(THETA=(0.01, 3.), AB=(0.2, 0.95), PHI=(5., 170.))[nm.split('_')[0]]
                o[nm] = rs.uniform(lo, hi, size=o[nm].shape)
            for nm in ('CMODELFLUX', 'DEVFLUX', 'EXPFLUX'):
                o[nm] = rs.uniform(0.5, 50., size=o[nm].shape)
            fn = os.path.join(d, 'po.fits')
            fitsio.write(fn, o, clobber=True)
            _pristine['photoObj', field, None] = open(fn, 'rb').read()
            for bi, band in enumerate(BANDS):
                k = 1 + fi * 2 + bi
                img = (img0 + 0.01 * rs.normal(size=img0.shape) + k).astype(np.float32)
                cal = (cal0 * (1. + 0.05 * k)).astype(np.float32)
                skyt['ALLSKY'] = sky['ALLSKY'].reshape(1, 192, 256) + k
                skyt['XINTERP'] = np.linspace(0, 255, W)
                skyt['YINTERP'] = np.linspace(0, 191, H)
                h = fitsio.FITSHDR(hdr)
                h['TAI'] = 4.5e9 + 100. * k
                fn = os.path.join(d, 'frame.fits')
                if os.path.exists(fn):
                    os.remove(fn)
                with fitsio.FITS(fn, 'rw') as G:
                    G.write(img, header=h)
                    G.write(cal)
                    G.write(skyt)
                    G.write(ast)
                _pristine['frame', field, band] = open(fn, 'rb').read()
                mask = np.zeros((H, W), bool)
                fn = os.path.join(d, 'fpM.fit')
                if os.path.exists(fn):
                    os.remove(fn)
                with fitsio.FITS(fn, 'rw') as G:
                    G.write(None)
                    for pl in range(len(M) - 2):
                        nr = rs.randint(0, 5)
                        rows = np.repeat(plane, nr)
                        used = [n for n in PLANES if num.get(n) == pl]
                        for j in range(nr):
                            x, y = rs.randint(-5, W), rs.randint(-5, H)
                            w, hh = rs.randint(0, 12), rs.randint(0, 12)
                            x, y = max(x, 0), max(y, 0)
                            x2, y2 = min(x + w, W - 1), min(y + hh, H - 1)
                            for nm, v in (('row0', 0), ('col0', 0), ('rmin', y), ('rmax', y2), ('cmin', x), ('cmax', x2)):
                                rows[nm][j] = v
                            if used:
                                mask[y:y2 + 1, x:x2 + 1] = True
                        G.write(rows if nr else np.zeros(0, plane.dtype))
                    tab = np.zeros(len(names), dtype=[('defName', 'S31'), ('attributeName', 'S31'), ('Value', 'i4')])
                    for j, rec in enumerate(names):
                        tab[j] = tuple(v.strip().encode() if isinstance(v, str) else v for v in rec)
                    G.write(tab)
                data = open(fn, 'rb').read()
                for nm in [bytes(v) for rec in tab for v in (rec[0], rec[1])]:
                    data = data.replace(nm.ljust(31), nm.ljust(31, b'\0'))
                _pristine['fpM', field, band] = data
                _pristine['arrays', field, band] = (img, cal, mask)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(ft, field, band):
    return (ft, field, None if ft in ('psField', 'photoObj') else band)


def make_store(basedir):
    from astrometry.sdss import DR8, band_name

    class Store(DR8):
        """The local file store, with a simulated server behind retrieve()."""

        def __init__(self):
            if 'dr8' not in _pristine:
                _pristine['dr8'] = DR8(basedir='/nowhere')
            self.__dict__.update(copy.copy(_pristine['dr8'].__dict__))
            self.basedir = basedir
            self.filenames = dict(self.filenames)
            self.filenames['frame'] = 'frame-%(band)s-%(run)06i-%(camcol)i-%(field)04i.fits'
            self.fetches = []                       # (filetype, forced, outcome)
            self.outcome = lambda ft: 'ok'
            self.pending = []
            self.touched = lambda: None

        def get_rerun(self, run, field=None):
            return '301'

        def path(self, k):
            return self.getPath(k[0], RUN, CAMCOL, k[1], k[2] or 'r')

        def put(self, k, data):
            fn = self.path(k)
            with open(fn + '.part', 'wb') as f:
                f.write(data)
            os.rename(fn + '.part', fn)

        def good(self, k):
            try:
                with open(self.path(k), 'rb') as f:
                    return f.read() == _pristine[k]
            except OSError:
                return False

        def land(self):
            for k in self.pending:
                self.put(k, _pristine[k])
            self.pending = []

        def retrieve(self, filetype, run, camcol, field=None, band=None, skipExisting=True, **kw):
            self.land()
            k = key(filetype, field, band if band is None else band_name(band))
            fn = self.path(k)
            if skipExisting and os.path.exists(fn):
                return fn
            what = self.outcome(filetype)
            self.fetches.append((filetype, not skipExisting, what if isinstance(what, str) else what[0]))
            if what == 'ok':
                self.put(k, _pristine[k])
                return fn
            if what == 'fails':
                return None
            if what == 'false':
                return False
            if what == 'raises':
                raise OSError('injected: connection reset')
            if what == 'interrupt':
                raise InjectedInterrupt('injected')
            if what == 'late':
                self.pending.append(k)
                return fn
            if what == 'garbage':
                self.put(k, b'<html>503 service unavailable</html>' * 100)
                return fn
            data = _pristine[k]
            self.put(k, data[:int(what[1] * len(data))])
            return fn

        def readFrame(self, *a, **k):
            self.land()
            return DR8.readFrame(self, *a, **k)

        def readPsField(self, *a, **k):
            self.land()
            return DR8.readPsField(self, *a, **k)

        def readFpM(self, *a, **k):
            self.land()
            return DR8.readFpM(self, *a, **k)
    return Store()


class Opens(object):
    def __init__(self):
        import fitsio
        cls = fitsio.FITS
        orig = cls.__init__
        me = self
        me.arm({})

        def init(s, *a, **k):
            me.n += 1
            act = me.acts.pop(me.n, None)
            if act is not None:
                act()
            return orig(s, *a, **k)
        cls.__init__ = init

    def arm(self, acts):
        self.n, self.acts = 0, dict(acts)


def describe(tim, info):
    """The image as plain values."""
    from tractor import RaDecPos, NanoMaggies, Mags
    if tim is None:
        return None
    out = dict(data=np.array(tim.getImage(), float), name=tim.name, zr=np.array(tim.zr, float))
    ie = tim.inverr
    out['inverr'] = np.array(ie, float)
    w = tim.getWcs()
    pts = []
    for x, y in ((0., 0.), (10.5, 3.25), (60., 80.)):
        p = w.pixelToPosition(x, y)
        pts += [p.ra, p.dec] + list(w.positionToPixel(p))
    out['wcs'] = np.array(pts, float)
    out['cd'] = np.array(w.cdAtPixel(3., 4.), float)
    out['psf'] = type(tim.getPsf()).__name__
    P = tim.getPsf().getPointSourcePatch(10.3, 11.6)
    out['psfpix'] = [P.x0, P.y0, np.array(P.patch, float)]
    sky = np.zeros((2, 2))
    tim.getSky().addTo(sky)
    out['sky'] = sky
    pc = tim.getPhotoCal()
    out['photocal'] = type(pc).__name__
    out['time'] = float(tim.time.getValue()) if tim.time is not None else None
    for b in BANDS:
        try:
            br = NanoMaggies(**{b: 3.}) if 'Linear' in out['photocal'] else Mags(**{b: 20.})
            out['counts-' + b] = float(pc.brightnessToCounts(br))
        except Exception as e:
            out['counts-' + b] = 'error'
    out['info'] = dict((k, np.array(info[k], float))
                       for k in sorted(info) if k in ('sky', 'skysig', 'zr', 'roi', 'tai', 'dgpsf'))
    return out


def describe_sources(ss):
    return [(type(s).__name__, s.getParamNames(), np.array(s.getParams(), float)) for s in ss]


def options(ctx):
    """Options of an image load; (kwargs, region of interest or None)"""
    from tractor import RaDecPos                    # noqa: F401
    kw = dict(psf=ctx.wpick([(10, 'dg'), (4, 'kl-pix'), (1, 'kl-gm'), (4, 'bright-dg'), (0.5, 'bright-kl-pix')], 'psf'))
    if ctx.flip(0.5, 'nanomaggies'):
        kw['nanomaggies'] = True
    how = ctx.pick(['image', 'image', 'center', 'centerimage'], 'invvar')
    if how == 'center':
        kw['invvarAtCenter'] = True
    elif how == 'centerimage':
        kw['invvarAtCenterImage'] = True
    if ctx.flip(0.3, 'ignore-flux'):
        kw['invvarIgnoresSourceFlux'] = True
    roi = None
    if ctx.flip(0.6, 'roi') or how == 'centerimage':
        x0, y0 = ctx.draw(70, 'x0'), ctx.draw(70, 'y0')
        roi = (x0, ctx.between(x0 + 20, 100, 'x1'), y0, ctx.between(y0 + 20, 100, 'y1'))
        if ctx.flip(0.3, 'by-radec'):
            return kw, ('size', x0 + 0.2, y0 + 0.1, ctx.between(3, 30, 'S'))
        kw['roi'] = roi
    return kw, roi


def independent(ctx, where, D, field, band, kw, roi, intact):
    """Pixels and masks from the arrays the files were made from."""
    img, cal, mask = _pristine['arrays', field, band]
    x0, x1, y0, y1 = roi
    s = (slice(y0, y1), slice(x0, x1))
    exp = img[s]
    ctx.check(D['data'].shape == exp.shape and np.allclose(D['data'], exp, rtol=1e-6), 'wrong pixels', where)
    if D['inverr'].shape == exp.shape:
        z = D['inverr'] == 0
        # (the library masks one pixel more than the rectangle on each upper edge)
        m = np.ones(exp.shape)
        fpM = intact.readFpM(RUN, CAMCOL, field, band)
        for pl in PLANES:
            fpM.setMaskedPixels(pl, m, 0, roi=roi)
        ctx.check(np.all(m[mask[s]] == 0), 'harness', 'mask planes')
        ctx.check(np.array_equal(z, m == 0), 'wrong mask', where + ': %d pixels masked, should be %d' % (z.sum(), (m == 0).sum()))
    ctx.check(list(np.array(D['info']['roi'], int).ravel()) == list(roi), 'wrong region', where)
    # calibration, PSF, noise and time: of this field and this band
    from astrometry.sdss import band_index
    frame = intact.readFrame(RUN, CAMCOL, field, band)
    ps = intact.readPsField(RUN, CAMCOL, field)
    b = band_index(band)
    H, W = img.shape
    at = None
    if kw.get('invvarAtCenter') or kw.get('invvarAtCenterImage'):
        at = (int((x0 + x1) / 2.), int((y0 + y1) / 2.))
    a2 = dict(ignoreSourceFlux=bool(kw.get('invvarIgnoresSourceFlux')))
    if at is not None:
        a2['constantSkyAt'] = at
    iv = np.array(frame.getInvvar(ps, b, **a2), np.float32)
    if at is None:
        iv = iv[s]
    ok = D['inverr'] > 0
    ctx.check(np.allclose(D['inverr'][ok], np.broadcast_to(np.sqrt(iv), D['inverr'].shape)[ok], rtol=1e-5), 'wrong inverse variance', where)
    sig = np.sqrt(np.mean(frame.sky) / ps.getGain(b) + ps.getDarkVariance(b)) * np.mean(cal)
    ctx.check(np.allclose(D['info']['skysig'], sig, rtol=1e-5), 'wrong noise level', where)
    ctx.check(np.allclose(D['zr'], np.array([-3., 10.]) * sig, rtol=1e-5), 'wrong noise level', where)
    ctx.check(np.allclose(D['info']['dgpsf'], ps.getDoubleGaussian(b, normalize=True), rtol=1e-6), 'wrong PSF', where)
    if kw['psf'] in ('dg', 'bright-dg'):
        a, s1, c, s2 = ps.getDoubleGaussian(b, normalize=True)
        px, py, pp = D['psfpix']
        yy, xx = np.mgrid[:pp.shape[0], :pp.shape[1]]
        r2 = (xx + px - 10.3)**2 + (yy + py - 11.6)**2
        g = (a / (2 * np.pi * s1**2) * np.exp(-0.5 * r2 / s1**2) + c / (2 * np.pi * s2**2) * np.exp(-0.5 * r2 / s2**2)) / 1.
        ctx.check(np.abs(pp - g).max() <= 2e-3 * g.max(), 'wrong PSF', where)
    elif kw['psf'] == 'kl-pix':
        k = ps.getPsfAtPoints(b, x0 + (x1 - x0) / 2, y0 + (y1 - y0) / 2)
        ctx.check(abs(D['psfpix'][2].sum() - k.sum()) <= 1e-2 * abs(k.sum()), 'wrong PSF', where)
    tr = frame.getAsTrans()
    for i, (x, y) in enumerate(((0., 0.), (10.5, 3.25), (60., 80.))):
        ra, dec = tr.pixel_to_radec(x + x0 + 0.5, y + y0 + 0.5)
        got = D['wcs'][4 * i:4 * i + 4]
        ctx.check(abs(got[0] - ra) < 1e-7 and abs(got[1] - dec) < 1e-7 and abs(got[2] - x) < 1e-2 and abs(got[3] - y) < 1e-2, 'wrong position', where + ': pixel %g,%g at %s, should be %g,%g' % (x, y, got, ra, dec))
    k = 1 + FIELDS.index(field) * 2 + BANDS.index(band)
    ctx.check(abs(D['time'] - (4.5e9 + 100. * k)) < 1., 'wrong time', where)
    for o in BANDS:
        want = (3. if kw.get('nanomaggies') else 10.**(0.4 * (22.5 - 20.))) if o == band else None
        got = D['counts-' + o]
        ctx.check(got == 'error' or abs(got - (0. if want is None else want)) <= 1e-5 if want is None else (got != 'error' and abs(got / want - 1.) < 1e-6), 'wrong calibration', where + ': %s in band %s' % (got, o))


def expected_sources(field, kw):
    """The catalogue as (class, position, brightness per band, shapes), from the table itself."""
    import fitsio
    fn = _pristine.setdefault(('table', field, None), None)
    if fn is None:
        d = tempfile.mkdtemp(prefix='verif-c11-')
        try:
            f = os.path.join(d, 'p.fits')
            with open(f, 'wb') as g:
                g.write(_pristine['photoObj', field, None])
            _pristine['table', field, None] = fitsio.read(f, lower=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    T = _pristine['table', field, None]
    names = ['u', 'g', 'r', 'i', 'z']
    b = names.index(kw['bandname'])
    bands = kw.get('bands') or names
    bi = [names.index(x) for x in bands]
    extra = kw.get('extrabands') or []
    out, index = [], []
    for i in range(len(T)):
        t = T[i]
        x, y = t['colc'][b], t['rowc'][b]
        if kw['roi'] is not None and not (kw['roi'][0] <= x < kw['roi'][1] and kw['roi'][2] <= y < kw['roi'][3]):
            continue
        if t['nchild'] != 0 or (t['objc_flags'] & 2):
            continue
        if kw['useObjcType']:
            if t['objc_type'] not in (3, 6):
                continue
            star = t['objc_type'] == 6
        else:
            if t['prob_psf'][b] not in (0, 1):
                continue
            star = t['prob_psf'][b] == 1

        def bright(f):
            f = np.array([f[j] for j in bi], float)
            if kw['nanomaggies']:
                return list(f) + [0.] * len(extra)
            return [22.5 - 2.5 * np.log10(v) if v > 0 else 25. for v in f] + [25.] * len(extra)

        def shape(k):
            return [max(float(t['theta_' + k][b]), 1. / 30), float(t['ab_' + k][b]), -float(t['phi_%s_deg' % k][b])]
        pos = [float(t['ra']), float(t['dec'])]
        fd = float(t['fracdev'][b])
        index.append(i)
        if star:
            out.append(('PointSource', pos + bright(t['psfflux'])))
        elif fd > 0 and 1. - fd > 0:
            if kw.get('fixedComposites'):
                out.append(('FixedCompositeGalaxy', pos + bright(t['cmodelflux']) + [fd] + shape('exp') + shape('dev')))
            else:
                out.append(('CompositeGalaxy', pos + bright(t['cmodelflux'] * (1. - fd)) + shape('exp') + bright(t['cmodelflux'] * fd) + shape('dev')))
        elif fd > 0:
            out.append(('DevGalaxy', pos + bright(t['devflux']) + shape('dev')))
        elif 1. - fd > 0:
            out.append(('ExpGalaxy', pos + bright(t['expflux']) + shape('exp')))
        else:
            index.pop()
    return out, index


def check_catalogue(ctx, where, D, inds, field, kw):
    want, index = expected_sources(field, kw)
    ctx.check(len(D) == len(want), 'wrong catalogue', where + ': %d sources, should be %d' % (len(D), len(want)))
    for j, ((cls, names, p), (wc, wp)) in enumerate(zip(D, want)):
        ctx.check(cls == wc and len(p) == len(wp) and np.allclose(p, wp, rtol=1e-4, atol=1e-5), 'wrong catalogue',
                  lambda: where + ': source %d is %s %s, should be %s %s' % (j, cls, list(p), wc, wp))
    if inds is not None:
        ctx.check([int(v) for v in inds] == index, 'wrong catalogue', where + ': indices %s, should be %s' % (list(inds)[:10], index[:10]))


def run(ctx):
    from tractor import sdss as T
    import fitsio
    prepare()
    d = tempfile.mkdtemp(prefix='verif-c11-')
    ctx.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
    os.makedirs(os.path.join(d, 'local'))
    os.makedirs(os.path.join(d, 'intact'))
    os.makedirs(os.path.join(d, 'bin'))
    kinds = ctx.swarm(['missing', 'damaged', 'fetch-fails', 'fetch-raises', 'fetch-short', 'fetch-garbage', 'fetch-late', 'read-error', 'damaged-meanwhile', 'interrupt'], 0.5)
    store, intact = make_store(os.path.join(d, 'local')), make_store(os.path.join(d, 'intact'))
    keys = sorted((k for k in _pristine if k != 'dr8' and k[0] != 'arrays'), key=str)
    for k in keys:
        intact.put(k, _pristine[k])

    def hurt(k):
        data = _pristine[k]
        how = ctx.pick(['truncated', 'truncated', 'empty', 'garbage'], 'how')
        if how == 'truncated':
            n = len(data)
            data = data[:ctx.draw(n, 'kept')] if ctx.flip(0.5, 'anywhere') else data[:max(0, n - 1 - ctx.draw(6000, 'lost'))]
        elif how == 'empty':
            data = b''
        else:
            data = b'\x00garbage' * 700
        store.put(k, data)
        return how

    for k in keys:
        if ctx.fault('missing', 0.3):
            pass
        elif ctx.fault('damaged', 0.2):
            ctx.op(hurt(k), k)
        else:
            store.put(k, _pristine[k])
    verify = ctx.pick(['works', 'absent'], 'fitsverify')
    if verify == 'works':
        fn = os.path.join(d, 'bin', 'fitsverify')
        with open(fn, 'w') as f:
            f.write('#!/bin/sh\nshift\nb=%s/intact/$(basename "$1")\ncmp -s "$1" "$b"\n' % d)
        os.chmod(fn, 0o755)
    os.environ['PATH'] = os.path.join(d, 'bin') + ':' + os.environ['PATH']
    opens = Opens()
    fired = []

    def outcome(ft):
        for k in ('fetch-fails', 'fetch-raises', 'fetch-garbage', 'fetch-late'):
            if ctx.fault(k, 0.15):
                return 'false' if k == 'fetch-fails' and ctx.flip(0.5, 'false') else k[6:]
        if ctx.fault('fetch-short', 0.15):
            return ('short', ctx.unif(0., 0.999, 'fraction'))
        if ctx.fault('interrupt', 0.08):
            fired.append('interrupt')
            return 'interrupt'
        return 'ok'

    for _ in range(ctx.between(1, 4, 'loads')):
        field, band = ctx.pick(FIELDS, 'field'), ctx.pick(BANDS, 'band')
        what = ctx.wpick([(4, 'image'), (1, 'catalogue')], 'what')
        del fired[:]
        store.fetches = []
        types = TYPES if what == 'image' else ['photoObj']
        ks = [key(ft, field, band) for ft in types]
        if ctx.flip(0.25, 'heal'):
            store.land()
            for k in ks:
                store.put(k, _pristine[k])
        retrieve = ctx.flip(0.7, 'retrieve')
        if what == 'image':
            kw, roi = options(ctx)
            if roi is not None and roi[0] == 'size':
                w = T.SdssWcs(intact.readFrame(RUN, CAMCOL, field, band).getAsTrans())
                p = w.pixelToPosition(roi[1], roi[2])
                S = roi[3]
                kw['roiradecsize'] = (p.ra, p.dec, S)
                xc, yc = int(round(roi[1])), int(round(roi[2]))
                roi = (max(xc - S, 0), min(xc + S + 1, 100), max(yc - S, 0), min(yc + S + 1, 100))
            retry = ctx.flip(0.75, 'retry')

            def load(s, faulty):
                k2 = dict(kw, sdss=s, retrieve=retrieve if faulty else False)
                if not (retry and faulty):
                    k2['retry_retrieve'] = False
                form = ctx.pick(['positional', 'keyword', 'dr9'], 'call') if faulty else 'positional'
                if form == 'keyword':
                    return T.get_tractor_image_dr8(RUN, CAMCOL, field, bandname=band, **k2)
                if form == 'dr9':
                    return T.get_tractor_image_dr9(RUN, CAMCOL, field, band, **k2)
                return T.get_tractor_image_dr8(RUN, CAMCOL, field, band, **k2)
            ref = describe(*load(intact, False))
        else:
            check = ctx.flip(0.7, 'check-files')
            kw = dict(bandname=band, roi=ctx.pick([None, (0, 150, 0, 150)], 'cat-roi'), nanomaggies=ctx.flip(0.5, 'nmgy'), useObjcType=ctx.flip(0.5, 'objc'))
            if ctx.flip(0.3, 'bands'):
                kw['bands'] = ctx.pick([['r'], ['g', 'i'], ['z', 'u', 'r']], 'which-bands')
            if ctx.flip(0.2, 'extrabands'):
                kw['extrabands'] = ['w1']
            if ctx.flip(0.3, 'fixed-composites'):
                kw['fixedComposites'] = True
            if ctx.flip(0.3, 'indices'):
                kw['getobjinds'] = True
            retry = False

            def load(s, faulty):
                f = T.get_tractor_sources_dr9 if faulty and ctx.flip(0.2, 'dr9') else T.get_tractor_sources_dr8
                k2 = dict((k, list(v) if isinstance(v, list) else v) for k, v in kw.items())
                X = f(RUN, CAMCOL, field, sdss=s, retrieve=retrieve, checkFiles=check and faulty, **k2)
                return tuple(X) if kw.get('getobjinds') else (X, None)
            ref = describe_sources(load(intact, False)[0])

        phase = dict(forced=0)
        late = []                                   # faults after the re-fetch began

        def started():
            return any(f[1] for f in store.fetches)
        acts = {}
        for k in ('read-error', 'damaged-meanwhile', 'interrupt'):
            if ctx.fault(k, 0.25 if k != 'interrupt' else 0.1):
                n = ctx.between(1, 8, 'nth-open')
                if k == 'read-error':
                    def act():
                        fired.append('read-error')
                        if started():
                            late.append('read-error')
                        raise OSError('injected: input/output error')
                elif k == 'interrupt':
                    def act():
                        fired.append('interrupt')
                        raise InjectedInterrupt('injected')
                else:
                    def act():
                        v = ctx.pick(ks, 'victim')
                        if os.path.exists(store.path(v)):
                            fired.append('damaged-meanwhile')
                            if started():
                                late.append('damaged-meanwhile')
                            hurt(v)
                acts[n] = act
        clean = all(store.good(k) for k in ks) and not store.pending
        missing = [k for k in ks if not os.path.exists(store.path(k))]
        store.outcome = outcome
        opens.arm(acts)
        err = None
        try:
            got = load(store, True)
            st = 'ok'
        except InjectedInterrupt:
            st = 'interrupt'
        except Exception as e:
            st, err = 'error', e
        opens.arm({})
        store.outcome = lambda ft: 'ok'
        for f in fired:
            ctx.injected('fired:' + f)
        bad = [f for f in store.fetches if f[2] != 'ok']
        where = '%s field %d band %s %s retrieve=%s retry=%s; clean store %s; fetches %s; faults fired %s' % (
            what, field, band, dict((k, v) for k, v in kw.items()), retrieve, retry, clean, store.fetches, fired)
        ctx.op(what, field, band, sorted(kw.items(), key=str), retrieve, retry, clean, store.fetches, fired, st)
        ctx.state(what, retrieve, retry, clean, tuple(f[2] for f in store.fetches), tuple(fired), st)
        if 'interrupt' in fired:
            ctx.check(st == 'interrupt', 'interrupt swallowed', where + ': ' + st)
            store.land()
            continue
        if st == 'ok':
            D = describe(*got) if what == 'image' else describe_sources(got[0])
            ctx.check(values.same(values.canon(D), values.canon(ref), 1e-9), 'wrong ' + what, where + ': ' + str(values.why(values.canon(D), values.canon(ref), 1e-9))[:300])
            if what == 'image' and D is not None:
                independent(ctx, where, D, field, band, kw, roi or (0, 100, 0, 100), intact)
            if what == 'catalogue':
                check_catalogue(ctx, where, D, got[1], field, kw)
            ctx.probe('loaded-' + what)
            if store.fetches:
                ctx.probe('loaded-after-fetch')
        else:
            ctx.probe('error')
            cause = bool(fired) or not clean or bool(bad) or (what == 'catalogue' and check and verify == 'absent' and not retrieve)
            ctx.check(cause, 'error without cause', where + ': %r' % err)
            if retry:
                # the second attempt must have had a cause of its own
                own = bool(late) or any(f[1] and f[2] == 'raises' for f in store.fetches)
                i = max([j for j, f in enumerate(store.fetches) if f[1]] + [-1])
                own = own or any(f[2] != 'ok' for f in store.fetches[i + 1:]) if i >= 0 else own
                own = own or not all(store.good(k) for k in ks) or any(f[2] == 'late' and f[1] for f in store.fetches)
                # the fetches of the first attempt may themselves have been the reason
                ctx.check(own, 'gave up', where + ': the re-fetched files were good, but %r' % err)
            elif what == 'catalogue' and retrieve and kw is not None and check:
                # files that fail their verification are fetched again
                ctx.check(bool(fired) or bool(bad) or (verify == 'absent' and not all(store.good(k) for k in ks)), 'gave up', where + ': %r' % err)
        forced = [f[0] for f in store.fetches if f[1]]
        if what == 'image' and forced and not any(f[2] == 'raises' for f in store.fetches):
            ctx.check(sorted(forced) == sorted(TYPES), 'not all fetched again', where)
        if what == 'image' and retry and st == 'error':
            # (a re-fetch that raises ends it)
            ctx.check(sorted(forced) == sorted(TYPES) or any(f[1] and f[2] == 'raises' for f in store.fetches), 'not all fetched again', where)
        # nothing fetched without need
        if clean and not fired and not bad and not (what == 'catalogue' and verify == 'absent'):
            ctx.check(not store.fetches, 'fetched again', where)
        if not retry and what == 'image':
            ctx.check(not any(f[1] for f in store.fetches), 'fetched again', where)
        store.land()
