"""C12: a tile is loaded as a unit from the first directory that holds all of it.

Simulated tile directories in a scratch tree: every directory holds its own version of
the tile (all pixel values differ between directories, files, bands and tiles), files are
missing, truncated, empty, garbage or directories, opens fail, and files vanish or are
damaged while the load is under way.  The reference is a path search and cut-out model
written here from the arrays that were stored, with its own tangent projection."""
import gzip
import os
import shutil
import tempfile

import numpy as np

from sim.core import InjectedInterrupt

TIERS = dict(quick=dict(runs=3000, wall=260), thorough=dict(runs=150000, wall=3000))
RULE = ('one evaluation = one simulated run: 1..3 tile directories in random states and 1..4 loads with seeded files missing or damaged, opens that fail, files that vanish during the load '
        'and interrupts; every load is compared with the reference search and cut-out model; distinct_nontrivial counts runs with distinct (directory states, region, fault) digests '
        'in which a load returned an image or met a fault')
COMPONENTS = dict(real=['wise/unwise.py', 'tractor image, WCS and PSF classes', 'fitsio/CFITSIO, astrometry Tan, kernel file I/O in a scratch directory'],
                  stub=['the open of a file through fitsio (fails, is interrupted, or the directory changes just before it, at a seeded open)'])
KINDS = ['img', 'invvar', 'n', 'nu']
TILE = '1234p567'


def preload():
    import fitsio                                   # noqa: F401
    import astrometry.util.util                     # noqa: F401
    import tractor                                  # noqa: F401
    import tractor.tractortime                      # noqa: F401
    import wise.unwise                              # noqa: F401


def reference_psf():
    import fitsio
    import wise.unwise
    fn = os.path.join(os.path.dirname(wise.unwise.__file__), 'wise-psf-avg.fits')
    out = {}
    with fitsio.FITS(fn) as F:
        for b in (1, 2, 3, 4):
            T = F[b].read()
            names = dict((n.lower(), n) for n in T.dtype.names)
            out[b] = [np.array(T[names[k]], float) for k in ('amp', 'mean', 'var')]
    return out


class Tile(object):
    """One version of one tile's files in one band."""

    def __init__(self, ctx, k, W, H, crval, pixscale, mjd, off=(0, 0)):
        rs = np.random.RandomState(ctx.bits('pixels'))
        self.k, self.W, self.H, self.crval, self.pixscale, self.mjd = k, W, H, crval, pixscale, mjd
        # zero-indexed reference pixel
        self.cx, self.cy = (W - 1) / 2. + off[0], (H - 1) / 2. + off[1]
        self.a = dict(img=rs.normal(size=(H, W)).astype(np.float32) + 10 * k,
                      invvar=(rs.uniform(0.5, 2., size=(H, W)) + 3 * k).astype(np.float32))
        n = rs.randint(1, 6, size=(H, W)) + 10 * k
        n[rs.uniform(size=(H, W)) < 0.2] = 0
        self.a['n'] = n.astype(np.int16)
        self.a['nu'] = (n + rs.randint(0, 3, size=(H, W)) + 100).astype(np.int16)
        self.u = dict(img=self.a['img'] + 500, invvar=self.a['invvar'] + 20)
        z = rs.uniform(size=(H, W)) < 0.1
        self.a['invvar'][z] = 0.

    def array(self, kind, masked):
        if not masked and kind in self.u:
            return self.u[kind]
        if not masked and kind == 'n':
            return self.a['nu']
        return self.a[kind]

    def header(self):
        import fitsio
        h = fitsio.FITSHDR()
        p = self.pixscale / 3600.
        for n, v in [('CTYPE1', 'RA---TAN'), ('CTYPE2', 'DEC--TAN'), ('CRVAL1', self.crval[0]), ('CRVAL2', self.crval[1]),
                     ('CRPIX1', self.cx + 1), ('CRPIX2', self.cy + 1), ('CD1_1', -p), ('CD1_2', 0.), ('CD2_1', 0.), ('CD2_2', p),
                     ('VERS', self.k)]:
            h.add_record(dict(name=n, value=v))
        if self.mjd is not None:
            h.add_record(dict(name='MJDMIN', value=self.mjd[0]))
            h.add_record(dict(name='MJDMAX', value=self.mjd[1]))
        return h

    def pixel(self, ra, dec):
        """Zero-indexed pixel of a position (gnomonic), None behind the tangent plane."""
        r, d = np.deg2rad(ra), np.deg2rad(dec)
        r0, d0 = np.deg2rad(self.crval[0]), np.deg2rad(self.crval[1])
        c = np.sin(d0) * np.sin(d) + np.cos(d0) * np.cos(d) * np.cos(r - r0)
        if c <= 1e-9:
            return None
        xi = np.rad2deg(np.cos(d) * np.sin(r - r0) / c)
        eta = np.rad2deg((np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(r - r0)) / c)
        p = self.pixscale / 3600.
        return self.cx - xi / p, self.cy + eta / p

    def position(self, x, y):
        """Inverse of pixel()."""
        p = np.deg2rad(self.pixscale / 3600.)
        xi, eta = -(x - self.cx) * p, (y - self.cy) * p
        r0, d0 = np.deg2rad(self.crval[0]), np.deg2rad(self.crval[1])
        den = np.cos(d0) - eta * np.sin(d0)
        ra = r0 + np.arctan2(xi, den)
        dec = np.arctan2(np.sin(d0) + eta * np.cos(d0), np.hypot(xi, den))
        return np.rad2deg(ra) % 360., np.rad2deg(dec)


def names(basedir, tile, band, kind, masked):
    mu = 'm' if masked else 'u'
    b = os.path.join(basedir, tile[:3], tile, 'unwise-%s-w%i-' % (tile, band))
    if kind == 'img':
        return [b + 'img-%s.fits' % mu]
    if kind == 'invvar':
        s = b + 'invvar-%s.fits' % mu
    elif kind == 'n':
        s = b + 'n-%s.fits' % mu
    else:
        s = b + 'n-u.fits'
    return [s + '.gz', s]


def write(fn, arr, hdr):
    import fitsio
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    tmp = fn + '.tmp.fits'
    fitsio.write(tmp, arr, header=hdr, clobber=True)
    if fn.endswith('.gz'):
        with open(tmp, 'rb') as f:
            data = f.read()
        with gzip.GzipFile(fn, 'wb', compresslevel=1, mtime=0) as g:
            g.write(data)
        os.remove(tmp)
    else:
        os.rename(tmp, fn)


def damage(ctx, fn, how):
    if how == 'missing':
        os.remove(fn)
    elif how == 'dangling':
        os.remove(fn)
        os.symlink(fn + '.gone', fn)
    elif how == 'directory':
        os.remove(fn)
        os.mkdir(fn)
    elif how == 'empty':
        open(fn, 'wb').close()
    elif how == 'garbage':
        with open(fn, 'wb') as f:
            f.write(b'<html>404 not found</html>' * 50)
    elif how == 'truncated':
        n = os.path.getsize(fn)
        k = ctx.draw(n, 'bytes-kept') if ctx.flip(0.5, 'anywhere') else max(0, n - 1 - ctx.draw(min(n, 3000), 'bytes-lost'))
        with open(fn, 'r+b') as f:
            f.truncate(k)


class Opens(object):
    """Opens through fitsio report here: one of them fails, is interrupted, or
    finds the directory changed."""

    def __init__(self):
        import fitsio
        cls = fitsio.FITS
        orig = cls.__init__
        me = self
        me.n, me.at, me.act = 0, None, None

        def init(s, *a, **k):
            me.n += 1
            if me.n == me.at:
                me.act()
            return orig(s, *a, **k)
        cls.__init__ = init

    def arm(self, at, act):
        self.n, self.at, self.act, self.done = 0, at, act, False


def region(ctx, T, every):
    """(kwargs of a region, drawn around version T); no explicit region leaves any version."""
    kind = ctx.pick(['full', 'roi', 'size', 'box', 'size', 'box'], 'region')
    W, H = min(t.W for t in every), min(t.H for t in every)
    if kind == 'full':
        return {}
    if kind == 'roi':
        x0, y0 = ctx.draw(W - 1, 'x0'), ctx.draw(H - 1, 'y0')
        return dict(roi=(x0, ctx.between(x0 + 1, W, 'x1'), y0, ctx.between(y0 + 1, H, 'y1')))
    # a centre anywhere from well inside to well outside, off the half-pixel ties
    where = ctx.wpick([(4, 'near'), (1, 'far'), (0.5, 'opposite')], 'where')
    if kind == 'size':
        S = ctx.between(0, 12, 'half-size')
        if where == 'near':
            x, y = ctx.between(-15, W + 15, 'xc') + ctx.unif(-0.4, 0.4, 'fx'), ctx.between(-15, H + 15, 'yc') + ctx.unif(-0.4, 0.4, 'fy')
            ra, dec = T.position(x, y)
        elif where == 'far':
            ra, dec = (T.crval[0] + ctx.pick([5., -5., 60.], 'dra')) % 360., T.crval[1] * 0.5
        else:
            ra, dec = (T.crval[0] + 180.) % 360., -T.crval[1] + ctx.unif(-10., 10., 'ddec')
        return dict(roiradecsize=(ra, dec, S))
    # boxes small enough not to wrap
    if where == 'near':
        xa, ya = ctx.between(-15, W + 15, 'xa') + ctx.unif(-0.3, 0.3, 'fx'), ctx.between(-15, H + 15, 'ya') + ctx.unif(-0.3, 0.3, 'fy')
        xb, yb = xa - ctx.unif(0., 25., 'dx'), ya + ctx.unif(0., 25., 'dy')
        (r0, d0), (r1, d1) = T.position(xa, ya), T.position(xb, yb)
    elif where == 'far':
        r0, d0 = (T.crval[0] + ctx.pick([5., -5., 60.], 'dra')) % 360., T.crval[1] * 0.5
        r1, d1 = r0 + 0.01, d0 + 0.01
    else:
        r0, d0 = (T.crval[0] + 180.) % 360., -T.crval[1]
        r1, d1 = r0 + 0.01, d0 + 0.01
    return dict(roiradecbox=(r0, r1, d0, d1))


def cutout(kw, T):
    """The part of version T that the region covers; None: no overlap; 'any': a rounding tie."""
    W, H = T.W, T.H
    if not kw:
        return (0, W, 0, H)
    if 'roi' in kw:
        return kw['roi']
    if 'roiradecsize' in kw:
        ra, dec, S = kw['roiradecsize']
        pp = [T.pixel(ra, dec)]
    else:
        S = 0
        r0, r1, d0, d1 = kw['roiradecbox']
        pp = [T.pixel(r, d) for r, d in ((r0, d0), (r1, d0), (r0, d1), (r1, d1))]
    if any(p is None for p in pp):
        return None
    pp = np.array(pp)
    if np.any(np.abs(pp - np.floor(pp) - 0.5) < 1e-4):
        return 'any'
    pp = np.round(pp)
    lim = int(pp[:, 0].min()) - S, int(pp[:, 0].max()) + S + 1, int(pp[:, 1].min()) - S, int(pp[:, 1].max()) + S + 1
    c = [min(max(lim[0], 0), W), min(max(lim[1], 0), W), min(max(lim[2], 0), H), min(max(lim[3], 0), H)]
    if c[0] == c[1] or c[2] == c[3]:
        return None
    return tuple(c)


def compare(tim, T, roi, masked, band, bandname, psfs):
    """What of the image differs from version T's cut-out (None if nothing)."""
    from tractor import NanoMaggies, RaDecPos
    x0, x1, y0, y1 = roi
    s = (slice(y0, y1), slice(x0, x1))
    n = T.array('n', masked)[s]
    iv = T.array('invvar', masked)[s].copy()
    if band == 4:
        iv = iv * 0.25
    iv[n <= 0] = 0.
    want = [('pixels', np.asarray(tim.getImage()), T.array('img', masked)[s], 0), ('inverse variance', np.asarray(tim.getInvvar()), iv, 1e-5),
            ('number of exposures', np.asarray(tim.nims), n, 0), ('number of exposures (unmasked)', np.asarray(tim.nuims), T.a['nu'][s], 0)]
    for nm, got, exp, tol in want:
        if got.shape != exp.shape:
            return '%s: shape %s, should be %s' % (nm, got.shape, exp.shape)
        d = np.abs(got.astype(float) - exp.astype(float))
        if not np.all(d <= tol * (1 + np.abs(exp.astype(float)))):
            return '%s: differ by up to %g' % (nm, np.nanmax(d))
    if [int(v) for v in tim.roi] != list(roi):
        return 'roi %s, should be %s' % (tim.roi, roi)
    if tim.hdr['VERS'] != T.k:
        return 'header of version %s' % tim.hdr['VERS']
    good = iv[n > 0]
    if len(good) and np.median(good) > 0 and abs(tim.sig1 * np.sqrt(np.median(good)) - 1.) > 1e-4:
        return 'sig1 %g, should be %g' % (tim.sig1, 1. / np.sqrt(np.median(good)))
    for x, y in ((0., 0.), (x1 - x0 - 1., 0.), (3.25, y1 - y0 + 2.5)):
        ra, dec = T.position(x + x0, y + y0)
        gx, gy = tim.getWcs().positionToPixel(RaDecPos(ra, dec))
        if abs(gx - x) > 1e-3 or abs(gy - y) > 1e-3:
            return 'position of pixel %g,%g is at %g,%g' % (x, y, gx, gy)
    c = tim.getPhotoCal().brightnessToCounts(NanoMaggies(**{bandname: 7.25}))
    if abs(c - 7.25) > 1e-6:
        return 'counts %g for a flux of 7.25 in %s' % (c, bandname)
    a, m, v = psfs[band]
    g = tim.getPsf().getMixtureOfGaussians(px=0., py=0.)
    if not (np.allclose(g.amp, a, rtol=1e-5) and np.allclose(g.mean, m, rtol=1e-5, atol=1e-7) and np.allclose(g.var, v, rtol=1e-5, atol=1e-7)):
        return 'PSF is not that of band %d' % band
    sky = np.zeros((2, 2))
    tim.getSky().addTo(sky)
    if np.any(sky != 0):
        return 'sky %s' % sky
    if T.mjd is not None and abs(tim.time.toMjd() - 0.5 * (T.mjd[0] + T.mjd[1])) > 1e-4:
        return 'time %s' % tim.time
    return None


def run(ctx):
    import fitsio                                   # noqa: F401
    from wise import unwise
    d = tempfile.mkdtemp(prefix='verif-c12-')
    ctx.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
    ctx.swarm(['missing', 'damaged', 'open-fails', 'changes', 'interrupt'], 0.55)
    psfs = reference_psf()
    W, H = ctx.between(12, 30, 'W'), ctx.between(12, 30, 'H')
    crval = (ctx.pick([12.5, 180., 0.01, 359.9], 'ra'), ctx.pick([0., 30., -62.], 'dec'))
    mjd = ctx.pick([None, (55000.5, 55010.25)], 'mjd')
    bands = ctx.pick([[1], [4], [2, 3], [1, 4]], 'bands')
    ndir = ctx.between(1, 3, 'dirs')
    dirs = [os.path.join(d, 'dir%d' % i) for i in range(ndir)]
    other = ctx.flip(0.3, 'other-tile')
    tiles = [TILE] + (['1239m015'] if other else [])
    V = {}
    k = 0
    cuts = ctx.flip(0.4, 'different-cuts')
    bad = set()                                     # damaged files that still exist
    state = []
    for i, dd in enumerate(dirs):
        if ctx.flip(0.1, 'no-such-dir'):
            state.append('absent')
            continue
        for tile in tiles:
            for band in bands:
                k += 1
                if cuts:
                    # this directory's version of the tile covers another part of the sky
                    T = Tile(ctx, k, W + ctx.draw(4, 'dw'), H + ctx.draw(4, 'dh'), crval, 2.75, mjd, (ctx.between(-6, 6, 'ox'), ctx.between(-6, 6, 'oy')))
                else:
                    T = Tile(ctx, k, W, H, crval, 2.75, mjd)
                V[i, tile, band] = T
                for masked in (True, False):
                    for kind in KINDS:
                        if kind == 'nu' and not masked:
                            continue
                        nn = names(dd, tile, band, kind, masked)
                        form = ctx.pick(['gz', 'plain', 'both'] if len(nn) > 1 else ['gz'], 'form')
                        use = nn if form == 'both' else ([nn[0]] if form == 'gz' else [nn[1]])
                        if not masked and kind == 'n':
                            # the same file as "nu"
                            continue
                        for fn in use:
                            write(fn, T.array(kind, masked), T.header())
    ctx.check(True, 'setup')
    allfiles = sorted(os.path.join(p, f) for p, _, ff in os.walk(d) for f in ff)
    for fn in allfiles:
        if ctx.fault('missing', 0.12):
            damage(ctx, fn, ctx.pick(['missing', 'dangling'], 'how'))
            ctx.op('missing', fn[len(d):])
        elif ctx.fault('damaged', 0.08):
            how = ctx.pick(['truncated', 'truncated', 'empty', 'garbage', 'directory'], 'how')
            damage(ctx, fn, how)
            bad.add(fn)
            ctx.op(how, fn[len(d):])
    opens = Opens()

    def chosen(tile, band, masked):
        """Index of the first directory with all files, and whether a damaged file
        was met on the way or in it."""
        met = False
        for i, dd in enumerate(dirs):
            have = True
            for kind in KINDS:
                f = [fn for fn in names(dd, tile, band, kind, masked) if os.path.exists(fn)]
                if not f:
                    have = False
                elif f[0] in bad or (len(f) > 1 and f[1] in bad):
                    met = True
            if have:
                return i, met
        return None, met

    for _ in range(ctx.between(1, 4, 'loads')):
        tile, band = ctx.pick(tiles, 'tile'), ctx.pick(bands, 'band')
        masked = ctx.flip(0.7, 'masked')
        bandname = ctx.pick([None, 'w'], 'bandname')
        every = [V[x] for x in sorted(V) if x[1:] == (tile, band)]
        kw = region(ctx, ctx.pick(every, 'around'), every) if every else {}
        rois = dict((x[0], cutout(kw, V[x])) for x in sorted(V) if x[1:] == (tile, band))
        if 'any' in rois.values():
            continue
        i, met = chosen(tile, band, masked)
        roi = rois.get(i, None)
        missed = any(v is None for v in rois.values())
        if met and not ctx.flip(0.5, 'load-anyway'):
            continue
        fault = None
        at = ctx.between(1, 5, 'nth-open')
        fired = []
        before = i
        if ctx.fault('open-fails', 0.2):
            fault = 'open-fails'

            def act():
                fired.append('open-fails')
                raise OSError('injected: input/output error')
        elif ctx.fault('interrupt', 0.1):
            fault = 'interrupt'

            def act():
                fired.append('interrupt')
                raise InjectedInterrupt('injected')
        elif ctx.fault('changes', 0.2):
            fault = 'changes'
            files = sorted(os.path.join(p, f) for p, _, ff in os.walk(d) for f in ff)
            files = [f for f in files if f not in bad and not os.path.islink(f)]
            victim = ctx.pick(files, 'victim') if files else None
            how = ctx.pick(['missing', 'truncated', 'empty'], 'how')
            if victim is None:
                fault = None

            def act():
                if os.path.exists(victim):
                    fired.append('changes')
                    damage(ctx, victim, how)
                    if os.path.exists(victim):
                        bad.add(victim)
        opens.arm(at if fault else None, act if fault else None)
        kwargs = dict(kw)
        if not masked or ctx.flip(0.5, 'say-masked'):
            kwargs['masked'] = masked
        if bandname:
            kwargs['bandname'] = bandname
        try:
            tim = unwise.get_unwise_tractor_image(':'.join(dirs), tile, band, **kwargs)
            st = 'none' if tim is None else 'image'
        except InjectedInterrupt:
            st, tim = 'interrupt', None
        except Exception as e:
            st, tim, err = 'error', None, e
        opens.arm(None, None)
        for f in fired:
            ctx.injected('fired:' + f)
        ctx.op('load', tile, band, masked, sorted(kw), roi, fault, fired, st)
        ctx.state(i, met, fault, bool(fired), st, roi is None)
        where = 'tile %s band %d masked %s region %s (directory %s first complete, fault %s%s)' % (tile, band, masked, kw, i, fault if fired else None, ', damaged files met' if met else '')
        if st == 'interrupt':
            ctx.check('interrupt' in fired, 'stray interrupt', where)
            continue
        if 'interrupt' in fired:
            ctx.check(False, 'interrupt swallowed', where + ': gave ' + st)
        if st == 'image':
            # whatever the faults: a complete version of the first complete directory
            cands = [i]
            if 'changes' in fired:
                cands.append(chosen(tile, band, masked)[0])
            whys = []
            for c in cands:
                if c is None or rois[c] is None:
                    whys.append('there is none' if c is None else 'the region misses the tile')
                    continue
                whys.append(compare(tim, V[c, tile, band], rois[c], masked, band, bandname or 'w%i' % band, psfs))
            ctx.check(any(w is None for w in whys), 'wrong image', where + ': ' + '; '.join(str(w) for w in whys))
            ctx.probe('image')
        elif st == 'none':
            ctx.check(missed, 'nothing returned', where + ': the region overlaps the tile')
            ctx.probe('no-overlap')
        else:
            ok = met or bool(fired) or i is None
            ctx.check(ok, 'error without cause', where + ': %s: %s' % (type(err).__name__, err))
            if i is None and not met and not fired:
                ctx.check(isinstance(err, (IOError, OSError)), 'wrong error', where + ': %r' % err)
            ctx.probe('error')
