"""C08: forced photometry sets the brightnesses (and sky levels) to the weighted
least-squares solution, reports that solution's statistics, and changes nothing
else -- and a failed fit leaves everything as it was."""
import pickle
import numpy as np

from sim import scenes, engines
from sim.inject import Injector, hook_engine, choose_point, solvers, EXCS

TIERS = dict(quick=dict(runs=5000, wall=260), thorough=dict(runs=60000, wall=3000))
RULE = ('one evaluation = one simulated run: a random linear scene and a history of forced-photometry fits with varying options, starting values and '
        'solvers under seeded solver faults and interrupts; distinct_nontrivial counts runs with distinct operation/fault digests in which a fault fired')
COMPONENTS = dict(real=['tractor forced photometry (LSQR and compiled Ceres), engine, sources, PSFs, WCS, calibration, sky', 'scipy/Ceres solvers'],
                  stub=['the simulator raises from callbacks and solvers and replaces solver results'])


def preload():
    scenes.preload()


class Case(object):
    pass


def make(ctx):
    c = Case()
    c.psfs = ctx.pick([None, ['ncirc', 'mog'], ['hybrid', 'pix']], 'psf-set')
    kw = {}
    if c.psfs:
        kw['psfs'] = c.psfs
    sc = scenes.make_scene(ctx, nim=(1, 3), nsrc=(1, 4), brights=['nmgy', 'nmgy', 'nmgy2'], sky=('const',), **kw)
    c.scene = sc
    c.band = None
    if sc.bkind == 'nmgy2':
        # (a two-band catalog fitted in the images of one band)
        c.band = ctx.pick(['g', 'r'], 'band')
        for im in sc.images:
            im.photocal.band = c.band
        from tractor import Tractor
        tr = Tractor(sc.images, sc.sources)
        rs = np.random.RandomState(ctx.bits('band-noise'))
        for im in sc.images:
            im.setImage((tr.getModelImage(im) + rs.normal(size=im.shape) * im.sig).astype(np.float32))
    # regions without data, up to hiding whole sources
    if ctx.flip(0.3, 'masked-regions'):
        rs = np.random.RandomState(ctx.bits('masked-regions'))
        small = ctx.flip(0.6, 'small-models')
        for im in sc.images:
            if rs.uniform() < 0.7:
                H, W = im.shape
                ie = im.getInvError().copy()
                if small:
                    # everything around one source
                    s = sc.sources[rs.randint(len(sc.sources))]
                    x, y = im.getWcs().positionToPixel(s.getPosition(), s)
                    x0, y0 = max(0, int(x) - 6), max(0, int(y) - 6)
                    ie[y0:y0 + 13, x0:x0 + 13] = 0.
                else:
                    x0, y0 = rs.randint(0, W - 4), rs.randint(0, H - 4)
                    ie[y0:y0 + rs.randint(4, H), x0:x0 + rs.randint(4, W)] = 0.
                if np.any(ie > 0):
                    im.setInvError(ie)
        if small:
            for k, s in zip(sc.srckinds, sc.sources):
                if k == 'ptsrc':
                    s.fixedRadius = 3
                elif k in ('exp', 'dev', 'gauss', 'sersic'):
                    s.halfsize = 4
    # start somewhere else
    rs = np.random.RandomState(ctx.bits('start'))
    for s in sc.sources:
        for b in s.getBrightnesses():
            b.setParams([abs(x) * rs.uniform(0.2, 3.) + 1. for x in b.getParams()])
    c.blob = pickle.dumps((sc.images, sc.sources))
    c.frozen = sorted(set(ctx.draw(len(sc.sources), 'frozen-source') for _ in range(ctx.pick([0, 0, 1, 2], 'n-frozen'))))
    if len(c.frozen) == len(sc.sources):
        c.frozen = c.frozen[1:]
    c.dead = [j for j in c.frozen if ctx.flip(0.5, 'all-frozen')]
    c.sky = ctx.flip(0.35, 'sky')
    # Gaussian priors on some fluxes (used only where a fit asks for them)
    c.priors = {}
    if ctx.flip(0.3, 'flux-priors'):
        for j, s in enumerate(sc.sources):
            for k, b in enumerate(s.getBrightnesses()):
                if j not in c.frozen and ctx.flip(0.6, 'flux-prior'):
                    nm = c.band or 'r'
                    c.priors[(j, k)] = (nm, abs(getattr(b, nm)) * ctx.unif(0.3, 2., 'mu'), ctx.pick([0.5, 5., 50.], 'sigma'))
        ctx.log('flux priors', sorted(c.priors.items()))
    c.masks = None
    c.assume = False
    # (galaxies off their mask are not supported with purely pixelized PSFs)
    if all(k in ('ncirc', 'mog', 'mogell', 'hybrid') for k in sc.psfkinds) and ctx.flip(0.5, 'masks'):
        c.assume = ctx.flip(0.5, 'assume-masks')
        c.masks = []
        rs = np.random.RandomState(ctx.bits('model-masks'))
        for im in sc.images:
            H, W = im.shape
            row = []
            for j in range(len(sc.sources)):
                if not c.assume and rs.uniform() < 0.3:
                    row.append(None)
                    continue
                # (a source may reach over its mask, or lie off it)
                x0, y0 = rs.randint(0, W // 2), rs.randint(0, H // 2)
                row.append((x0, y0, W - x0 - rs.randint(0, W // 3), H - y0 - rs.randint(0, H // 3)))
            c.masks.append(row)
        ctx.log('model masks', c.masks)
    return c


def build(c, opt, order=None, imorder=None):
    from tractor import Tractor
    ims, srcs = pickle.loads(c.blob)
    for (j, k), pr in c.priors.items():
        srcs[j].getBrightnesses()[k].addGaussianPrior(*pr)
    tr = Tractor(ims, srcs, optimizer=engines.make_optimizer(opt))
    tr.freezeParamsRecursive('*')
    for s in srcs:
        s.thawPathsTo(*set(n for b in s.getBrightnesses() for n in ([c.band] if c.band else names_of(b))))
    tr.thawParam('catalog')
    for j in range(len(srcs)):
        tr.catalog.thawParam(j)
    for j in c.frozen:
        tr.catalog.freezeParam(j)
        if j in c.dead:
            srcs[j].freezeAllRecursive()
    if c.masks is not None:
        from tractor.patch import ModelMask
        tr.setModelMasks([dict((s, ModelMask(*m)) for s, m in zip(srcs, row) if m is not None) for row in c.masks], assumeMasks=c.assume)
    if c.sky:
        tr.thawParam('images')
        for i, im in enumerate(ims):
            tr.images.thawParam(i)
            im.thawParam('sky')
            im.sky.thawAllParams() if hasattr(im.sky, 'thawAllParams') else None
    return tr


def names_of(b):
    return list(b.getNamedParams().keys()) if hasattr(b, 'getNamedParams') and b.getNamedParams() else [nm for nm in b.getParamNames()] or ['r']


def design(P, c, rois, priors=False):
    """Weighted design matrix from unit-flux models, one column per parameter
    (sky first), and a function giving the fixed part of the model."""
    srcs = [s for j, s in enumerate(P.catalog) if j not in c.frozen]
    ncomp = []
    for s in srcs:
        ncomp.append(len(s.getBrightnesses()))
    ncol = sum(ncomp)
    per_im = []
    for i, im in enumerate(P.images):
        sc = im.getPhotoCal().getScale()
        block = []
        for s in srcs:
            # (a source that starts with no flux gets a truncated profile)
            flux0 = sum(im.getPhotoCal().brightnessToCounts(b) for b in s.getBrightnesses())
            ums = s.getUnitFluxModelPatches(im, minval=0. if flux0 > 0 else 1e-3, modelMask=P._getModelMaskFor(im, s))
            for u in ums:
                block.append(scenes.canvas(u, im.shape) * sc)
        fsrcs = [P.catalog[j] for j in c.frozen]
        fixed = P.getModelImage(im, fsrcs, minsb=0., sky=False).astype(float)
        if rois and c.scene.psfkinds[i] not in ('ncirc', 'mog', 'mogell'):
            # (interpolated PSFs may be interpolated differently in the sub-image)
            r = rois[i]
            fixed[r] = P.getModelImage(im.subimage(r[1].start, r[1].stop, r[0].start, r[0].stop), fsrcs, minsb=0., sky=False)
        per_im.append((block, fixed))
    prows = []
    if priors:
        k = len(P.images) if c.sky else 0
        for j in range(len(P.catalog)):
            if j in c.frozen:
                continue
            for n in range(len(P.catalog[j].getBrightnesses())):
                if (j, n) in c.priors:
                    prows.append((k,) + c.priors[(j, n)][1:])
                k += 1
    slc = [r if r is not None else (slice(None), slice(None)) for r in (rois or [None] * len(P.images))]
    M, F, D, E = [], [], [], []
    nsky = len(P.images) if c.sky else 0
    offs = []
    for i, (im, (block, fixed)) in enumerate(zip(P.images, per_im)):
        r = slc[i]
        n = fixed[r].size
        m = np.zeros((n, nsky + ncol))
        if c.sky:
            m[:, i] = 1.
        else:
            fixed = fixed + im.getSky().getConstant() if hasattr(im.getSky(), 'getConstant') else fixed
        for k, b in enumerate(block):
            m[:, nsky + k] = b[r].ravel()
        M.append(m)
        F.append(fixed[r].ravel())
        D.append(im.getImage().astype(float)[r].ravel())
        E.append(im.getInvError().astype(float)[r].ravel())
        offs.append(fixed[r].shape)
    return dict(M=M, F=F, D=D, E=E, shapes=offs, nsky=nsky, ncomp=ncomp, srcs=srcs, priors=prows)


def chi2_of(d, p):
    t = 0.
    for M, F, D, E in zip(d['M'], d['F'], d['D'], d['E']):
        t += np.sum(((D - F - M.dot(p)) * E)**2)
    for k, mu, sigma in d['priors']:
        t += ((p[k] - mu) / sigma)**2
    return t


def solve(d):
    A = np.vstack([M * E[:, None] for M, E in zip(d['M'], d['E'])])
    b = np.concatenate([(D - F) * E for D, F, E in zip(d['D'], d['F'], d['E'])])
    iv = np.sum(A**2, axis=0)
    if d['priors']:
        R = np.zeros((len(d['priors']), A.shape[1]))
        for i, (k, mu, sigma) in enumerate(d['priors']):
            R[i, k] = 1. / sigma
        A = np.vstack((A, R))
        b = np.append(b, [mu / sigma for k, mu, sigma in d['priors']])
    s = np.sqrt(np.sum(A**2, axis=0))
    good = s > 0
    x = np.zeros(A.shape[1])
    if np.any(good):
        x[good] = np.linalg.lstsq(A[:, good] / s[good], b, rcond=1e-10)[0] / s[good]
    return A, iv, x, good, s


def run(ctx):
    c = make(ctx)
    opt = ctx.pick(['lsqr', 'lsqr', 'ceres'], 'solver')
    A = build(c, opt)
    if A.numberOfParams() == 0:
        return
    inj = Injector()
    hook_engine(A, inj)
    kinds = ctx.swarm(['interrupt', 'solver'], 0.6)
    ctx.log('forced photometry by', opt, 'sky' if c.sky else '', 'frozen', c.frozen)
    nfit = ctx.between(1, 3, 'n-fits')
    pars0 = list(A.getParams())
    for f in range(nfit):
        P = build(c, opt)
        start = list(A.getParams())
        if f > 0 and ctx.flip(0.6, 'new-start'):
            rs = np.random.RandomState(ctx.bits('restart'))
            how = ctx.pick(['scale', 'original', 'tiny', 'huge'], 'restart')
            if how == 'original':
                start = list(pars0)
            else:
                lo, hi = dict(scale=(0.1, 4.), tiny=(1e-3, 1e-2), huge=(10., 100.))[how]
                ns = len(A.images) if c.sky else 0
                start = [x if k < ns else abs(x) * rs.uniform(lo, hi) + 0.01 for k, x in enumerate(pars0)]
            A.setParams(start)
        if f > 0 and ctx.flip(0.3, 'new-pixels'):
            i = ctx.draw(len(A.images), 'image')
            rs = np.random.RandomState(ctx.bits('pixels'))
            pix = A.images[i].getImage() + rs.normal(size=A.images[i].shape).astype(np.float32)
            A.images[i].setImage(pix)
        # the reference holds the same pixels and starting values
        for ia, ip in zip(A.images, P.images):
            ip.setImage(ia.getImage().copy())
        P.setParams(start)
        kw = {}
        rois = None
        if ctx.flip(0.25, 'rois') and opt == 'lsqr' and (c.masks is None or not c.frozen):
            rois = []
            for im in A.images:
                H, W = im.shape
                y0, x0 = ctx.draw(5, 'y0'), ctx.draw(5, 'x0')
                rois.append((slice(y0, H - ctx.draw(4, 'y1')), slice(x0, W - ctx.draw(4, 'x1'))))
            kw['rois'] = rois
        fitstats = ctx.flip(0.5, 'fitstats')
        variance = ctx.flip(0.5, 'variance')
        if fitstats:
            kw['fitstats'] = True
        if variance:
            kw['variance'] = True
        if c.sky:
            kw['sky'] = True
            if variance and ctx.flip(0.5, 'skyvariance'):
                kw['skyvariance'] = True
        if ctx.flip(0.3, 'no-shared') and opt == 'lsqr':
            kw['shared_params'] = False
        if ctx.flip(0.25, 'wantims'):
            kw['wantims'] = False
        minflux = None
        if opt == 'lsqr' and ctx.flip(0.2, 'minflux'):
            minflux = kw['minFlux'] = ctx.pick([0., 5., -1000.], 'min-flux')
        nonneg = False
        if opt == 'ceres' and ctx.flip(0.2, 'nonneg'):
            nonneg = True
            kw['nonneg'] = True
            kw['negfluxval'] = 0.1
        extras = None
        if fitstats and not rois and ctx.flip(0.4, 'extras'):
            rs = np.random.RandomState(ctx.bits('extras'))
            extras = [(nm, [rs.uniform(size=im.shape) for im in A.images]) for nm in ('depth', 'seeing')[:ctx.between(1, 2, 'n-extras')]]
            kw['fitstat_extras'] = extras
        if opt == 'lsqr' and ctx.flip(0.6, 'priors'):
            kw['priors'] = True
        d = design(P, c, rois, kw.get('priors'))
        Am, iv, best, good, norms = solve(d)
        cmin = chi2_of(d, best)
        p0 = np.array(start)
        c0 = chi2_of(d, p0)
        ctx.log('fit', dict((k, v if k != 'fitstat_extras' else [n for n, _ in v]) for k, v in kw.items()), 'chi2', round(c0, 3), 'best', round(cmin, 3))
        before = engines.state(A)

        # 0. optionally, only the starting point is asked for
        if opt == 'lsqr' and ctx.flip(0.15, 'just-images'):
            kj = dict((k, v) for k, v in kw.items() if k not in ('fitstats', 'fitstat_extras'))
            res = A.optimize_forced_photometry(justims0=True, **kj)
            after = engines.state(A)
            ctx.check(before == after, 'fit-changed-engine', lambda: 'asking for the initial images only: %s -> %s' % (before, after))
            if minflux is None:
                ctx.check(abs(res.lnp0 + 0.5 * c0) <= 0.01 + 1e-4 * c0 or c.sky or 'priors' in kw, 'wrong-result-images', lambda: 'lnp0 %r with chi2 %r' % (res.lnp0, c0))
            check_ims(ctx, res, kw, d, p0, p0, rois, minflux)
            ctx.op('just images')

        # 1. optionally, attempts that fail
        fault = None
        if kinds and ctx.flip(0.6, 'faulty'):
            fault = ctx.pick(sorted(kinds), 'fault-kind')
        if fault == 'interrupt':
            # learn the calls on a twin (which also shows determinism of the fit)
            T = build(c, opt)
            for ia, it in zip(A.images, T.images):
                it.setImage(ia.getImage().copy())
            T.setParams(start)
            hook_engine(T, inj)
            inj.start()
            with solvers(inj):
                T.optimize_forced_photometry(**kw)
            names = list(inj.names)
            inj.stop()
            at = choose_point(ctx, names)
            ek = ctx.pick(sorted(EXCS), 'exception')
            when = ctx.pick(['before', 'after'], 'when')
            swallowed = (ek == 'zerodivide' and names[at] == 'solver')
            exc = None
            inj.start(at=at, what=EXCS[ek], when=when)
            try:
                with solvers(inj):
                    A.optimize_forced_photometry(**kw)
            except BaseException as e:
                exc = e
            fired = inj.fired
            inj.stop()
            if fired:
                ctx.injected('%s-%s' % (ek, names[at]))
                if not swallowed:
                    ctx.check(exc is not None and type(exc) is type(EXCS[ek]('x')), 'fault-swallowed',
                              lambda: '%s raised in %s (call %d of %d): caller saw %r' % (ek, names[at], at, len(names), exc))
                after = engines.state(A)
                for key in before:
                    if swallowed and minflux is not None and key in ('params', 'allparams'):
                        continue
                    ctx.check(before[key] == after[key], 'failed-fit-changed-engine',
                              lambda: 'after %s in %s: %s %s -> %s' % (ek, names[at], key, before[key], after[key]))
                if swallowed and minflux is not None:
                    A.setParams(start)
                ctx.op('failed fit')
        elif fault == 'solver' and opt == 'lsqr':
            sk = ctx.pick(['nan', 'flip', 'scale', 'zero', 'inf', 'zerodivide'], 'garbage')
            rs = np.random.RandomState(ctx.bits('garbage'))
            fired = []

            def garbage(res):
                if fired:
                    return res
                fired.append(1)
                X = np.array(res[0], float)
                if sk == 'nan':
                    X[rs.randint(len(X))] = np.nan
                elif sk == 'inf':
                    X[rs.randint(len(X))] = np.inf
                elif sk == 'flip':
                    X = -X
                elif sk == 'zero':
                    X = X * 0.
                elif sk == 'scale':
                    X = X * rs.uniform(-2., 3., size=len(X))
                elif sk == 'zerodivide':
                    raise ZeroDivisionError('injected')
                return (X.astype(res[0].dtype),) + tuple(res[1:])
            inj.start()
            inj.filters['solver'] = garbage
            with solvers(inj):
                A.optimize_forced_photometry(**kw)
            inj.stop()
            if fired:
                ctx.injected('solver-' + sk)
            p = np.array(A.getParams())
            ctx.check(np.all(np.isfinite(p)), 'non-finite-flux', lambda: '%s after a %s solve' % (p, sk))
            cc = chi2_of(d, p)
            ctx.check(cc <= c0 * (1 + 1e-5) + 0.05 or minflux is not None, 'fit-got-worse', lambda: 'chi2 %r -> %r after a %s solve' % (c0, cc, sk))
            after = engines.state(A)
            if sk in ('nan', 'inf', 'zerodivide') and minflux is None:
                ctx.check(list(p) == list(p0), 'failed-fit-changed-engine', lambda: 'fluxes %s -> %s after a %s solve' % (p0, p, sk))
            for key in before:
                if key not in ('params', 'allparams'):
                    ctx.check(before[key] == after[key], 'failed-fit-changed-engine', lambda: 'after a %s solve: %s' % (sk, key))
            A.setParams(start)
            ctx.op('bad solve')

        # 2. the fit itself
        before = engines.state(A)
        res = A.optimize_forced_photometry(**kw)
        ctx.op('fit', opt)
        after = engines.state(A)
        for key in before:
            if key not in ('params', 'allparams'):
                ctx.check(before[key] == after[key], 'fit-changed-engine', lambda: '%s: %s -> %s' % (key, before[key], after[key]))
        ctx.check(len(after['params']) == len(best), 'wrong-params', lambda: '%d parameters for %d columns' % (len(after['params']), len(best)))
        p = np.array(after['params'])
        # ... in particular no frozen band, shape or position
        P.setParams(list(p))
        ctx.check(engines.state(P)['allparams'] == after['allparams'], 'fit-changed-engine',
                  lambda: 'frozen parameters: %s, expected %s' % (after['allparams'], engines.state(P)['allparams']))
        # parameters that no pixel constrains may stay or become zero
        cc = chi2_of(d, p)
        tol = 0.01 + 2e-6 * (cmin + c0)
        if np.sum(good) > 1:
            sv = np.linalg.svd(Am[:, good] / norms[good], compute_uv=False)
            su = np.linalg.svd(Am[:, good], compute_uv=False)
            if sv[0] > 10. * sv[-1] or su[0] > (30. if c.sky else 300.) * su[-1]:
                # (nearly degenerate sources: the solvers stop early along the valley)
                tol += 15. + 0.05 * (c0 - cmin)
                ctx.probe('degenerate')
                if sv[0] > 60. * sv[-1]:
                    tol += 0.3 * (c0 - cmin)
                    ctx.probe('very-degenerate')
                elif c.sky:
                    tol += 0.15 * (c0 - cmin)
        if np.any(norms[good] < 1e-4):
            # (a source seen only by its far wings: as good as unconstrained)
            tol += 5.
        sig = np.where(norms > 0, 1. / np.maximum(norms, 1e-300), np.inf)
        nsky = d['nsky']
        isflux = np.arange(len(p)) >= nsky
        unconstrained_ok = True
        if minflux is not None:
            unconstrained_ok = np.all(best[isflux & good] > minflux + 5. * sig[isflux & good]) and np.all(good)
            ctx.check(np.all(p[isflux & good] >= minflux - 1e-6), 'below-min-flux', lambda: 'fluxes %s, minimum %r' % (p[isflux], minflux)) if np.all(p0[isflux] >= minflux) else None
        if nonneg:
            unconstrained_ok = np.all(best[isflux & good] > 10. * sig[isflux & good]) and not c.sky
            ctx.check(np.all(p[isflux] >= 0), 'negative-flux', lambda: 'fluxes %s' % (p[isflux],))
            tol += 0.2
        if unconstrained_ok:
            ctx.probe('optimum-checked')
            ctx.check(cc <= cmin + tol, 'not-least-squares',
                      lambda: 'chi2 %r at the fitted values %s; the least-squares solution %s has %r (start %s had %r)' % (cc, p, best, cmin, p0, c0))
        elif not c.sky and minflux is not None:
            # with a floor: at least no worse than the start (if that was allowed)
            if np.all(p0[isflux] >= minflux):
                ctx.check(cc <= c0 + tol, 'fit-got-worse', lambda: 'chi2 %r -> %r with minFlux %r' % (c0, cc, minflux))
        if variance:
            IV = np.array(res.IV)
            ref = iv
            if not kw.get('skyvariance'):
                ref = ref[nsky:]
            ctx.check(IV.shape == ref.shape and np.allclose(IV, ref, rtol=2e-3, atol=1e-8), 'wrong-variance',
                      lambda: 'inverse variances %s, expected %s' % (IV, ref))
        check_ims(ctx, res, kw, d, p0, p, rois, minflux)
        if fitstats and getattr(res, 'fitstats', None) is not None:
            check_stats(ctx, res.fitstats, d, p, A, c, extras)
        ctx.state(opt, bool(rois), minflux, nonneg, fault, round(cc - cmin, 3))


def check_ims(ctx, res, kw, d, p0, p, rois, minflux):
    for key, q in (('ims0', p0), ('ims1', p)):
        ims = getattr(res, key, None)
        if ims is None or minflux is not None:
            continue
        ctx.probe(key)
        for i, (img, mod, ie, chi, roi) in enumerate(ims):
            M, F, D, E = d['M'][i], d['F'][i], d['D'][i], d['E'][i]
            if mod.shape != d['shapes'][i]:
                ctx.check(False, 'wrong-result-images', '%s[%d] has shape %s, region %s' % (key, i, mod.shape, d['shapes'][i]))
            m = (F + M.dot(q)).reshape(mod.shape)
            if key == 'ims0' and d['nsky']:
                continue
            err = np.max(np.abs(m - mod))
            ctx.check(err <= 2e-3 + 3e-5 * np.max(np.abs(m)), 'wrong-result-images', lambda: '%s[%d] model differs by %r (max %r)' % (key, i, err, np.max(np.abs(m))))
            ec = np.max(np.abs((D.reshape(mod.shape) - m) * E.reshape(mod.shape) - chi))
            ctx.check(ec <= 5e-3 + 1e-4 * np.max(np.abs(m)), 'wrong-result-images', lambda: '%s[%d] chi differs by %r' % (key, i, ec))


def check_stats(ctx, fs, d, p, tr, c, extras=None):
    ctx.probe('fitstats')
    ns = d['nsky']
    nsrc = len(d['ncomp'])
    chi2 = []
    npix = []
    models = []
    for i in range(len(d['M'])):
        M, F, D, E = d['M'][i], d['F'][i], d['D'][i], d['E'][i]
        m = F + M.dot(p)
        chi2.append(np.sum(((D - m) * E)**2))
        npix.append(np.sum(E > 0))
        sky = p[i] if ns else tr.images[i].getSky().getConstant()
        models.append((m - sky, ((D - m) * E)))
    ctx.check(np.allclose(fs.imchisq, chi2, rtol=1e-3, atol=0.05), 'wrong-statistics', lambda: 'imchisq %s, expected %s' % (fs.imchisq, chi2))
    ctx.check(list(fs.imnpix) == [int(n) for n in npix], 'wrong-statistics', lambda: 'imnpix %s, expected %s' % (fs.imnpix, npix))
    skies = [p[i] if ns else tr.images[i].getSky().getConstant() for i in range(len(d['M']))]
    ctx.check(np.allclose(fs.sky, skies, rtol=1e-6, atol=1e-6), 'wrong-statistics', lambda: 'sky %s, expected %s' % (fs.sky, skies))
    k = ns
    names = ['prochi2', 'pronpix', 'promasked', 'proflux', 'fracin', 'profracflux']
    for j, n in enumerate(d['ncomp']):
        flux = p[k:k + n]
        tot = flux.sum()
        e = dict((x, 0.) for x in names + [nm for nm, _ in extras or []])
        pix = [0, 0]
        fnum = fden = inn = ind = wild = 0.
        ok = True
        for i in range(len(d['M'])):
            M, E = d['M'][i], d['E'][i]
            sc = tr.images[i].getPhotoCal().getScale()
            if abs(tot) < 1e-3 * np.sum(np.abs(flux)) or tot == 0 or abs(tot * sc) < 1.:
                ok = False
                break
            prof = M[:, k:k + n].dot(flux) / (tot * sc)
            w = np.abs(prof)
            g = (prof != 0) & (E > 0)
            if not np.any(g):
                ctx.probe('source-hidden')
                continue
            mod, chi = models[i]
            e['prochi2'] += np.sum(w[g] * chi[g]**2)
            e['pronpix'] += np.sum(w[g])
            e['promasked'] += np.sum(w[E == 0])
            others = mod - prof * tot * sc
            e['proflux'] += np.sum((np.abs(others / sc) * w)[g])
            if np.max(w[g]) < 1e-2:
                # (only the far wings: this ratio is all rounding)
                wild = np.inf
            fnum += np.sum((np.abs(mod / (tot * sc) - prof) * w)[g]) / np.sum((prof**2)[g])
            fden += np.sum(w[g] / abs(tot * sc))
            inn += np.sum(w)
            pix[0] += np.sum((w > 1e-7) & (E > 0))
            pix[1] += np.sum(E > 0)
            for nm, xs in extras or []:
                e[nm] += np.sum((w * xs[i].ravel())[g])
            ind += 1.
        k += n
        if not ok:
            continue
        e['fracin'] = inn / max(1., ind)
        e['profracflux'] = fnum / max(1., fden)
        ctx.check(pix[0] <= fs.npix[j] <= pix[1], 'wrong-statistics', lambda: 'npix of source %d: %r, expected %d to %d' % (j, fs.npix[j], pix[0], pix[1]))
        for x in sorted(e):
            got = getattr(fs, x)
            ctx.check(len(got) == nsrc, 'wrong-statistics', lambda: '%s has %d entries for %d fitted sources' % (x, len(got), nsrc))
            ctx.check(abs(got[j] - e[x]) <= (1e-3 + 2e-3 * abs(e[x]) if x != 'profracflux' else 2e-2 + 1e-2 * abs(e[x]) + wild), 'wrong-statistics',
                      lambda: '%s of source %d: %r, expected %r' % (x, j, got[j], e[x]))
