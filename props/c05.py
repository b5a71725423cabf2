"""C05: an optimization step or loop never lowers the log-posterior, reports the
improvement it made, changes nothing when it reports none, and never moves a
frozen parameter -- for every optimizer, also when trial evaluations are
non-finite or the linear solve fails or returns garbage."""
import numpy as np

from sim import scenes, engines
from sim.inject import Injector, hook_engine, solvers

TIERS = dict(quick=dict(runs=1500, wall=260), thorough=dict(runs=60000, wall=3000))
RULE = ('one evaluation = one simulated run: a random scene, optimizer and option set taken through a history of steps and loops under '
        'seeded numerical faults; distinct_nontrivial counts runs with distinct operation/fault digests in which a fault fired')
COMPONENTS = dict(real=['tractor engine, all optimizers (lsqr, constrained, dense, smarter, batched with numpy as device, compiled Ceres)',
                        'sources, PSFs, WCS, calibration, sky, priors', 'scipy/numpy/Ceres solvers'],
                  stub=['the simulator makes priors non-finite beyond a wall or at one trial, calibrations non-finite beyond a wall, '
                        'and replaces solver results by failures, NaN or garbage'])


def preload():
    scenes.preload()


class Wall(object):
    """Beyond `at` (in direction `sign`) of one source parameter the model is
    not finite."""

    def __init__(self, kind, src, par, at, sign, value):
        self.kind, self.src, self.par, self.at, self.sign, self.value = kind, src, par, at, sign, value
        self.hits = 0
        self.on = True

    def beyond(self, s):
        p = s.getParams()
        return self.on and self.par < len(p) and (p[self.par] - self.at) * self.sign > 0


def attach(tr, wall):
    s = tr.catalog[wall.src]
    cls = type(s)

    class Sub(cls):
        def getLogPrior(self):
            r = cls.getLogPrior(self)
            if wall.beyond(self):
                wall.hits += 1
                return wall.value
            return r
    Sub.__name__, Sub.__qualname__, Sub.__module__ = cls.__name__, cls.__qualname__, cls.__module__
    object.__setattr__(s, '__class__', Sub)


class OneTrial(object):
    """Makes the n-th trial evaluation of a step non-finite."""

    def __init__(self):
        self.n = None
        self.count = 0
        self.value = np.nan
        self.fired = 0

    def arm(self, tr, n, value):
        self.n, self.value, self.count, self.fired = n, value, 0, 0
        self.seen = {tuple(tr.getParams()): None}

    def look(self, p):
        # (one point keeps its value: only a new point may turn out bad)
        p = tuple(p)
        if p not in self.seen:
            self.seen[p] = self.count
            self.count += 1
        return self.seen[p] == self.n

    def disarm(self):
        self.n = None


def attach_trial(tr, ot):
    cls = type(tr)

    class Sub(cls):
        def getLogPrior(self):
            r = cls.getLogPrior(self)
            if ot.n is not None and ot.look(self.getParams()):
                ot.fired += 1
                return ot.value
            return r
    Sub.__name__, Sub.__qualname__, Sub.__module__ = cls.__name__, cls.__qualname__, cls.__module__
    object.__setattr__(tr, '__class__', Sub)


class SolverFault(object):
    """Filter on the solver's return value."""

    def __init__(self, ctx, mild):
        self.kind = None
        self.ctx = ctx
        self.fired = 0
        self.mild = mild

    def arm(self, kind):
        self.kind, self.fired = kind, 0
        self.rs = np.random.RandomState(self.ctx.bits('garbage'))

    def __call__(self, res):
        if self.kind is None:
            return res
        kind, self.kind = self.kind, None
        self.fired += 1
        if isinstance(res, tuple) and len(res):
            X = np.array(res[0], float)
        else:
            return res
        if kind == 'linalg':
            raise np.linalg.LinAlgError('injected: SVD did not converge')
        if kind == 'zerodivide':
            raise ZeroDivisionError('injected')
        if kind == 'nan':
            X[self.rs.randint(max(1, len(X)))] = np.nan
        elif kind == 'inf':
            X[self.rs.randint(max(1, len(X)))] = np.inf
        elif kind == 'flip':
            X = -X
        elif kind == 'zero':
            X = X * 0.
        elif kind == 'scale':
            X = X * self.rs.uniform(-3., 3., size=X.shape)
        elif kind == 'huge':
            X = X * (3. if self.mild else 300.)
        return (X.astype(res[0].dtype),) + tuple(res[1:])


def lnpost(P, params, priors, wall):
    """Log-posterior at `params`, from model images, on an engine of our own."""
    P.setParams(list(params))
    chi2 = 0.
    for im in P.images:
        mod = P.getModelImage(im, minsb=0.)
        chi = (im.getImage().astype(float) - mod.astype(float)) * im.getInvError().astype(float)
        chi2 += np.sum(chi**2)
    lp = 0.
    if priors:
        lp = P.getLogPrior()
        if wall is not None and wall.beyond(P.catalog[wall.src]):
            lp = wall.value
    r = lp - 0.5 * chi2
    return -np.inf if np.isnan(r) else r


def frozen_values(tr):
    """Values of every parameter that is frozen at some level."""
    def walk(x, frozen, out):
        subs = getattr(x, 'subs', None)
        if subs is None:
            vals = list(x.getAllParams()) if hasattr(x, 'getAllParams') else []
            liq = list(getattr(x, 'liquid', [True] * len(vals)))
            if len(liq) != len(vals):
                liq = [True] * len(vals)
            for v, l in zip(vals, liq):
                if frozen or not l:
                    out.append(float(v))
            return
        liq = list(getattr(x, 'liquid', [True] * len(subs)))
        for s, l in zip(subs, liq):
            if s is not None:
                walk(s, frozen or not l, out)
    out = []
    walk(tr, False, out)
    return out


def run(ctx):
    sp = engines.make(ctx, priors=0.6, flux_prior=0.4)
    ceres = sp.kind == 'ceres'
    gpu = sp.kind == 'gpu'
    sp.kw.pop('variance', None)
    bounded = sp.kind in ('constrained', 'dense', 'smarter', 'gpufriendly', 'gpu')
    A = sp.build()      # the engine under test
    P = sp.build()      # evaluates the independent log-posterior
    B = sp.build()      # same steps from the same start, no faults
    if A.numberOfParams() == 0:
        return
    if not bounded and not ceres and ctx.flip(0.2, 'alphas'):
        sp.kw['alphas'] = ctx.pick([[1.], [0.1, 0.5, 1.], [0.5, 1., 2.], [1., 0.3, 0.1]], 'alpha-list')
    use_priors = sp.kw.get('priors', not ceres)
    # (the line search of every optimizer but Ceres looks at the full posterior)
    count_priors = use_priors if ceres else True
    inj = Injector()
    ot = OneTrial()
    attach_trial(A, ot)
    kinds = ctx.swarm(['wall', 'trial', 'solver'], 0.6)
    mild = sp.thawed_shapes and not bounded
    sf = SolverFault(ctx, mild)
    wall = None
    if 'wall' in kinds and not ceres:
        live = [j for j in range(len(A.catalog)) if A.catalog.liquid[j] and A.catalog[j].numberOfParams() > 0]
        if live:
            j = ctx.pick(live, 'wall-source')
            s0 = list(B.catalog[j].getParams())
            B.optimize(**sp.kw)
            s1 = list(B.catalog[j].getParams())
            B.setParams(A.getParams())
            k = ctx.draw(len(s0), 'wall-param')
            d = s1[k] - s0[k]
            if d != 0.:
                t = ctx.pick([0.5, 0.05, 0.9, 1.2, 0.001], 'wall-at')
                wall = Wall('prior', j, k, s0[k] + t * d, np.sign(d), ctx.pick([-np.inf, np.nan, np.inf], 'wall-value'))
                attach(A, wall)
                ctx.log('wall on', A.catalog[j].getParamNames()[k], s0[k], '->', s1[k], 'at', wall.at, wall.value)
    if sp.cached:
        A.optimizer.cache_image_params(A)
        B.optimizer.cache_image_params(B)
    ctx.log('optimizer', sp.kind, sp.kw, 'masks' if sp.masks else '', 'params', A.numberOfParams())
    frozen0 = frozen_values(A)
    nops = ctx.between(1, 4, 'n-ops')
    lnp = lnpost(P, A.getParams(), count_priors, wall)
    fault_now = False
    for _ in range(nops):
        loop = ctx.flip(0.3, 'loop') and 'alphas' not in sp.kw
        p0 = list(A.getParams())
        before = engines.state(A)
        h0 = wall.hits if wall else 0
        ot.disarm()
        sf.kind, sf.fired = None, 0
        if 'trial' in kinds and not ceres and ctx.flip(0.5, 'bad-trial'):
            ot.arm(A, ctx.draw(8, 'trial'), ctx.pick([np.nan, -np.inf, np.inf], 'trial-value'))
        sk = None
        if 'solver' in kinds and not ceres and ctx.flip(0.5, 'bad-solve'):
            sk = ctx.pick(['flip', 'zero', 'scale', 'huge', 'nan', 'inf', 'linalg', 'zerodivide'], 'solver-fault')
            if sk == 'zerodivide' and sp.kind not in ('lsqr', 'constrained'):
                sk = 'linalg'
            if sk == 'linalg' and sp.kind in ('lsqr', 'constrained'):
                sk = 'zerodivide'
            sf.arm(sk)
        inj.start()
        inj.filters['solver'] = sf
        with solvers(inj):
            if loop:
                kw = engines.loop_kw(sp)
                if not ceres:
                    kw['steps'] = ctx.between(1, 5, 'steps')
                r = A.optimize_loop(**kw)
                dl = None
            else:
                r = A.optimize(**sp.kw)
                dl = r[0]
        inj.stop()
        ctx.op('loop' if loop else 'optimize', sp.kind)
        if sf.fired:
            ctx.injected('solver-' + sk)
        if ot.fired:
            ctx.injected('trial-nonfinite')
        ot.disarm()
        if wall and wall.hits > h0:
            ctx.injected('wall', wall.hits - h0)
        p1 = list(A.getParams())
        after = engines.state(A)
        for key in before:
            if key not in ('params', 'allparams'):
                ctx.check(before[key] == after[key], 'engine-changed',
                          lambda: 'optimizing changed the engine\'s %s: %s -> %s' % (key, before[key], after[key]))
        ctx.check(frozen_values(A) == frozen0, 'frozen-moved',
                  lambda: 'frozen parameters %s -> %s' % (frozen0, frozen_values(A)))
        ctx.check(np.all(np.isfinite(p1)), 'non-finite-params', lambda: 'parameters %s -> %s' % (p0, p1))
        new = lnpost(P, p1, count_priors, wall)
        tol = 1e-3 + 2e-6 * abs(lnp)
        if gpu:
            # (the batched models differ slightly from the reference ones far from a source)
            tol = 1.5
        ctx.check(np.isfinite(new), 'fit-got-worse',
                  lambda: 'log-posterior went from %r to %r (%s)' % (lnp, new, names_moved(A, p0, p1)))
        ctx.check(new >= lnp - tol, 'fit-got-worse',
                  lambda: 'log-posterior went from %r to %r (reported improvement %r; %s)' % (lnp, new, dl, names_moved(A, p0, p1)))
        if dl is not None:
            ctx.check(np.isfinite(dl) and abs((new - lnp) - dl) <= tol + (0.3 if gpu else 1e-4) * abs(dl), 'wrong-report',
                      lambda: 'reported improvement %r, actual %r (%r -> %r)' % (dl, new - lnp, lnp, new))
            if dl == 0:
                if ceres:
                    ctx.check(np.allclose(p0, p1, rtol=1e-12, atol=1e-12), 'moved-without-improving', lambda: names_moved(A, p0, p1))
                else:
                    ctx.check(p0 == p1, 'moved-without-improving', lambda: names_moved(A, p0, p1))
                ctx.probe('no-improvement')
            else:
                ctx.check(dl > 0, 'negative-report', lambda: 'reported improvement %r' % dl)
                ctx.probe('improved')
        ctx.state(sp.kind, loop, sk, round(float(new), 1))
        lnp = new
    # faults stop: a step goes as it would in an engine that never saw any
    if wall is not None:
        wall.on = False
    B.setParams(A.getParams())
    if sp.cached:
        for t in (A, B):
            t.optimizer.clear_cached_image_params()
            t.optimizer.cache_image_params(t)
    ra, rb = A.optimize(**sp.kw), B.optimize(**sp.kw)
    ctx.op('final step')
    ctx.check(abs(ra[0] - rb[0]) <= 1e-6 + 1e-6 * abs(rb[0]), 'no-progress-after-faults',
              lambda: 'improvement %r instead of %r' % (ra[0], rb[0]))
    ctx.check(np.allclose(A.getParams(), B.getParams(), rtol=1e-9, atol=1e-9), 'no-progress-after-faults',
              lambda: 'parameters %s instead of %s' % (A.getParams(), B.getParams()))


def names_moved(tr, p0, p1):
    return ', '.join('%s %r -> %r' % (n, a, b) for n, a, b in zip(tr.getParamNames(), p0, p1) if a != b)
