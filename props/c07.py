"""C07: an operation cut short by an exception or interrupt raised from a model,
prior, calibration or solver at any point leaves the engine as it was, passes
the exception on, and later operations behave as if it had never been tried."""
import numpy as np

from sim import scenes, engines, env
from sim.values import canon, same, short
from sim.core import InjectedFault, InjectedInterrupt
from sim.inject import Injector, InjectedExit, EXCS, hook_engine, choose_point, solvers, tracing

TIERS = dict(quick=dict(runs=1800, wall=260), thorough=dict(runs=60000, wall=3000))
RULE = ('one evaluation = one simulated run: a random scene and optimizer, an operation history, and in each '
        'operation possibly one fault at a seeded fault point (a callback, solver call or model line, counted in a fault-free twin); '
        'distinct_nontrivial counts runs with distinct operation/fault-point digests in which a fault fired')
COMPONENTS = dict(real=['tractor engine, all optimizers (lsqr, constrained, dense, smarter, batched with numpy as device, compiled Ceres)',
                        'sources, PSFs, WCS, calibration, sky, priors', 'scipy/numpy/Ceres solvers'],
                  stub=['exceptions and interrupts are raised by the simulator from subclasses of the scene\'s own PSF/WCS/... objects, '
                        'from wrappers round the solver entry points, and from a trace function (arbitrary line of a model evaluation)'])
CAUGHT = (InjectedFault, InjectedInterrupt, InjectedExit, MemoryError, AssertionError, ValueError, ZeroDivisionError)


def preload():
    scenes.preload()


class Forced(object):
    """Forced photometry on a linear scene."""
    cached, masks, image_params = False, None, 'frozen'

    def __init__(self, ctx):
        from props import c08
        self.c = c08.make(ctx)
        self.kind = ctx.pick(['lsqr', 'ceres'], 'solver')
        self.kw = dict(variance=True)
        if self.c.sky:
            self.kw['sky'] = True
        if self.kind == 'lsqr' and ctx.flip(0.4, 'rois'):
            self.kw['rois'] = [(slice(1, im.shape[0] - ctx.draw(4, 'y')), slice(2, im.shape[1] - ctx.draw(4, 'x'))) for im in self.c.scene.images]
        if ctx.flip(0.4, 'fitstats'):
            self.kw['fitstats'] = True

    def build(self):
        from props import c08
        return c08.build(self.c, self.kind)


def prep(sp, what):
    tr = sp.build()
    inj = Injector()
    if sp.cached:
        tr.optimizer.cache_image_params(tr)
    hook_engine(tr, inj, what)
    return tr, inj


def ops_for(sp, tr):
    if isinstance(sp, Forced):
        return [(1, 'forced')]
    ops = [(4, 'optimize'), (3, 'loop'), (2, 'derivs'), (1, 'models'), (1, 'logprob'), (2, 'srcderivs')]
    if sp.kind != 'ceres':
        ops.append((2, 'update'))
        ops.append((1, 'try'))
    if sp.image_params == 'all':
        # (PSF parameters are not meant to be fitted together with fluxes)
        return [(4, 'derivs'), (2, 'update'), (1, 'models')]
    if sp.kind == 'ceres':
        ops = [(4, 'optimize'), (2, 'loop'), (1, 'derivs')]
    return ops


def perform(tr, sp, op, arg):
    if op == 'forced':
        R = tr.optimize_forced_photometry(**sp.kw)
        return [list(R.IV), list(tr.getParams())]
    if op == 'optimize':
        return tr.optimize(**sp.kw)
    if op == 'loop':
        if sp.kind == 'ceres':
            return tr.optimize_loop(**engines.loop_kw(sp))
        return tr.optimize_loop(steps=arg, **engines.loop_kw(sp))
    if op == 'derivs':
        return tr.getDerivs()
    if op == 'update':
        return tr.optimizer.getLinearUpdateDirection(tr, **sp.kw)
    if op == 'try':
        return tr.optimizer.tryUpdates(tr, np.array(arg))
    if op == 'srcderivs':
        j, i = arg
        src, im = tr.catalog[j], tr.images[i]
        mm = tr._getModelMaskFor(im, src)
        return src.getParamDerivatives(im, modelMask=mm) if mm is not None else src.getParamDerivatives(im)
    if op == 'models':
        return list(tr.getModelImages())
    return tr.getLogProb()


def run(ctx):
    sp = Forced(ctx) if ctx.flip(0.12, 'forced') else engines.make(ctx, image_all=0.2)
    what = ['psf', 'wcs', 'photocal', 'sky', 'source', 'shape', 'setter']
    kinds = ctx.swarm(['callback', 'solver', 'line', 'setter'], 0.6)
    if 'setter' not in kinds:
        what.remove('setter')
    use_solver = 'solver' in kinds
    A, ia = prep(sp, what)      # faults happen here
    B, ib = prep(sp, what)      # never sees a fault
    C, ic = prep(sp, what)      # counts fault points
    ctx.log('optimizer', sp.kind, sp.kw, 'masks' if sp.masks else '', 'params', len(A.getParams()))
    for t in (A, B, C):
        engines.state(t)
    if A.numberOfParams() == 0:
        return
    nops = ctx.between(1, 3, 'n-ops')
    for _ in range(nops):
        op = ctx.wpick(ops_for(sp, A), 'op')
        arg = None
        if op == 'loop':
            arg = ctx.between(2, 4, 'steps')
        if op == 'srcderivs':
            arg = (ctx.draw(len(A.catalog), 'src'), ctx.draw(len(A.images), 'img'))
        if op == 'try':
            # a step of the fitter's own, taken by hand
            try:
                X = B.optimizer.getLinearUpdateDirection(B, **sp.kw)
            except Exception:
                X = None
            if isinstance(X, tuple):
                X = X[0]
            if X is None or len(X) != B.numberOfParams():
                op = 'logprob'
            else:
                arg = [float(x) for x in X]
        line = ('line' in kinds) and ctx.flip(0.35, 'line-level')
        root = env.REPO

        def go(tr, inj, at=None, exc=None, when='before', traced=True):
            if line and traced:
                # fault points are executed lines of the model code
                inj.active = False
                li = Injector()
                li.start(at, exc, when)
                with tracing(li, root):
                    try:
                        res = perform(tr, sp, op, arg)
                    finally:
                        li.stop()
                        go.inj = li
                return res
            if use_solver:
                with solvers(inj):
                    inj.start(at, exc, when)
                    try:
                        return perform(tr, sp, op, arg)
                    finally:
                        inj.stop()
                        go.inj = inj
            inj.start(at, exc, when)
            try:
                return perform(tr, sp, op, arg)
            finally:
                inj.stop()
                go.inj = inj

        # fault-free reference
        try:
            rb = canon(go(B, ib, traced=False))
        except Exception as e:
            ctx.probe('both-fail')
            ctx.log(op, 'fails by itself:', type(e).__name__, e)
            return
        ctx.op(op, sp.kind)
        # count fault points (and the states after each completed step) on C
        steps = None
        stepwise = op == 'loop' and sp.kind != 'ceres'
        if stepwise:
            kw = engines.loop_kw(sp)
            kw.pop('dchisq')
            start = list(C.getParams())
            cum = [(0, start)]
            tot = 0
            keep_op, keep_arg = op, arg
            for _s in range(arg):
                op = 'optimize'
                kw0, sp.kw = sp.kw, kw
                try:
                    r = go(C, ic)
                finally:
                    sp.kw = kw0
                    op = keep_op
                tot += go.inj.n
                cum.append((tot, list(C.getParams())))
                if r[0] <= 1e-4:
                    break
            C.setParams(start)
            steps = cum
        try:
            rc = go(C, ic)
        except Exception as e:
            ctx.check(False, 'not-repeatable', 'twin failed: %r' % e)
        n, names = go.inj.n, go.inj.names
        if stepwise and (n != steps[-1][0] or list(C.getParams()) != steps[-1][1]):
            # this loop is not a plain sequence of steps: keep only the set of states
            ctx.probe('loop-not-stepwise')
            steps = [(None, p) for _, p in steps]
        if n == 0 or not kinds or not ctx.flip(0.85, 'inject'):
            go(A, ia, traced=False)
        else:
            k = choose_point(ctx, names)
            en = ctx.pick(['interrupt', 'systemexit'] if line else sorted(EXCS), 'exception')
            when = 'before' if line else ctx.pick(['before', 'after'], 'when')
            before = engines.state(A)
            err = None
            try:
                go(A, ia, k, EXCS[en], when)
            except CAUGHT as e:
                err = e
            except RuntimeError as e:
                # SWIG/C++ layers may translate; must still carry our message
                if 'inject' not in str(e) and 'at ' not in str(e):
                    raise
                err = e
            inj = go.inj
            if inj.fired:
                ctx.injected('%s-%s' % ('line' if line else ('solver' if inj.last in ('solver', 'ceres') else 'callback'), en))
                ctx.probe('at-' + str(inj.last) if not line else 'at-line')
                ctx.log('fault', en, when, inj.last, 'point', k, 'of', n)
                ctx.state(sp.kind, op, k, en, when)
                handled = (inj.last == 'solver' and en == 'zerodivide')
                if err is None and not handled:
                    ctx.check(False, 'exception-lost', '%s: %s injected at %s (point %d of %d, %s) did not reach the caller' % (
                        op, en, inj.last, k, n, when))
                if err is not None and not isinstance(err, RuntimeError):
                    ctx.check(type(err) is type(EXCS[en]('x')), 'exception-changed',
                              lambda: '%s: injected %s, caller saw %r' % (op, en, err))
                after = engines.state(A)
                skip = ()
                if steps is not None:
                    skip = ('params', 'allparams')
                    got = list(A.getParams())
                    if steps[0][0] is not None:
                        j = max(i for i, (c, p) in enumerate(steps) if c <= k)
                        ctx.check(handled or same(got, steps[j][1], 1e-9), 'loop-state',
                                  lambda: 'loop interrupted in step %d by %s at %s: parameters\n%s\nexpected those after step %d\n%s\nsteps %s' % (
                                      j + 1, en, inj.last, got, j, steps[j][1], steps))
                    else:
                        ctx.check(handled or any(same(got, p, 1e-9) for _, p in steps), 'loop-state',
                                  lambda: 'loop interrupted by %s at %s: parameters %s are not those after any step %s' % (
                                      en, inj.last, got, steps))
                elif handled and err is None:
                    skip = ()
                for key in before:
                    if key in skip:
                        continue
                    ctx.check(before[key] == after[key], 'engine-damaged',
                              lambda: 'after %s failed (%s at %s, point %d of %d) the engine\'s %s changed: %s -> %s' % (
                                  op, en, inj.last, k, n, key, before[key], after[key]))
                # as if it had never been tried
                A.setParams(before['params'])
                ra = canon(go(A, ia, traced=False))
                ctx.op('retry')
                ctx.check(same(ra, rb), 'retry-differs',
                          lambda: '%s after a failed one gives\n%s\ninstead of\n%s' % (op, short(ra), short(rb)))
        pa, pb = list(A.getParams()), list(B.getParams())
        ctx.check(same(pa, pb), 'retry-differs', lambda: 'parameters after %s: %s instead of %s' % (op, pa, pb))
        for t in (A, C):
            t.setParams(pb)
    la, lb = A.getLogProb(), B.getLogProb()
    ctx.check(same(float(la), float(lb)), 'retry-differs', lambda: 'final log-prob %r vs %r' % (la, lb))
