"""C06: a bounded fit evaluates and accepts only points within the bounds and
maximum steps, and a caller's veto is honoured -- whatever the placement of the
limits, and also when trial evaluations or the solver fail."""
import numpy as np

from sim import scenes, engines
from sim.inject import Injector, solvers
from props.c05 import OneTrial, SolverFault

TIERS = dict(quick=dict(runs=2400, wall=260), thorough=dict(runs=60000, wall=3000))
RULE = ('one evaluation = one simulated run: a random scene, bounded optimizer, limits placed around the unbounded step, and a history of steps, '
        'loops and vetoes under seeded numerical faults; distinct_nontrivial counts runs with distinct operation/fault digests in which a limit or fault acted')
COMPONENTS = dict(real=['tractor engine; constrained, dense, smarter, batched (numpy as device) and Ceres optimizers; sources, PSFs, WCS, calibration, sky, priors',
                        'scipy/numpy/Ceres solvers'],
                  stub=['the simulator makes trial evaluations non-finite, replaces solver results, and answers the step veto'])


def preload():
    scenes.preload()


KINDS = ['constrained', 'dense', 'smarter', 'gpufriendly', 'gpu', 'ceres']


def leaves(x, out=None):
    """(leaf object, index) of each thawed parameter, in order."""
    if out is None:
        out = []
    subs = getattr(x, 'subs', None)
    if subs is None:
        n = len(x.getAllParams()) if hasattr(x, 'liquid') else x.numberOfParams()
        liq = getattr(x, 'liquid', [True] * n)
        out += [(x, i) for i in range(n) if liq[i]]
        return out
    for s, l in zip(subs, x.liquid):
        if l and s is not None:
            leaves(s, out)
    return out


def limits(obj, i):
    if hasattr(obj, 'lowers'):
        return obj.lowers[i], obj.uppers[i], obj.maxstep[i]
    return obj.lower, obj.upper, obj.maxstep


def set_limits(obj, i, lo, hi, mx):
    if hasattr(obj, 'lowers'):
        obj.lowers, obj.uppers, obj.maxstep = list(obj.lowers), list(obj.uppers), list(obj.maxstep)
        obj.lowers[i], obj.uppers[i], obj.maxstep[i] = lo, hi, mx
    else:
        obj.lower, obj.upper, obj.maxstep = lo, hi, mx


class Monitor(object):
    def __init__(self, tr, ceres):
        self.tr = tr
        self.ceres = ceres
        self.on = False
        self.seen = []          # candidate vectors of the current step
        cls = type(tr)
        mon = self

        class Sub(cls):
            def getLogPrior(self):
                mon.note(self)
                return cls.getLogPrior(self)

            def getLogLikelihood(self, *a, **k):
                mon.note(self)
                return cls.getLogLikelihood(self, *a, **k)

            def setParams(self, p):
                cls.setParams(self, p)
                # (only Ceres evaluates the model without asking for a log-probability;
                #  shared_params labels parameters through setParams)
                if mon.ceres:
                    mon.note(self)
        Sub.__name__, Sub.__qualname__, Sub.__module__ = cls.__name__, cls.__qualname__, cls.__module__
        object.__setattr__(tr, '__class__', Sub)

    def note(self, tr):
        if self.on:
            p = tuple(float(x) for x in tr.getParams())
            if not self.seen or self.seen[-1] != p:
                self.seen.append(p)


def attach_trial(tr, ot):
    cls = type(tr)

    class Sub(cls):
        def getLogPrior(self):
            r = cls.getLogPrior(self)
            if ot.n is not None and ot.look(self.getParams()):
                ot.fired += 1
                return ot.value
            return r
    Sub.__name__, Sub.__qualname__, Sub.__module__ = cls.__name__, cls.__qualname__, cls.__module__
    object.__setattr__(tr, '__class__', Sub)


def run(ctx):
    try:
        _run(ctx)
    except RuntimeError as e:
        # (a galaxy pushed off the image under a plain pixelized PSF)
        if 'sourceOut' not in str(e):
            raise
        ctx.probe('source-left-image')


def _run(ctx):
    sp = engines.make(ctx, kinds=KINDS, priors=0.3, flux_prior=0.2, perturb=0.5)
    ceres = sp.kind == 'ceres'
    sp.kw.pop('variance', None)
    if ceres:
        sp.kw['bounds'] = True
        sp.kw.pop('numeric', None)
    A = sp.build()
    B = sp.build()
    n = A.numberOfParams()
    if n == 0:
        return
    LA = leaves(A)
    ctx.check(len(LA) == n, 'harness', lambda: 'leaf walk: %d of %d' % (len(LA), n))
    p0 = [float(x) for x in A.getParams()]
    # where would one unlimited-by-us step go?
    B.optimize(**sp.kw)
    p1 = [float(x) for x in B.getParams()]
    names = A.getParamNames()
    density = ctx.pick([0.3, 0.1, 0.8], 'limit-density')
    for k, (o, i) in enumerate(LA):
        lo, hi, mx = limits(o, i)
        d = p1[k] - p0[k]
        s = abs(d) if d != 0 else max(1e-3, abs(p0[k]) * 1e-3)
        if ctx.flip(density, 'limit'):
            how = ctx.pick(['ahead', 'behind', 'both', 'touching', 'step', 'step+ahead', 'both+step'], 'how')
            t = ctx.pick([0.5, 0.1, 0.9, 0.001, 1.0, 1.5, 3.0], 'at')
            u = ctx.pick([0.3, 0.01, 1.0, 2.5], 'behind-at')
            up = d >= 0
            ahead, behind = p0[k] + t * s * (1 if up else -1), p0[k] - u * s * (1 if up else -1)
            nlo, nhi = None, None
            if how in ('ahead', 'both', 'step+ahead', 'both+step'):
                if up:
                    nhi = ahead
                else:
                    nlo = ahead
            if how in ('behind', 'both', 'both+step'):
                if up:
                    nlo = behind
                else:
                    nhi = behind
            if how == 'touching':
                if up:
                    nhi = p0[k]
                else:
                    nlo = p0[k]
            # never looser than limits that keep a shape sensible
            if nlo is not None and (lo is None or nlo > lo):
                lo = nlo
            if nhi is not None and (hi is None or nhi < hi):
                hi = nhi
            if 'step' in how:
                m = s * ctx.pick([0.5, 0.05, 1.0, 2., 1e-3], 'max-step')
                mx = m if mx is None else min(mx, m)
        # precondition: the start is allowed
        if lo is not None:
            lo = min(lo, p0[k])
        if hi is not None:
            hi = max(hi, p0[k])
        set_limits(o, i, lo, hi, mx)
    lows, highs, maxs = A.getLowerBounds(), A.getUpperBounds(), A.getMaxStep()
    mine = [limits(o, i) for o, i in LA]
    ctx.check(list(lows) == [m[0] for m in mine] and list(highs) == [m[1] for m in mine] and list(maxs) == [m[2] for m in mine],
              'limits-not-reported', lambda: 'set %s; engine reports %s %s %s' % (mine, lows, highs, maxs))
    ctx.log('optimizer', sp.kind, sp.kw, 'limits', {nm: m for nm, m in zip(names, mine) if m != (None, None, None)})
    if sp.cached:
        A.optimizer.cache_image_params(A)
    inj = Injector()
    ot = OneTrial()
    attach_trial(A, ot)
    mon = Monitor(A, ceres)
    sf = SolverFault(ctx, False)
    kinds = ctx.swarm(['trial', 'solver', 'veto'], 0.5)
    # steps are what optimize() takes: watch each separately
    steps = []
    opt = A.optimizer
    ocls = type(opt)

    class OSub(ocls):
        def optimize(self, tractor, *a, **k):
            start = tuple(float(x) for x in tractor.getParams())
            mon.seen, mon.on = [], True
            try:
                r = ocls.optimize(self, tractor, *a, **k)
            finally:
                mon.on = False
            steps.append((start, mon.seen, tuple(float(x) for x in tractor.getParams()), r))
            return r
    OSub.__name__, OSub.__qualname__, OSub.__module__ = ocls.__name__, ocls.__qualname__, ocls.__module__
    object.__setattr__(opt, '__class__', OSub)

    def inside(p, what):
        for k in range(n):
            lo, hi, _ = mine[k]
            ctx.check(np.isfinite(p[k]), 'non-finite', lambda: '%s %s = %r' % (what, names[k], p[k]))
            ctx.check(lo is None or p[k] >= lo, 'below-lower-bound', lambda: '%s: %s = %r, lower bound %r' % (what, names[k], p[k], lo))
            ctx.check(hi is None or p[k] <= hi, 'above-upper-bound', lambda: '%s: %s = %r, upper bound %r' % (what, names[k], p[k], hi))

    def short(p, q, what):
        for k in range(n):
            mx = mine[k][2]
            ctx.check(mx is None or abs(q[k] - p[k]) <= mx + 1e-12 * (abs(p[k]) + abs(mx)), 'step-too-long',
                      lambda: '%s: %s moved %r -> %r, maximum step %r' % (what, names[k], p[k], q[k], mx))

    nops = ctx.between(1, 3, 'n-ops')
    for _ in range(nops):
        choices = ['optimize', 'loop']
        if 'veto' in kinds and not ceres:
            choices += ['loop-veto'] + (['try-veto'] if sp.kind not in ('gpu', 'gpufriendly') else [])
        op = ctx.pick(choices, 'op')
        ot.disarm()
        sf.kind, sf.fired = None, 0
        sk = None
        if 'trial' in kinds and not ceres and ctx.flip(0.5, 'bad-trial'):
            ot.arm(A, ctx.draw(8, 'trial'), ctx.pick([np.nan, -np.inf], 'trial-value'))
        if 'solver' in kinds and not ceres and ctx.flip(0.5, 'bad-solve'):
            sk = ctx.pick(['flip', 'scale', 'huge', 'nan', 'inf', 'linalg'], 'solver-fault')
            if sk == 'linalg' and sp.kind == 'constrained':
                sk = 'zerodivide'
            sf.arm(sk)
        steps[:] = []
        q0 = tuple(float(x) for x in A.getParams())
        calls = []
        stop_at = ctx.draw(4, 'veto-at')

        def check_step(optimizer=None, tractor=None, dlnp=None, X=None, alpha=None):
            calls.append(tuple(float(x) for x in tractor.getParams()))
            return len(calls) <= stop_at

        inj.start()
        inj.filters['solver'] = sf
        vetoed = False
        with solvers(inj):
            if op == 'optimize':
                A.optimize(**sp.kw)
            elif op == 'loop' and ceres:
                kw = engines.loop_kw(sp)
                mon.seen, mon.on = [], True
                A.optimize_loop(**kw)
                mon.on = False
                steps.append((q0, mon.seen, tuple(float(x) for x in A.getParams()), None))
            elif op in ('loop', 'loop-veto'):
                kw = engines.loop_kw(sp)
                kw['steps'] = ctx.between(1, 6, 'steps')
                if op == 'loop-veto':
                    kw['check_step'] = check_step
                R = A.optimize_loop(**kw)
                if op == 'loop-veto' and len(calls) > stop_at:
                    vetoed = True
                    ctx.injected('veto')
            else:
                # veto a trial point of the line search itself
                X = opt.getLinearUpdateDirection(A, **sp.kw)
                if X is not None and np.all(np.isfinite(X)):
                    mon.seen, mon.on = [], True
                    dl, al = opt.tryUpdates(A, X, check_step=check_step)
                    mon.on = False
                    q1 = tuple(float(x) for x in A.getParams())
                    steps.append((q0, mon.seen, q1, None))
                    if len(calls) > stop_at:
                        vetoed = True
                        ctx.injected('veto')
                        ctx.check(len(calls) == stop_at + 1, 'veto-ignored', lambda: 'asked %d more times after the veto' % (len(calls) - stop_at - 1))
                        ctx.check(q1 != calls[-1] or q1 in calls[:-1] or q1 == q0, 'veto-ignored',
                                  lambda: 'the vetoed point %s was accepted' % (calls[-1],))
                        ctx.check(q1 == q0 or q1 in calls[:-1], 'veto-moved',
                                  lambda: 'after the veto the parameters are %s, neither the start nor an earlier trial' % (q1,))
                    if dl == 0:
                        ctx.check(q1 == q0, 'veto-moved', lambda: '%s -> %s without improvement' % (q0, q1))
        inj.stop()
        ctx.op(op, sp.kind)
        if sf.fired:
            ctx.injected('solver-' + sk)
        if ot.fired:
            ctx.injected('trial-nonfinite')
        ot.disarm()
        if op == 'loop-veto' and vetoed:
            ctx.check(len(steps) == stop_at + 1, 'veto-ignored', lambda: '%d steps, the veto came after step %d' % (len(steps), stop_at + 1))
            ctx.check(tuple(float(x) for x in A.getParams()) == calls[-1], 'veto-moved', lambda: 'parameters changed after the veto')
        limited = False
        for start, seen, end, r in steps:
            for c in list(seen) + [end]:
                if ceres:
                    # (works in scaled parameters: the bound itself is rounded)
                    inside([round_to(c[k], mine[k], p0[k]) for k in range(n)], 'candidate')
                else:
                    inside(c, 'candidate')
                    short(start, c, 'candidate')
            if any(end[k] in (mine[k][0], mine[k][1]) or (mine[k][2] is not None and abs(abs(end[k] - start[k]) - mine[k][2]) < 1e-9 * mine[k][2])
                   for k in range(n)):
                limited = True
        if limited:
            ctx.probe('limit-active')
        ctx.state(sp.kind, op, sk, limited, vetoed, len(steps))


def round_to(x, lim, p0):
    """Ceres adds and subtracts a scale: allow for its rounding at the bound."""
    for b in lim[:2]:
        if b is not None and abs(x - b) <= 1e-7 * max(1., abs(b)):
            return b
    return x
