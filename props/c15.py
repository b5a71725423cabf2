"""C15: nested parameter containers against a flat reference model, over random
histories that include rejected operations, copies and pickle round trips."""
import pickle
import numpy as np

from sim import scenes

TIERS = dict(quick=dict(runs=5000, wall=240), thorough=dict(runs=100000, wall=3000))
RULE = ('one evaluation = one history of 8..40 container operations, the whole parameter API being compared with the '
        'reference model after each; distinct_nontrivial counts distinct operation/fault histories in which a '
        'rejected operation was injected or a structure/frozen-state change was made')
COMPONENTS = dict(real=['tractor.utils parameter containers, positions, brightnesses, shapes, sources, images, Catalog, Tractor'],
                  stub=['none; operations and rejected arguments come from the simulator'])


def preload():
    scenes.preload()


class Leaf(object):
    """A ParamList/ScalarParam: records of one value each."""

    def __init__(self, obj, names, values, steps=None):
        self.obj = obj
        self.n = len(values)
        self.names = list(names)
        self.vals = [float(v) for v in values]
        self.liquid = [True] * self.n
        self.steps = list(steps) if steps is not None else [1.] * self.n
        self.explicit_steps = steps is not None
        self.lo = [None] * self.n
        self.hi = [None] * self.n
        self.mx = [None] * self.n
        self.priors = []          # (raw index, mu, sigma)
        if obj is not None and self.n:
            # class defaults, as the fresh leaf itself states them
            for a, f in (('lo', obj.getLowerBounds), ('hi', obj.getUpperBounds), ('mx', obj.getMaxStep)):
                v = list(f())
                if len(v) == self.n:
                    setattr(self, a, v)
            g = getattr(obj, 'gpriors', None)
            if g is not None:
                self.priors = [(i, mu, sig) for _, i, mu, sig in g.terms]
        self.scalar = False
        self.named = True

    def entries(self, all=False):
        for i in range(self.n):
            if all or self.liquid[i]:
                yield (self, i)

    def name(self, i):
        return self.names[i]

    def leaves(self):
        yield self

    def copy_for(self, obj):
        c = Leaf(obj, self.names, self.vals, self.steps)
        c.explicit_steps = self.explicit_steps
        c.scalar = self.scalar
        c.named = self.named
        c.keep_liquid = self.keep_liquid
        if self.keep_liquid:
            c.liquid = list(self.liquid)
        c.fresh = self.fresh
        # what copy() is not required to carry over is read back from the copy
        c.steps = None
        return c
    keep_liquid = True
    fresh = False


class Node(object):
    def __init__(self, obj, names, kids):
        self.obj = obj
        self.names = names          # list or function index -> name
        self.kids = list(kids)
        self.liquid = [True] * len(self.kids)

    def name(self, i):
        return self.names(i) if callable(self.names) else self.names[i]

    def entries(self, all=False):
        for k, l in zip(self.kids, self.liquid):
            if all or l:
                for e in k.entries(all):
                    yield e

    def leaves(self):
        for k in self.kids:
            for l in k.leaves():
                yield l

    def nodes(self):
        yield self
        for k in self.kids:
            if isinstance(k, Node):
                for n in k.nodes():
                    yield n


def names_of(node, all=False):
    out = []
    if isinstance(node, Leaf):
        for i in range(node.n):
            if all or node.liquid[i]:
                out.append(node.names[i])
        return out
    for i, (k, l) in enumerate(zip(node.kids, node.liquid)):
        if all or l:
            out.extend('%s.%s' % (node.name(i), n) if n is not None else None for n in names_of(k, all))
    return out


# ---- building real objects together with their models
def leaf_pos(ctx):
    from tractor import PixPos, RaDecPos
    if ctx.flip(0.4, 'radec'):
        o = RaDecPos(10. + ctx.draw(9, 'v'), 20. + ctx.draw(9, 'v'))
        return Leaf(o, ['ra', 'dec'], o.getAllParams(), o.getStepSizes())
    o = PixPos(1. + ctx.draw(9, 'v'), 2. + ctx.draw(9, 'v'))
    return Leaf(o, ['x', 'y'], o.getAllParams(), [0.1, 0.1])


def leaf_bright(ctx):
    from tractor import Flux, NanoMaggies, Mags, Mag
    k = ctx.pick(['flux', 'nmgy', 'mags', 'nmgy-order', 'mag'], 'bright')
    if k == 'flux':
        o = Flux(3. + ctx.draw(9, 'v'))
        l = Leaf(o, ['Flux'], o.getAllParams(), [1.])
        l.scalar = True
        return l
    if k == 'mag':
        o = Mag(3. + ctx.draw(9, 'v'))
        l = Leaf(o, ['Mag'], o.getAllParams(), o.getStepSizes())
        l.scalar = True
        return l
    a, b, c = [5. + ctx.draw(9, 'v') for _ in range(3)]
    if k == 'nmgy':
        o = NanoMaggies(g=a, r=b, z=c)
        l = Leaf(o, ['g', 'r', 'z'], [a, b, c], [1.] * 3)
        l.explicit_steps = False
    elif k == 'nmgy-order':
        o = NanoMaggies(g=a, r=b, z=c, order=['z', 'g', 'r'])
        l = Leaf(o, ['z', 'g', 'r'], [c, a, b], [1.] * 3)
        l.explicit_steps = False
    else:
        o = Mags(i=a, u=b)
        l = Leaf(o, ['i', 'u'], [a, b], [-0.01] * 2)
    return l


def leaf_shape(ctx):
    from tractor import GalaxyShape
    from tractor.ellipses import EllipseE, EllipseESoft
    k = ctx.pick(['g', 'e', 's'], 'shape')
    if k == 'g':
        o = GalaxyShape(1. + ctx.draw(9, 'v'), 0.5, 30. + ctx.draw(9, 'v'))
        return Leaf(o, ['re', 'ab', 'phi'], o.getAllParams(), o.getAllStepSizes())
    if k == 'e':
        o = EllipseE(1. + ctx.draw(9, 'v'), 0.1, -0.2)
        return Leaf(o, ['re', 'e1', 'e2'], o.getAllParams(), [0.01] * 3)
    o = EllipseESoft(1. + ctx.draw(9, 'v'), 0.1, -0.2)
    return Leaf(o, ['logre', 'ee1', 'ee2'], o.getAllParams(), [0.01] * 3)


def leaf_list(ctx):
    """A user-defined ParamList."""
    from tractor.utils import ParamList
    n = ctx.between(1, 5, 'n')
    global Named
    if 'Named' not in globals():
        class Named(ParamList):
            @staticmethod
            def getNamedParams():
                return dict(a=0, b=1, c=2)
        Named.__qualname__ = 'Named'
        globals()['Named'] = Named
    if ctx.flip(0.5, 'named'):
        v = [1. + ctx.draw(20, 'v') for _ in range(3)]
        o = Named(*v)
        l = Leaf(o, ['a', 'b', 'c'], v, [1.] * 3)
    else:
        v = [1. + ctx.draw(20, 'v') for _ in range(n)]
        o = ParamList(*v)
        l = Leaf(o, [None] * n, v, [1.] * n)
        l.named = False
    l.explicit_steps = False
    return l


def scalar(o, name):
    l = Leaf(o, [name], o.getParams(), o.getStepSizes())
    l.scalar = True
    return l


def node_source(ctx):
    from tractor import PointSource, ExpGalaxy, DevGalaxy, FixedCompositeGalaxy, CompositeGalaxy, SoftenedFracDev
    k = ctx.pick(['pt', 'exp', 'dev', 'fix', 'comp'], 'src')
    p, b = leaf_pos(ctx), leaf_bright(ctx)
    if k == 'pt':
        return Node(PointSource(p.obj, b.obj), ['pos', 'brightness'], [p, b])
    s = leaf_shape(ctx)
    if k in ('exp', 'dev'):
        return Node((ExpGalaxy if k == 'exp' else DevGalaxy)(p.obj, b.obj, s.obj), ['pos', 'brightness', 'shape'], [p, b, s])
    s2 = leaf_shape(ctx)
    if k == 'fix':
        f = SoftenedFracDev(0.25)
        fl = scalar(f, f.getParamNames()[0])
        return Node(FixedCompositeGalaxy(p.obj, b.obj, f, s.obj, s2.obj),
                    ['pos', 'brightness', 'fracDev', 'shapeExp', 'shapeDev'], [p, b, fl, s, s2])
    b2 = leaf_bright(ctx)
    return Node(CompositeGalaxy(p.obj, b.obj, s.obj, b2.obj, s2.obj),
                ['pos', 'brightnessExp', 'shapeExp', 'brightnessDev', 'shapeDev'], [p, b, s, b2, s2])


def node_image(ctx):
    from tractor import Image, NCircularGaussianPSF, NullWCS, LinearPhotoCal, ConstantSky, GaussianMixturePSF
    sky = ConstantSky(1. + ctx.draw(5, 'v'))
    pc = LinearPhotoCal(2., band='r')
    if ctx.flip(0.4, 'mogpsf'):
        psf = GaussianMixturePSF(np.array([0.7, 0.3]), np.zeros((2, 2)), np.array([np.eye(2), 4 * np.eye(2)]))
        nm = ['amp0', 'amp1', 'meanx0', 'meany0', 'meanx1', 'meany1',
              'varxx0', 'varyy0', 'varxy0', 'varxx1', 'varyy1', 'varxy1']
        pl = Leaf(psf, nm, psf.getAllParams(), psf.getAllStepSizes())
    else:
        psf = NCircularGaussianPSF([1. + ctx.draw(3, 'v'), 4.], [0.8, 0.2])
        pl = Node(psf, ['sigmas', 'weights'],
                  [Leaf(psf.sigmas, [None, None], psf.sigmas.getAllParams(), [0.01] * 2),
                   Leaf(psf.weights, [None, None], psf.weights.getAllParams(), [0.01] * 2)])
        for l in pl.kids:
            l.named = False
    wcs = NullWCS()
    wl = Leaf(wcs, [], [], [])
    wl.named = False
    wl.inert = True
    im = Image(data=np.zeros((5, 5)), inverr=np.ones((5, 5)), psf=psf, wcs=wcs, sky=sky, photocal=pc)
    return Node(im, ['psf', 'wcs', 'photocal', 'sky'],
                [pl, wl, scalar(pc, pc.getParamNames()[0]), scalar(sky, 'sky')])


def build(ctx):
    from tractor import Tractor, Catalog, Images
    from tractor.utils import MultiParams
    k = ctx.pick(['tractor', 'catalog', 'source', 'generic'], 'tree')
    if k == 'source':
        return k, node_source(ctx)
    if k == 'generic':
        kids = [leaf_list(ctx) for _ in range(ctx.between(1, 4, 'kids'))]
        return k, Node(MultiParams(*[x.obj for x in kids]), lambda i: 'param%d' % i, kids)
    srcs = [node_source(ctx) for _ in range(ctx.between(0, 3, 'nsrc'))]
    cat = Catalog(*[s.obj for s in srcs])
    cn = Node(cat, lambda i: 'source%d' % i, srcs)
    cn.make = node_source
    if k == 'catalog':
        return k, cn
    ims = [node_image(ctx) for _ in range(ctx.between(1, 2, 'nim'))]
    tr = Tractor([i.obj for i in ims], cat)
    imn = Node(tr.images, lambda i: 'image%d' % i, ims)
    imn.make = node_image
    return k, Node(tr, ['images', 'catalog'], [imn, cn])


# ---- comparison
# classes that compute their step sizes from their values: what the leaf itself
# says (frozen flags ignored) is what every container has to pass on
DYNAMIC = ('RaDecPos', 'PixPos', 'GalaxyShape', 'GaussianMixturePSF', 'EllipseE', 'EllipseESoft', 'SoftenedFracDev')


def steps_of(l):
    if type(l.obj).__name__ in DYNAMIC:
        return list(l.obj.getAllStepSizes())
    return l.steps


def same(a, b):
    return len(a) == len(b) and all((x is None) == (y is None) and (x is None or x == y or
                                                                   abs(x - y) <= 1e-12 * abs(y)) for x, y in zip(a, b))


def compare(ctx, node, what):
    o = node.obj
    ent = list(node.entries())
    allent = list(node.entries(True))

    def chk(got, want, label):
        got = list(got)
        ctx.check(same(got, want), 'model-mismatch',
                  lambda: '%s: %s of %s: %s, expected %s' % (what, label, type(o).__name__, got, want))
    n = len(ent)
    ctx.check(o.numberOfParams() == n, 'model-mismatch',
              lambda: '%s: numberOfParams of %s is %d, expected %d' % (what, type(o).__name__, o.numberOfParams(), n))
    chk(o.getParams(), [l.vals[i] for l, i in ent], 'getParams')
    chk(o.getAllParams(), [l.vals[i] for l, i in allent], 'getAllParams')
    chk(o.getStepSizes(), [l.steps[i] for l, i in ent], 'getStepSizes')
    chk(o.getLowerBounds(), [l.lo[i] for l, i in ent], 'getLowerBounds')
    chk(o.getUpperBounds(), [l.hi[i] for l, i in ent], 'getUpperBounds')
    chk(o.getMaxStep(), [l.mx[i] for l, i in ent], 'getMaxStep')
    if hasattr(o, 'getAllStepSizes'):
        chk(o.getAllStepSizes(), [steps_of(l)[i] for l, i in allent], 'getAllStepSizes')
    nm = list(o.getParamNames())
    want = names_of(node)
    ctx.check(len(nm) == n and all(w is None or w == g for g, w in zip(nm, want)), 'model-mismatch',
              lambda: '%s: names of %s: %s, expected %s' % (what, type(o).__name__, nm, want))
    # priors
    pos = {}
    for k, (l, i) in enumerate(ent):
        pos[(id(l), i)] = k
    want = []
    lnp = 0.
    dterms = []
    active = []
    collect_active(node, active)
    for l in active:
        for (i, mu, sig) in l.priors:
            lnp += -0.5 * (l.vals[i] - mu)**2 / sig**2
            if (id(l), i) in pos:
                want.append((pos[(id(l), i)], mu, sig))
                dterms.append((pos[(id(l), i)], 1. / sig, -(l.vals[i] - mu) / sig))
    got = [tuple(x) for x in o.getGaussianPriors()]
    ctx.check(sorted(got) == sorted(want), 'model-mismatch',
              lambda: '%s: getGaussianPriors of %s: %s, expected %s' % (what, type(o).__name__, got, want))
    g = o.getLogPrior()
    ctx.check(abs(g - lnp) <= 1e-9 * max(1., abs(lnp)), 'model-mismatch',
              lambda: '%s: getLogPrior of %s: %g, expected %g' % (what, type(o).__name__, g, lnp))
    X = o.getLogPriorDerivatives()
    terms = []
    rows = []
    if X is not None:
        r, c, v, b, mu = X
        ctx.check(len(r) == len(c) == len(v) == len(b) == len(mu), 'model-mismatch', 'prior derivative lists differ in length')
        for ri, ci, vi, bi in zip(r, c, v, b):
            for rr, vv, bb in zip(ri, vi, bi):
                terms.append((ci, vv, bb))
                rows.append(rr)
    ctx.check(len(terms) == len(dterms) and all(
        a[0] == b[0] and abs(a[1] - b[1]) < 1e-9 * abs(b[1]) and abs(a[2] - b[2]) < 1e-9 * (1. + abs(b[2]))
        for a, b in zip(sorted(terms), sorted(dterms))), 'model-mismatch',
        lambda: '%s: prior derivatives of %s: %s, expected %s' % (what, type(o).__name__, sorted(terms), sorted(dterms)))
    ctx.check(sorted(rows) == list(range(len(rows))), 'model-mismatch',
              lambda: '%s: prior derivative rows %s' % (what, rows))
    if not isinstance(node, Leaf):
        ctx.check(len(o) == len(node.kids), 'model-mismatch', '%s: len' % what)
    if not (isinstance(node, Leaf) and (node.scalar or getattr(node, 'inert', False))):
        lq = [bool(x) for x in o.liquid]
        ctx.check(lq == node.liquid, 'model-mismatch', lambda: '%s: frozen flags of %s: %s, expected %s' % (
            what, type(o).__name__, lq, node.liquid))
        th = list(o.getThawedParamIndices())
        ctx.check(th == [i for i, x in enumerate(node.liquid) if x], 'model-mismatch', '%s: thawed indices' % what)
        fz = list(o.getFrozenParamIndices())
        ctx.check(fz == [i for i, x in enumerate(node.liquid) if not x], 'model-mismatch', '%s: frozen indices' % what)
        raw = [node.names[i] if isinstance(node, Leaf) else real_name(node, i) for i in range(len(node.liquid))]
        for i, nm in enumerate(raw):
            k = sum(node.liquid[:i]) if node.liquid[i] else -1
            ctx.check(o.getLiquidIndexOfIndex(i) == k, 'model-mismatch', '%s: liquid index of %d' % (what, i))
            if nm is None:
                continue
            ctx.check(bool(o.isParamFrozen(nm)) == (not node.liquid[i]) and bool(o.isParamThawed(nm)) == node.liquid[i],
                      'model-mismatch', '%s: isParamFrozen(%s)' % (what, nm))
            ctx.check(o.getLiquidIndex(nm) == k, 'model-mismatch', '%s: liquid index of %s' % (what, nm))
        for f in (o.isParamFrozen, o.isParamThawed, o.getLiquidIndex):
            reject(ctx, lambda: f('nonesuch'), what, quiet=True)
        if None not in raw:
            ctx.check(list(o.getThawedParams()) == [nm for nm, x in zip(raw, node.liquid) if x] and
                      list(o.getFrozenParams()) == [nm for nm, x in zip(raw, node.liquid) if not x],
                      'model-mismatch', '%s: thawed/frozen names' % what)
        st = [(nm, bool(a), bool(b)) for nm, a, b in o.getParamStateRecursive()]
        want = state_of(node)
        ctx.check(len(st) == len(want) and all((w[0] is None or w[0] == g[0]) and w[1:] == g[1:] for g, w in zip(st, want)),
                  'model-mismatch', lambda: '%s: parameter states of %s: %s, expected %s' % (what, type(o).__name__, st, want))
    # what the object hands out is the caller's to change
    for f in (o.getParams, o.getAllParams, o.getParamNames, o.getLowerBounds, o.getUpperBounds, o.getMaxStep,
              o.getGaussianPriors):
        v = f()
        if isinstance(v, list) and v:
            v[0] = v[-1] = 12345.
            v.append(1.)
    for f, want, label in ((o.getParams, [l.vals[i] for l, i in ent], 'values'),
                           (o.getLowerBounds, [l.lo[i] for l, i in ent], 'lower limits'),
                           (o.getUpperBounds, [l.hi[i] for l, i in ent], 'upper limits'),
                           (o.getMaxStep, [l.mx[i] for l, i in ent], 'maximum steps'),
                           (o.getAllParams, [l.vals[i] for l, i in allent], 'all values')):
        chk(f(), want, label + ' (after the caller changed the list it was given)')


def state_of(node):
    """getParamStateRecursive: (name, thawed itself, thawed with all its holders below the first)."""
    if isinstance(node, Leaf):
        return [(node.names[i] if node.named else None, l, l) for i, l in enumerate(node.liquid)]
    out = []
    for i, (k, l) in enumerate(zip(node.kids, node.liquid)):
        pre = node.name(i)
        out.append((pre, l, True))
        if isinstance(k, Leaf) and (k.scalar or getattr(k, 'inert', False)):
            sub = [(nm, True, True) for nm in k.names]
        else:
            sub = state_of(k)
        out.extend((None if nm is None else '%s.%s' % (pre, nm), a, l and b) for nm, a, b in sub)
    return out


def collect_active(node, out):
    if isinstance(node, Leaf):
        out.append(node)
        return
    for k, l in zip(node.kids, node.liquid):
        if l:
            collect_active(k, out)


def compare_tree(ctx, node, what):
    compare(ctx, node, what)
    if isinstance(node, Leaf):
        return
    for k in node.kids:
        compare_tree(ctx, k, what)


def rec(node, names, val, thaw):
    """(freeze|thaw)ParamsRecursive semantics."""
    if isinstance(node, Leaf):
        if node.scalar or getattr(node, 'inert', False):
            return
        for i, n in enumerate(node.names):
            if '*' in names or (n is not None and n in names):
                node.liquid[i] = val
        return
    for i, k in enumerate(node.kids):
        rec(k, names, val, thaw)
        if '*' in names or real_name(node, i) in names:
            node.liquid[i] = val


def real_name(node, i):
    """Name under which the container itself knows its child (None if unnamed)."""
    return None if callable(node.names) else node.names[i]


def paths(node, names):
    """thawPathsTo semantics."""
    thawed = False
    if isinstance(node, Leaf):
        if node.scalar or getattr(node, 'inert', False):
            return False
        for i, n in enumerate(node.names):
            if n is not None and n in names:
                node.liquid[i] = True
                thawed = True
        return thawed
    for i, k in enumerate(node.kids):
        if paths(k, names):
            node.liquid[i] = True
            thawed = True
        if real_name(node, i) in names:
            node.liquid[i] = True
            thawed = True
    return thawed


def rebind(node, obj):
    """Attach the model to a copied/unpickled object tree."""
    node.obj = obj
    if isinstance(node, Node):
        for i, k in enumerate(node.kids):
            rebind(k, obj.subs[i])


def run(ctx):
    kind, root = build(ctx)
    nops = ctx.between(8, 40, 'nops')
    ctx.swarm(['reject-length', 'reject-index', 'reject-member', 'reject-name'], 0.6)
    compare_tree(ctx, root, 'initially')
    old = []        # (model, what) of trees we copied from: must stay independent
    for step in range(nops):
        allnodes = list(root.nodes())
        leaves = [l for l in root.leaves() if not getattr(l, 'inert', False)]
        op = ctx.wpick([(4, 'freeze'), (4, 'thaw'), (3, 'setParams'), (2, 'setParam'), (2, 'setAll'),
                        (1, 'freezeAll'), (1, 'thawAll'), (2, 'recursive'), (1, 'paths'), (1, 'allbut'),
                        (2, 'bounds'), (2, 'prior'), (2, 'steps'), (1, 'allsteps'), (1, 'append'), (1, 'remove'),
                        (1, 'copy'), (1, 'pickle'), (1, 'named-set'), (1, 'prepend')], 'op')
        target = ctx.pick(allnodes + [l for l in leaves if not l.scalar], 'target')
        what = '%s on %s (op %d)' % (op, type(target.obj).__name__, step)
        if op in ('freeze', 'thaw'):
            n = len(target.liquid)
            if n == 0:
                continue
            i = ctx.draw(n, 'index')
            name = target.names[i] if isinstance(target, Leaf) else real_name(target, i)
            if ctx.fault('reject-name', 0.1):
                reject(ctx, lambda: (target.obj.freezeParam if op == 'freeze' else target.obj.thawParam)('no-such-param'), what)
            else:
                arg = name if (name is not None and ctx.flip(0.5, 'by-name')) else i
                if op == 'thaw' and isinstance(target, Node) and not any(getattr(k, 'scalar', 0) for k in target.kids) \
                        and ctx.flip(0.3, 'by-member'):
                    # a member may be given itself (scalars compare by value, and only with scalars)
                    arg = target.kids[i].obj
                    i = [k.obj == arg for k in target.kids].index(True)
                many = []
                if arg is not None and ctx.flip(0.3, 'several'):
                    many = [ctx.draw(n, 'index') for _ in range(ctx.between(0, 2, 'more'))]
                    named = [target.names[j] if isinstance(target, Leaf) else real_name(target, j) for j in many]
                    (target.obj.freezeParams if op == 'freeze' else target.obj.thawParams)(
                        *([arg] + [j if nm is None or j % 2 else nm for j, nm in zip(many, named)]))
                else:
                    (target.obj.freezeParam if op == 'freeze' else target.obj.thawParam)(arg)
                for j in [i] + many:
                    target.liquid[j] = (op == 'thaw')
                ctx.probe('nontrivial')
        elif op == 'allbut':
            n = len(target.liquid)
            if n == 0:
                continue
            but = [ctx.draw(n, 'index') for _ in range(ctx.between(1, 3, 'but'))]
            nms = [target.names[j] if isinstance(target, Leaf) else real_name(target, j) for j in but]
            target.obj.freezeAllBut(*[j if nm is None or ctx.flip(0.5, 'by-index') else nm for j, nm in zip(but, nms)])
            target.liquid = [j in but for j in range(n)]
        elif op in ('freezeAll', 'thawAll'):
            (target.obj.freezeAllParams if op == 'freezeAll' else target.obj.thawAllParams)()
            target.liquid = [op == 'thawAll'] * len(target.liquid)
        elif op == 'recursive':
            nm = ctx.pick(['pos', 'brightness', 'shape', 'ra', 'x', 'g', 'e1', '*', 'sky', 'a', 'images', 'sigmas', 'dec', 're'], 'rname')
            fz = ctx.flip(0.5, 'freeze')
            nms = (nm,) if not ctx.flip(0.4, 'two') else ('y', nm) if ctx.flip(0.5, 'order') else (nm, 'photocal', 'y')
            if not hasattr(target.obj, 'freezeParamsRecursive'):
                continue
            (target.obj.freezeParamsRecursive if fz else target.obj.thawParamsRecursive)(*nms)
            rec(target, nms, not fz, not fz)
            ctx.probe('nontrivial')
        elif op == 'paths':
            nm = ctx.pick(['pos', 'brightness', 'ra', 'x', 'r', 'e1', 'sky', 'a', 'phi', 'shape', 'logre'], 'pname')
            nms = (nm,) if not ctx.flip(0.3, 'two') else (nm, 'e2') if ctx.flip(0.5, 'order') else ('nonesuch', nm)
            got = target.obj.thawPathsTo(*nms)
            want = paths(target, nms)
            ctx.check(bool(got) == want, 'model-mismatch', '%s: thawPathsTo(%s) returned %s' % (what, nm, got))
        elif op == 'setParams':
            ent = list(target.entries())
            v = [newval(ctx, l, i) for l, i in ent]
            if ctx.fault('reject-length', 0.15):
                v = v[:-1] if (len(v) and ctx.flip(0.5, 'short')) else v + [1.]
                reject(ctx, lambda: target.obj.setParams(v), what)
            else:
                target.obj.setParams(np.array(v) if ctx.flip(0.3, 'as-array') else v)
                for (l, i), x in zip(ent, v):
                    l.vals[i] = x
        elif op == 'setAll':
            ent = list(target.entries(True))
            v = [newval(ctx, l, i) for l, i in ent]
            if ctx.fault('reject-length', 0.15):
                v = v[:-1] if (len(v) and ctx.flip(0.5, 'short')) else v + [1.]
                reject(ctx, lambda: target.obj.setAllParams(v), what)
            else:
                target.obj.setAllParams(v)
                for (l, i), x in zip(ent, v):
                    l.vals[i] = x
        elif op == 'setParam':
            ent = list(target.entries())
            if ctx.fault('reject-index', 0.15) or not ent:
                if not ent or ctx.flip(0.9, 'beyond'):
                    reject(ctx, lambda: target.obj.setParam(len(ent) + ctx.draw(2, 'over'), 1.), what)
            else:
                k = ctx.draw(len(ent), 'index')
                l, i = ent[k]
                x = newval(ctx, l, i)
                o = target.obj.setParam(k, x)
                ctx.check(o == l.vals[i], 'model-mismatch', '%s: old value %s, expected %s' % (what, o, l.vals[i]))
                l.vals[i] = x
        elif op == 'bounds':
            if not leaves:
                continue
            l = ctx.pick(leaves, 'leaf')
            i = ctx.draw(l.n, 'index')
            which = ctx.pick(['lo', 'hi', 'mx'], 'bound')
            x = ctx.pick([None, -5., 0., 50.], 'value')
            if l.scalar:
                setattr(l.obj, dict(lo='lower', hi='upper', mx='maxstep')[which], x)
            else:
                getattr(l.obj, dict(lo='lowers', hi='uppers', mx='maxstep')[which])[i] = x
            getattr(l, which)[i] = x
        elif op == 'prior':
            ls = [l for l in leaves if not l.scalar and l.named and hasattr(l.obj, 'addGaussianPrior')
                  and type(l.obj).__name__ != 'GaussianMixturePSF']
            if not ls:
                continue
            l = ctx.pick(ls, 'leaf')
            if ctx.fault('reject-name', 0.15):
                reject(ctx, lambda: l.obj.addGaussianPrior('nonesuch', 0., 1.), what)
            else:
                i = ctx.draw(l.n, 'index')
                for _ in range(ctx.pick([1, 1, 1, 2, 12], 'count')):
                    mu, sig = float(ctx.draw(5, 'mu')), 1. + ctx.draw(3, 'sig')
                    l.obj.addGaussianPrior(l.names[i], mu, sig)
                    l.priors.append((i, mu, sig))
                    i = (i + 1) % l.n
        elif op == 'steps':
            ent = list(target.entries())
            s = [0.5 + ctx.draw(8, 'step') for _ in ent]
            if any(not setsteps_ok(l) for l, i in ent):
                continue
            for l in set(l for l, i in ent):
                if not l.explicit_steps:
                    # frozen entries become 1 when step sizes are first given
                    l.steps = [x if q else 1. for x, q in zip(l.steps, l.liquid)]
                    l.explicit_steps = True
            target.obj.setStepSizes(s)
            for (l, i), x in zip(ent, s):
                l.steps[i] = x
            if any(not all(l.liquid) for l, i in ent):
                ctx.probe('steps-with-frozen')
        elif op == 'allsteps':
            ent = list(target.entries(True))
            if any(not setsteps_ok(l) for l, i in ent):
                continue
            s = [0.5 + ctx.draw(8, 'step') for _ in ent]
            target.obj.setAllStepSizes(s)
            for (l, i), x in zip(ent, s):
                l.steps[i] = x
                l.explicit_steps = True
        elif op in ('append', 'prepend', 'remove'):
            ns = [n for n in allnodes if hasattr(n, 'make')]
            if not ns:
                continue
            n = ctx.pick(ns, 'list')
            if op == 'remove':
                if ctx.fault('reject-member', 0.3):
                    x = n.make(ctx)
                    reject(ctx, lambda: n.obj.remove(x.obj), what)
                elif len(n.kids) > 0:
                    i = ctx.draw(len(n.kids), 'index')
                    n.obj.remove(n.kids[i].obj)
                    del n.kids[i]
                    del n.liquid[i]
                    ctx.probe('nontrivial')
            elif len(n.kids) < 5:
                x = n.make(ctx)
                if op == 'append':
                    xs = [x]
                    if ctx.flip(0.4, 'extend'):
                        xs = [n.make(ctx) for _ in range(ctx.draw(3, 'extra'))] + [x]
                        xs = [] if ctx.flip(0.1, 'nothing') else xs
                        seq = [y.obj for y in xs]
                        n.obj.extend(tuple(seq) if ctx.flip(0.3, 'tuple') else seq)
                        if xs and not ctx.flip(0.5, 'keep'):
                            seq.clear()
                    else:
                        n.obj.append(x.obj)
                    n.kids.extend(xs)
                    n.liquid.extend([True] * len(xs))
                else:
                    n.obj.prepend(x.obj)
                    n.kids.insert(0, x)
                    n.liquid.insert(0, True)
                ctx.probe('nontrivial')
        elif op == 'named-set':
            ls = [l for l in leaves if not l.scalar and l.named]
            if not ls:
                continue
            l = ctx.pick(ls, 'leaf')
            i = ctx.draw(l.n, 'index')
            x = newval(ctx, l, i)
            setattr(l.obj, l.names[i], x)
            l.vals[i] = x
            ctx.check(getattr(l.obj, l.names[i]) == x, 'model-mismatch', '%s: named value' % what)
        elif op == 'copy':
            if kind == 'tractor':
                continue
            model = clone_model(root)
            o2 = root.obj.copy()
            rebind(model, o2)
            # values and, where the container keeps them, frozen flags carry over; limits need not
            refresh(model, root)
            compare_tree(ctx, model, what)
            old.append((root, 'original after copying'))
            if len(old) > 1:
                old.pop(0)
            root = model
            ctx.probe('copied')
        elif op == 'pickle':
            model = clone_model(root)
            rebind(model, pickle.loads(pickle.dumps(root.obj)))
            root = model
            ctx.probe('pickled')
        ctx.op(op, type(target.obj).__name__)
        ctx.state([list(n.liquid) for n in root.nodes()], [l.liquid for l in root.leaves()])
        compare_tree(ctx, root, what)
        for m, w in old:
            compare_tree(ctx, m, w + ' / ' + what)


def setsteps_ok(l):
    return type(l.obj).__name__ not in DYNAMIC


def newval(ctx, l, i):
    if type(l.obj).__name__ == 'GaussianMixturePSF':
        return l.vals[i] * (1. + 0.125 * ctx.draw(3, 'v'))
    if type(l.obj).__name__ == 'RaDecPos':
        return 10. + ctx.draw(20, 'v')
    if type(l.obj).__name__ == 'EllipseE' and l.names[i] in ('e1', 'e2'):
        return -0.4 + 0.1 * ctx.draw(8, 'v')
    if type(l.obj).__name__ == 'GalaxyShape' and l.names[i] == 'ab':
        return 0.1 + 0.1 * ctx.draw(8, 'v')
    if type(l.obj).__name__ in ('EllipseESoft',):
        return 0.125 * (1 + ctx.draw(8, 'v'))
    return 1. + ctx.draw(40, 'v')


def clone_model(node):
    if isinstance(node, Leaf):
        c = Leaf(None, node.names, node.vals, list(node.steps))
        for a in ('explicit_steps', 'scalar', 'named', 'keep_liquid'):
            setattr(c, a, getattr(node, a))
        if getattr(node, 'inert', False):
            c.inert = True
        c.liquid = list(node.liquid)
        c.lo, c.hi, c.mx = list(node.lo), list(node.hi), list(node.mx)
        c.priors = list(node.priors)
        return c
    c = Node(None, node.names, [clone_model(k) for k in node.kids])
    c.liquid = list(node.liquid)
    if hasattr(node, 'make'):
        c.make = node.make
    return c


def refresh(model, orig):
    """After copy(): limits, step sizes and priors are whatever the fresh
    objects have by default (nothing promises that they are carried over), but
    they must be consistent in length; frozen flags carry over except for
    multi-band brightnesses."""
    for l in model.leaves():
        if getattr(l, 'inert', False):
            continue
        o = l.obj
        l.lo, l.hi, l.mx, l.priors = [None] * l.n, [None] * l.n, [None] * l.n, []
        if l.scalar:
            l.lo, l.hi, l.mx = [o.lower], [o.upper], [o.maxstep]
        else:
            if not l.keep_liquid:
                l.liquid = [bool(x) for x in o.liquid]
            l.lo, l.hi, l.mx = list(o.lowers), list(o.uppers), list(o.maxstep)
            l.priors = [(i, mu, s) for _, i, mu, s in o.gpriors.terms]
        ss = getattr(o, 'stepsizes', None)
        l.steps = list(o.getAllStepSizes() if ss is None else ss)
        l.explicit_steps = getattr(o, 'stepsizes', None) is not None
    return model


def reject(ctx, f, what, quiet=False):
    try:
        f()
    except Exception as e:
        if not quiet:
            ctx.log('rejected', what, type(e).__name__)
            ctx.probe('rejected')
        return
    ctx.check(False, 'not-rejected', what)
