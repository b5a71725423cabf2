"""C09: one cache used by several clients at once, under a bytecode-level
seeded scheduler; histories are checked for linearizability against an LRU
reference, directly and through the real multiprocessing-manager server."""
import collections
import os
import numpy as np

from sim import threads
from sim.core import InjectedFault, Violation

TIERS = dict(quick=dict(runs=6000, wall=240), thorough=dict(runs=200000, wall=3000))
RULE = ('one evaluation = one interleaving of 2..4 clients doing 2..6 cache operations each, its history searched for a '
        'sequential LRU explanation; distinct_nontrivial counts distinct schedules with at least one preemption')
COMPONENTS = dict(real=['tractor.cache.Cache', 'tractor.mpcache registration', 'multiprocessing.managers.Server.serve_client request loop',
                        'Python threads'],
                  stub=['thread scheduling (bytecode-level, seeded), threading locks (wrapped so that blocking yields to the scheduler)',
                        'client connections: message arrival order and loss decided by the simulator'])


def preload():
    threads.install()
    import multiprocessing.managers
    from sim import scenes
    scenes.preload()
    import tractor.cache


MISS = '<miss>'


def lru_apply(state, cap, op, key, val):
    """state: tuple of (key, val), oldest first -> (new state, result)"""
    d = collections.OrderedDict(state)
    if op == 'put':
        if key in d:
            del d[key]
        elif len(d) >= cap:
            d.popitem(last=False)
        d[key] = val
        return tuple(d.items()), None
    if op == 'clear':
        return (), None
    if op == 'len':
        return state, len(d)
    if key in d:
        d.move_to_end(key)
        return tuple(d.items()), d[key]
    return state, MISS


def linearizable(hist, cap, init=(), budget=300000):
    """hist: list of dict(op,key,val,res,call,ret); Wing & Gong search."""
    n = len(hist)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, tuple(init))]
    work = 0
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        work += 1
        if work > budget:
            return None
        # earliest return among the pending
        lim = min(hist[i]['ret'] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or hist[i]['call'] > lim:
                continue
            h = hist[i]
            ns, r = lru_apply(st, cap, h['op'], h['key'], h['val'])
            if h['res'] is not Ellipsis and r != h['res']:
                continue
            stack.append((done | 1 << i, ns))
        # an operation whose outcome is unknown (connection lost) may also never have happened
        for i in range(n):
            if not done >> i & 1 and hist[i].get('maybe') and hist[i]['call'] <= lim:
                stack.append((done | 1 << i, st))
    return False


def run(ctx):
    from tractor.cache import Cache, TractorCacheMixin
    import tractor.cache as mod
    cap = ctx.pick([1, 2, 3, 4, 50], 'capacity')
    nk = ctx.pick([1, 2, 3, 5, 7], 'keys')
    nclients = ctx.between(2, 4, 'clients')
    maxops = 6 if nclients == 2 else 4
    mode = ctx.wpick([(6, 'direct'), (3, 'server')], 'mode')
    cache = Cache(maxsize=cap)
    ref = ()
    # warm-up
    for i in range(ctx.draw(6, 'warm')):
        k = ('k', ctx.draw(nk, 'warm-key'))
        cache.put(k, ('init', i))
        ref, _ = lru_apply(ref, cap, 'put', k, ('init', i))
    ctx.swarm(['connection-lost', 'stalled-client'], 0.5)
    plans = []
    for c in range(nclients):
        plan = []
        for i in range(ctx.between(2, maxops, 'nops')):
            op = ctx.wpick([(5, 'get'), (5, 'put'), (2, 'getitem'), (0.5, 'clear'), (0.7, 'len')], 'op')
            if mode == 'server' and op in ('clear', 'len', 'getitem'):
                op = 'get'
            plan.append((op, ('k', ctx.draw(nk, 'key')), (c, i)))
        plans.append(plan)
    hist = []
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    import multiprocessing.managers as mm
    files = [mod.__file__]
    if mode == 'server':
        files.append(mm.__file__)
    opc = mode == 'direct'
    sched = threads.Scheduler(ctx, files, opcodes=opc or ctx.flip(0.5, 'opcodes'))

    def begin(op, key, val):
        h = dict(op='get' if op == 'getitem' else op, key=key, val=val, call=tick(), ret=None, res=None)
        hist.append(h)
        return h

    def direct(plan):
        def body():
            for op, key, val in plan:
                h = begin(op, key, val)
                if op == 'put':
                    cache.put(key, val)
                elif op == 'get':
                    h['res'] = cache.get(key, MISS)
                elif op == 'getitem':
                    try:
                        h['res'] = cache[key]
                    except KeyError:
                        h['res'] = MISS
                elif op == 'clear':
                    cache.clear()
                else:
                    n = len(cache)
                    h['n'] = n
                    h['res'] = Ellipsis
                h['ret'] = tick()
        return body

    if mode == 'server':
        from tractor import mpcache
        man = mpcache.CacheManager.__new__(mpcache.CacheManager)
        reg = mpcache.CacheManager._registry
        ctx.check('Cache' in reg, 'not-served', 'the cache is not registered with the manager')
        server = mm.Server.__new__(mm.Server)
        server.registry = dict(reg)
        server.id_to_obj = {}
        server.id_to_refcount = {}
        server.id_to_local_proxy_obj = {}
        import threading
        server.mutex = threading.Lock()
        server.stop_event = threading.Event()
        server.authkey = b'x'
        # the served object, made as the server makes it
        callable_, exposed, m2t, proxytype = reg['Cache']
        cache = callable_(maxsize=cap)
        ref = ()
        ident = '%x' % id(cache)
        server.id_to_obj[ident] = (cache, set(exposed), m2t or {})
        server.id_to_refcount[ident] = 1

        class Conn(object):
            def __init__(self, plan):
                self.plan = list(plan)
                self.h = None
                self.lost = False

            def recv(self):
                if self.lost or not self.plan:
                    raise EOFError
                op, key, val = self.plan.pop(0)
                self.h = begin(op, key, val)
                if op == 'put':
                    return ident, 'put', (key, val), {}
                return ident, 'get', (key, MISS), {}

            def send(self, msg):
                h = self.h
                if ctx.fault('connection-lost', 0.05):
                    self.lost = True
                    h['res'] = Ellipsis
                    h['ret'] = 10 ** 9
                    raise OSError('connection lost')
                kind, res = msg
                if kind != '#RETURN':
                    raise Violation('operation-failed', '%s %s: server answered %s %s' % (h['op'], h['key'], kind, res))
                h['res'] = res
                h['ret'] = tick()

            def close(self):
                pass

            def fileno(self):
                return -1

        def served(plan):
            c = Conn(plan)
            return lambda: server.serve_client(c)

    for c, plan in enumerate(plans):
        sched.spawn('client%d' % c, direct(plan) if mode == 'direct' else served(plan))
    try:
        ths = sched.run()
    except threads.Deadlock as e:
        raise Violation('deadlock', str(e))
    ctx.simtime += sched.total * 1e-6
    ctx.op(mode, nclients, 'clients', cap, 'capacity')
    for i, p in enumerate(plans):
        ctx.log('client', i, ' '.join('%s(%s)' % (op, k[1]) for op, k, v in p))
    if sched.contended:
        ctx.probe('lock-contended', sched.contended)
    ctx.probe('switches', sched.switches)
    for t in ths:
        if t.error is not None:
            if isinstance(t.error, Violation):
                raise t.error
            if mode == 'server' and ctx.faults.get('connection-lost'):
                continue
            raise Violation('operation-failed', '%s: %s: %s' % (t.name, type(t.error).__name__, t.error))
    for h in hist:
        if h['op'] == 'put' and mode == 'direct':
            h['res'] = None
        if h['ret'] is None:
            h['ret'] = 10 ** 9
            h['res'] = Ellipsis
        if 'n' in h:
            infl = sum(1 for g in hist if g['op'] == 'put' and g['call'] < h['ret'] and g['ret'] > h['call'])
            ctx.check(h['n'] <= cap + infl, 'capacity', '%d entries seen, capacity %d' % (h['n'], cap))
    # what the cache holds now, read when nothing else runs
    ctx.check(len(cache) <= cap, 'capacity', lambda: '%d entries, capacity %d' % (len(cache), cap))
    # per-key sanity first: clearer messages
    for h in hist:
        if h['op'] == 'get' and h['res'] is not Ellipsis and h['res'] != MISS:
            puts = [g for g in hist if g['op'] == 'put' and g['key'] == h['key'] and g['val'] == h['res'] and g['call'] < h['ret']]
            ini = any(k == h['key'] and v == h['res'] for k, v in ref)
            ctx.check(puts or ini, 'wrong-value', lambda: 'get(%s) returned %r, never stored under that key' % (h['key'], h['res']))
    nfinal = len(cache)
    finals = []
    for k in range(nk):
        finals.append(dict(op='get', key=('k', k), val=None, res=cache.get(('k', k), MISS), call=tick(), ret=tick()))
    present = sum(1 for f in finals if f['res'] != MISS)
    ctx.check(present == nfinal, 'lost-entry', lambda: '%d entries counted but %d found' % (nfinal, present))
    ctx.state([(h['op'], h['key'], str(h['res'])) for h in hist])
    r = linearizable(hist + finals, cap, ref)
    if r is None:
        ctx.probe('search-gave-up')
    ctx.check(r is not False, 'no-sequential-explanation',
              lambda: 'capacity %d, initially %s: %s; finally %s' % (
                  cap, ref, [(h['op'], h['key'][1], h['val'] if h['op'] == 'put' else h['res'], h['call'], h['ret']) for h in hist],
                  [(f['key'][1], f['res']) for f in finals]))
