"""C04: what an evaluation returns depends only on the current model, never on
what was evaluated, cached or interrupted before, and evaluating changes nothing.

The engine under test lives in the run's process and is evaluated again and
again, with changes, fits and interrupted evaluations in between.  A second
process holds a replica that gets the same changes but never evaluates anything:
each comparison is made in a process forked from it, i.e. stone cold."""
import os
import pickle

import numpy as np

from sim import rich, env
from sim.core import Ctx, InjectedFault, InjectedInterrupt
from sim.inject import Injector, InjectedExit, EXCS, choose_point, tracing
from sim.nodes import Node, _send, _recv

TIERS = dict(quick=dict(runs=700, wall=260), thorough=dict(runs=40000, wall=3000))
# (a run whose fit wanders off to an enormous galaxy says nothing here)
LIVENESS, TIMEOUT = False, 40
RULE = ('one evaluation = one simulated run: a random engine, a history of 5..14 changes, fits, evaluations and evaluations interrupted at a seeded line of the model code, '
        'each compared with the same evaluation in a process that never evaluated anything; distinct_nontrivial counts runs with distinct operation/fault digests in which '
        'something had been evaluated before the evaluation compared')
COMPONENTS = dict(real=['tractor engine, sources, PSFs, WCS, calibration, sky, priors, optimizers and all their caches; real processes'],
                  stub=['interrupts are raised by a trace function at a seeded line of the model code'])
W = {}
# evaluations that are rich in hidden caches come first
EVALS = rich.EVALS
CHANGES = rich.CHANGES


def preload():
    rich.preload()


def n_build(piece):
    W['tr'] = rich.make(Ctx(tape=piece))
    W['info'] = W['tr'].info
    del W['tr'].info
    return rich.state(W['tr'])


def n_change(op, piece):
    return rich.attempt(W['tr'], op, Ctx(tape=piece), W['info'])


def n_set(params):
    W['tr'].setParams(params)


def n_state():
    return rich.state(W['tr'])


def n_cold(op, piece):
    """Evaluates in a child process: this one stays cold."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = pickle.dumps(rich.attempt(W['tr'], op, Ctx(tape=piece), W['info']))
            _send(w, out)
        finally:
            os._exit(0)
    os.close(w)
    try:
        return pickle.loads(_recv(r))
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    return x


def run(ctx):
    node = Node('cold')
    ctx.cleanups.append(node.kill)
    kinds = ctx.swarm(['interrupt'], 0.6)
    start = len(ctx.tape)
    A = rich.make(ctx)
    piece = list(ctx.tape[start:])
    info = A.info
    del A.info
    ctx.log(info.desc)
    sb = node.call(n_build, piece)
    sa = rich.state(A)
    ctx.check(sa == sb, 'harness', lambda: 'twins differ at birth: ' + rich.diff(sa, sb))
    changes = rich.SPECIAL_CHANGES if info.special else CHANGES
    nev = 0
    last = None
    for _ in range(ctx.between(5, 14, 'n-ops')):
        kind = ctx.wpick([(5, 'eval'), (4, 'change'), (1, 'fit'), (2.5, 'interrupted'), (1, 'again')], 'what')
        if kind == 'interrupted' and 'interrupt' not in kinds:
            kind = 'eval'
        if kind == 'change':
            op = ctx.wpick(changes, 'change')
            start = len(ctx.tape)
            ra = rich.attempt(A, op, ctx, info)
            rb = node.call(n_change, op, list(ctx.tape[start:]))
            ctx.op(op, ra[0])
            ctx.check(ra[0] == rb[0], 'change-differs', lambda: '%s on the evaluated engine: %s; on the fresh one: %s' % (op, rich.short(ra), rich.short(rb)))
            continue
        if kind == 'fit':
            op = ctx.wpick(rich.FITS[:2] if info.special else rich.FITS, 'fit')
            r = rich.attempt(A, op, ctx, info)
            ctx.op(op, r[0])
            if op == 'forced':
                # brightnesses may be frozen otherwise
                allp = pickle.dumps([[np.array(b.getAllParams()) if hasattr(b, 'getAllParams') else np.array(b.getParams())
                                      for b in s.getBrightnesses()] for s in A.catalog])
                node.call(n_fluxes, allp)
            else:
                node.call(n_set, list(A.getParams()))      # (as they are: a Python float overflows, a numpy one does not)
            nev += 1
            continue
        if kind == 'again' and last is not None:
            op, piece = last
            before = rich.state(A)
            ra = rich.attempt(A, op, Ctx(tape=piece), info)
        elif kind == 'interrupted':
            op = ctx.wpick(EVALS, 'eval')
            start = len(ctx.tape)
            # a fault-free pass in a cold child counts the points: no: count here, in a forked copy
            piece = record(ctx, A, op, info)
            n, names = count(A, op, piece, info)
            if not n:
                continue
            k = choose_point(ctx, names)
            en = ctx.pick(['interrupt', 'systemexit'], 'exception')
            before = rich.state(A)
            li = Injector()
            li.start(k, EXCS[en])
            err = None
            with tracing(li, env.REPO):
                try:
                    rich.perform(A, op, Ctx(tape=piece), info)
                except (InjectedInterrupt, InjectedExit, MemoryError) as e:
                    err = e
                except Exception as e:
                    ctx.log('refused', type(e).__name__)
                    li.fired = 0
                finally:
                    li.stop()
            ctx.op('interrupted-' + op, li.last)
            if li.fired:
                ctx.injected('interrupt-' + en)
                ctx.check(err is not None, 'interrupt-lost', '%s: %s injected at %s (line point %d of %d) did not reach the caller' % (op, en, li.last, k, n))
                ctx.state(op, li.last, info.cls)
            after = rich.state(A)
            ctx.check(before == after, 'evaluation-changed-engine', lambda: '%s interrupted at %s changed the engine: %s' % (op, li.last, rich.diff(before, after)))
            nev += 1
            last = (op, piece)
            ra = rich.attempt(A, op, Ctx(tape=piece), info)
        else:
            op = ctx.wpick(EVALS, 'eval')
            before = rich.state(A)
            piece = record(ctx, A, op, info)
            ra = rich.attempt(A, op, Ctx(tape=piece), info)
        after = rich.state(A)
        ctx.op(op, ra[0])
        ctx.check(before == after, 'evaluation-changed-engine', lambda: '%s changed the engine: %s' % (op, rich.diff(before, after)))
        if nev:
            ctx.probe('nontrivial')
        nev += 1
        last = (op, piece)
        rb = node.call(n_cold, op, piece)
        compare(ctx, op, ra, rb)
        ctx.state(op, info.cls, nev)
    sb = node.call(n_state)
    sa = rich.state(A)
    ctx.check(sa == sb, 'evaluation-changed-engine', lambda: 'at the end the evaluated engine differs from the one only changed: ' + rich.diff(sb, sa))
    for op in ('models', 'derivs', 'logprob'):
        ra = rich.attempt(A, op, Ctx(tape=[]), info)
        rb = node.call(n_cold, op, [])
        compare(ctx, op, ra, rb)


def n_fluxes(blob):
    for s, bs in zip(W['tr'].catalog, pickle.loads(blob)):
        for b, v in zip(s.getBrightnesses(), bs):
            b.setAllParams(v) if hasattr(b, 'setAllParams') else b.setParams(v)


def record(ctx, A, op, info):
    """Draws the arguments of an evaluation without doing it here: in a forked
    child, which reports how many decisions it needed."""
    start = len(ctx.tape)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            rich.attempt(A, op, ctx, info)
            _send(w, pickle.dumps((ctx.tape[start:], ctx.labels[start:], ctx.rng.getstate())))
        finally:
            os._exit(0)
    os.close(w)
    try:
        tape, labels, st = pickle.loads(_recv(r))
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    ctx.tape.extend(tape)
    ctx.labels.extend(labels)
    ctx.rng.setstate(st)
    return tape


def count(A, op, piece, info):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            li = Injector()
            li.start()
            with tracing(li, env.REPO):
                try:
                    rich.attempt(A, op, Ctx(tape=piece), info)
                finally:
                    li.stop()
            _send(w, pickle.dumps((li.n, li.names)))
        finally:
            os._exit(0)
    os.close(w)
    try:
        return pickle.loads(_recv(r))
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def compare(ctx, op, ra, rb):
    ctx.check(ra[0] == rb[0] and (ra[0] == 'ok' or ra[1] == rb[1]), 'history-dependent',
              lambda: '%s: %s with history, %s in a fresh process' % (op, rich.short(ra), rich.short(rb)))
    if ra[0] == 'ok':
        ctx.check(rich.same(plain(ra[1]), plain(rb[1]), 1e-7), 'history-dependent',
                  lambda: '%s with history differs from that in a fresh process: %s' % (op, rich.why(plain(rb[1]), plain(ra[1]), 1e-7)))
    else:
        ctx.probe('refused-' + op + '-' + ra[1])
