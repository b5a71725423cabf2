"""Deterministic-simulation core.

One simulated run = one Ctx.  *Every* source of nondeterminism a scenario uses
(schedules, faults, workload shape, numeric data) is a decision drawn from the
Ctx, and the sequence of decisions (the "tape") is recorded.  Running the same
scenario with the same tape is exactly the same execution, so

  seed  --(PRNG)-->  tape  --(scenario)-->  execution

and a violation is reported as its seed plus a minimised tape.  Decision value
0 is always the simplest one (no fault, first runnable task, smallest scene),
which is what the minimiser drives towards.
"""
import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class InjectedFault(Exception):
    """Raised by the simulator from inside code under test."""


class InjectedInterrupt(KeyboardInterrupt):
    """A simulated Ctrl-C / cancellation delivered inside code under test."""


class Overrun(Exception):
    """The run exceeded its step budget (used as a bounded-progress check)."""


class Ctx(object):
    def __init__(self, seed=0, tape=None, run_index=0):
        self.seed = seed
        self.replay = None if tape is None else list(tape)
        self.rng = random.Random('tractor-dst-%s' % (seed,))
        self.tape = []          # decisions taken
        self.labels = []        # what each was for
        self.events = []        # human readable trace
        self.faults = {}        # fault kind -> times injected
        self.offered = {}       # fault kind -> times the simulator could have
        self.states = set()     # hashes of reached states
        self.sched = 0          # non-default scheduling decisions
        self.ops = 0            # operations on the real code
        self.probes = {}        # condition -> times reached
        self.simtime = 0.       # simulated seconds
        self.ilv = hashlib.blake2b(digest_size=8)   # interleaving/fault digest
        self.enabled = None     # swarm: set of enabled fault kinds
        self.cleanups = []

    # -- decisions -------------------------------------------------------
    def _take(self, n, fresh, label):
        if self.replay is not None:
            pos = len(self.tape)
            v = self.replay[pos] if pos < len(self.replay) else 0
            v = min(max(int(v), 0), n - 1)
        else:
            v = fresh()
        self.tape.append(v)
        self.labels.append(label)
        return v

    def draw(self, n, label='draw'):
        """Integer in [0,n)."""
        if n <= 1:
            return 0
        return self._take(n, lambda: self.rng.randrange(n), label)

    def pick(self, seq, label='pick'):
        seq = list(seq)
        return seq[self.draw(len(seq), label)]

    def wpick(self, pairs, label='wpick'):
        """pairs: [(weight, value)...]"""
        def fresh():
            tot = sum(w for w, _ in pairs)
            r = self.rng.random() * tot
            for i, (w, _) in enumerate(pairs):
                r -= w
                if r < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._take(len(pairs), fresh, label)][1]

    def flip(self, p, label='flip'):
        return bool(self._take(2, lambda: int(self.rng.random() < p), label))

    def between(self, lo, hi, label='int'):
        """Integer in [lo, hi]; 0-decision = lo."""
        return lo + self.draw(hi - lo + 1, label)

    def unif(self, lo, hi, label='unif', q=1000):
        """Quantised float in [lo, hi]; 0-decision = middle."""
        k = self.draw(q + 1, label)
        # 0 -> middle, then spreads out
        half = q // 2
        if k <= half:
            t = 0.5 + 0.5 * k / half
        else:
            t = 0.5 * (k - half - 1) / half
        return lo + (hi - lo) * t

    def bits(self, label='bits'):
        """A sub-seed for bulk numeric data (e.g. pixel noise)."""
        return self.draw(1 << 30, label)

    def shuffle(self, seq, label='shuffle'):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq), label)))
        return out

    # -- faults ----------------------------------------------------------
    def swarm(self, kinds, p=0.5):
        """Choose the fault kinds enabled in this run."""
        self.enabled = set()
        for k in kinds:
            if self.flip(p, 'swarm:' + k):
                self.enabled.add(k)
        return self.enabled

    def fault(self, kind, p, label=None):
        """Should the simulator inject `kind` here?"""
        if self.enabled is not None and kind not in self.enabled:
            return False
        self.offered[kind] = self.offered.get(kind, 0) + 1
        if self.flip(p, 'fault:' + (label or kind)):
            self.injected(kind)
            return True
        return False

    def injected(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.ilv.update(('F%s@%d;' % (kind, self.ops)).encode())

    # -- scheduling ------------------------------------------------------
    def schedule(self, n, label='sched'):
        v = self.draw(n, label)
        if v:
            self.sched += 1
        self.ilv.update(b'%d/%d;' % (v, n))
        return v

    # -- observation -----------------------------------------------------
    def log(self, *a):
        if len(self.events) < 4000:
            self.events.append(' '.join(str(x) for x in a))

    def op(self, *a):
        self.ops += 1
        self.ilv.update((str(a[0]) if a else 'op').encode() + b';')
        self.log('op %d:' % self.ops, *a)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *things):
        h = hashlib.blake2b(digest_size=8)
        for t in things:
            h.update(repr(t).encode())
        self.states.add(int.from_bytes(h.digest(), 'big'))

    def check(self, ok, kind, detail=''):
        if not ok:
            raise Violation(kind, detail() if callable(detail) else detail)

    def interleaving(self):
        return self.ilv.hexdigest()

    def nontrivial(self):
        return self.ops > 0 and (self.sched > 0 or sum(self.faults.values()) > 0
                                 or self.probes.get('nontrivial', 0) > 0)


def subseed(master, prop, i):
    h = hashlib.blake2b(('%s|%s|%d' % (master, prop, i)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big') >> 1
