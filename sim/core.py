"""Core of the deterministic simulator: one integer decides everything.

A run is a pure function of its list of choices.  Choices are drawn from a
PRNG derived from (VERIF_SEED, property, run index) while searching, and from
a recorded list while shrinking or replaying; value 0 is always the simplest
alternative, and a list that runs out continues with zeros.
"""
import hashlib
import random


class Violation(BaseException):
    """The property is broken on this run (an oracle said so)."""

    def __init__(self, kind, msg, sig=None):
        BaseException.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg
        self.sig = sig  # finer identification, for known findings


class HarnessError(BaseException):
    """The harness itself cannot go on; never a verdict on the property."""


class InjectedFault(Exception):
    """An error raised by a simulated component on purpose."""


class SimCrash(BaseException):
    """The simulated process dies here; only durable state survives."""


class Choices:

    def __init__(self, seed=None, forced=None):
        self.forced = forced
        self.rng = random.Random(seed) if forced is None else None
        self.log = []

    def draw(self, n):
        """Integer in [0, n), 0 being the simplest."""
        if n <= 1:
            return 0
        if self.forced is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.log)
            v = self.forced[i] if i < len(self.forced) else 0
            if v >= n:
                v = v % n
        self.log.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, p):
        """True with probability about p (False is simplest)."""
        return self.draw(1000) >= 1000 - int(round(1000 * p))

    def weighted(self, pairs):
        """pairs: [(weight:int, value)], the first is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def subset(self, seq, p=.5):
        return [x for x in seq if self.chance(p)]

    def shuffled(self, seq):
        l = list(seq)
        for i in range(len(l) - 1):
            j = i + self.draw(len(l) - i)
            l[i], l[j] = l[j], l[i]
        return l

    def unit(self):
        """Float in [0, 1)."""
        return self.draw(1 << 20) / float(1 << 20)


class Ctx:
    """What a scenario sees of the run: choices, log, counters, verdict."""

    def __init__(self, pid, tier, choices, keep_trace=False, index=0):
        self.pid = pid
        self.tier = tier
        self.ch = choices
        self.index = index
        self.keep_trace = keep_trace
        self.trace = []
        self._h = hashlib.sha1()
        self._sched = hashlib.sha1()
        self.n_events = 0
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.
        self.nontrivial = False
        self.sample = None
        self.first_violation = None
        self.known = []
        self._patched = []

    def patch(self, owner, name, value):
        """Replaces an attribute until the scenario ends."""
        self._patched.append((owner, name, name in vars(owner),
                              vars(owner).get(name)))
        setattr(owner, name, value)

    def unpatch(self):
        while self._patched:
            owner, name, had, old = self._patched.pop()
            if had:
                setattr(owner, name, old)
            else:
                delattr(owner, name)

    def event(self, *parts):
        s = ' '.join(str(p) for p in parts)
        self._h.update(s.encode('utf8', 'replace') + b'\n')
        self.n_events += 1
        if self.keep_trace:
            if len(self.trace) < 5000:
                self.trace.append(s)

    def sched(self, s):
        self._sched.update(str(s).encode() + b',')

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, kind, msg, sig=None):
        v = Violation(kind, msg, sig)
        if self.first_violation is None:
            self.first_violation = v
        raise v

    def note_violation(self, kind, msg, sig=None):
        """Records a violation where raising is not possible."""
        if self.first_violation is None:
            self.first_violation = Violation(kind, msg, sig)

    def check(self, cond, kind, msg, sig=None):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg, sig)

    def log_hash(self):
        return self._h.hexdigest()[:16]

    def sched_hash(self):
        return self._sched.hexdigest()[:16]


def run_seed(verif_seed, pid, index):
    return int.from_bytes(hashlib.sha256(
        '{}/{}/{}'.format(verif_seed, pid, index).encode()).digest()[:8], 'big')
