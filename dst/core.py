"""Core of the deterministic simulator: seeded choices, the recorded history of a
run, and the vocabulary of outcomes.

A *run* is one simulated execution.  Everything that happens in it is decided by a
JSON-able *plan* (configuration, operations, faults, schedule); the plan itself is
drawn from one seeded generator.  Executing the same plan against the same tree gives
the same history, byte for byte, whichever worker process executes it.
"""

import hashlib
import json
import random


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:1500]


class HarnessError(Exception):
    """The machinery itself went wrong (never reported as a violation)."""


class SimCrash(BaseException):
    """An injected process death (in-process flavour)."""


class Rng(random.Random):
    """random.Random keyed by a string, independent of PYTHONHASHSEED."""

    def __new__(cls, *key):
        return super().__new__(cls)

    def __init__(self, *key):
        h = hashlib.sha256(":".join(map(str, key)).encode()).digest()
        super().__init__(int.from_bytes(h[:8], "big"))
        self.key = key

    def sub(self, *more):
        return Rng(*self.key, *more)

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def wpick(self, pairs):
        """pairs: [(weight, value), ...]"""
        t = sum(w for w, _ in pairs)
        x = self.random() * t
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def real(self, lo, hi, nd=6):
        return round(lo + (hi - lo) * self.random(), nd)


def np_seed(*key):
    h = hashlib.sha256(":".join(map(str, key)).encode()).digest()
    return int.from_bytes(h[:4], "big")


class World:
    """What one run does and what was observed."""

    def __init__(self, plan):
        self.plan = plan
        self.h = hashlib.sha256()
        self.events = []
        self.faults = {}  # kinds that actually fired
        self.armed = {}  # kinds that were injected (may not have fired)
        self.marks = set()  # distinct abstract states / situations reached
        self.steps = 0  # simulated time: operations and scheduler steps
        self.evals = 0  # oracle evaluations
        self.nontrivial = False
        self.raw = None  # a list in a recorder whose records are merged into another's

    def log(self, *ev):
        self.log_raw(json.dumps(ev, sort_keys=True, default=_js))

    def log_raw(self, s):
        if self.raw is not None:
            self.raw.append(s)
        self.h.update(s.encode())
        self.h.update(b"\n")
        if len(self.events) < 400:
            self.events.append(s[:300])

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True

    def arm(self, kind):
        self.armed[kind] = self.armed.get(kind, 0) + 1

    def mark(self, *what):
        self.marks.add("/".join(map(str, what)))

    def step(self, n=1):
        self.steps += n

    def check(self, cond, kind, detail=""):
        self.evals += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def digest(self):
        return self.h.hexdigest()[:24]


def _js(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return arr_digest(o)
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    return repr(o)


def arr_digest(a):
    import numpy as np

    a = np.ascontiguousarray(a)
    return f"{a.dtype.str}{list(a.shape)}:" + hashlib.sha256(a.tobytes()).hexdigest()[:16]


def exc_name(e):
    return type(e).__name__
