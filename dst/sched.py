"""Cooperative thread scheduler.

Tasks are real threads, but exactly one runs at any time.  A running task may lose the
baton at every line of the code under test (a trace function) and at every operation of
the harness (`point`).  When, and to whom, is decided by the plan: `gaps` is a list of
[number of points until the next switch, which of the ready tasks gets the baton].
Each task has its own stream of the global random generators."""

import os
import random
import sys
import threading
import time
import zlib

import numpy as np

from .core import HarnessError

STALL = 60.0


class Stop(BaseException):
    pass


class Task:
    def __init__(self, k, name, fn, ready):
        self.k, self.name, self.fn, self.ready = k, name, fn, ready
        self.sem = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.rng = None
        self.points = 0
        self.parked, self.when = None, 0
        self.hot = {}  # how often it gave way at which line


class Sched:
    def __init__(self, gaps, folder, seed=0, lines=True, hot=None):
        self.gaps = list(gaps)
        # [modulus, residue, most, kind]: at the lines (or functions) of the code under test
        # whose name falls into this class a task is parked (at most `most` times) until
        # another one has come to the same place or nobody else can go on; those that met
        # then go on in short alternation for a while
        self.hot = hot
        self.kind = hot[3] if hot and len(hot) > 3 else "line"
        self.duel, self.duel_left = set(), 0
        self.hots = 0
        self.met = set()
        self.folder = folder
        self.tasks = []
        self.cur = None
        self.left = self.gaps[0][0] if self.gaps else None
        self.next = 0
        self.points = 0
        self.switches = 0
        self.trail = []  # (points so far, from, to)
        self.lines = lines
        self.over = threading.Event()
        self.seed = seed
        self.stalls = 0
        self.stopping = False
        self.local = threading.local()
        self.where = set()
        self.threads = None
        self.at = None  # called with the number of points so far at each of them

    def spawn(self, name, fn, ready=None):
        """A new task; may be called by a running task."""
        t = Task(len(self.tasks), name, fn, ready or (lambda: True))
        self.tasks.append(t)
        if self.threads is not None:
            self.start(t)
        return t

    def start(self, t):
        th = threading.Thread(target=self.body, args=(t,), daemon=True)
        self.threads.append(th)
        th.start()

    # --- random streams

    def save(self, t):
        t.rng = random.getstate(), np.random.get_state()

    def restore(self, t):
        if t.rng is None:
            random.seed(f"{self.seed}/{t.k}")
            np.random.seed((self.seed * 31 + t.k) % (1 << 32))
        else:
            random.setstate(t.rng[0])
            np.random.set_state(t.rng[1])

    # --- switching

    def candidates(self):
        all_ = [t for t in self.tasks if not t.done and t.ready()]
        free = [t for t in all_ if t.parked is None]
        if not free and all_:
            # the one that was parked last, so that the others keep waiting to be met
            t = max(all_, key=lambda t: t.when)
            t.parked = None
            free = [t]
        return free

    def choose(self):
        """Consume one entry of the plan; None when it is used up."""
        if self.next < len(self.gaps):
            c = self.gaps[self.next][1]
            self.next += 1
            self.left = self.gaps[self.next][0] if self.next < len(self.gaps) else None
            return c
        return None

    def hand(self, t):
        self.cur = t
        self.restore(t)
        t.sem.release()

    def point(self, where=None, hot=False):
        """The running task may lose the baton here."""
        me = getattr(self.local, "task", None)
        if me is None:
            return
        if self.stopping:
            raise Stop()
        if me is not self.cur:  # it had been given up as blocked
            me.sem.acquire()
            if self.stopping:
                raise Stop()
            return
        self.points += 1
        me.points += 1
        if self.at is not None:
            self.at(self.points)
        if hot and me.hot.get(hot, 0) < self.hot[2]:
            me.hot[hot] = me.hot.get(hot, 0) + 1
            self.hots += 1
            c = zlib.crc32(f"{self.seed}/{self.hots}".encode())
            met = [t for t in self.tasks if t.parked == hot]
            for t in met:
                t.parked = None
            if not met:
                me.parked, me.when = hot, self.hots
            else:
                self.met.add(hot)
                self.duel, self.duel_left = {me.k, *(t.k for t in met)}, 10 + c // 7 % 80
            cand = self.candidates()
        elif self.duel_left > 0 and me.k in self.duel:
            self.duel_left -= 1
            c = zlib.crc32(f"{self.seed}/{self.points}".encode())
            if c % 3 == 0:
                return
            c //= 3
            cand = [t for t in self.candidates() if t.k in self.duel and t is not me]
        elif self.left is None:
            return
        else:
            self.left -= 1
            if self.left > 0:
                return
            c = self.choose()
            cand = self.candidates()
        t = cand[c % len(cand)] if cand else me
        if t is me:
            return
        self.switches += 1
        self.trail.append((self.points, me.k, t.k))
        if where:
            self.where.add(where)
        self.save(me)
        self.hand(t)
        me.sem.acquire()
        if self.stopping:
            raise Stop()

    def wait_until(self, cond):
        """The running task cannot go on before cond() holds."""
        me = self.local.task
        while not cond():
            me.ready, old = cond, me.ready
            cand = [t for t in self.candidates() if t is not me]
            if not cand:
                raise HarnessError("deadlock: nobody can make the condition true")
            t = cand[(self.choose() or 0) % len(cand)]
            self.save(me)
            self.trail.append((self.points, me.k, t.k))
            self.hand(t)
            me.sem.acquire()
            me.ready = old
            if self.stopping:
                raise Stop()

    # --- threads

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.folder):
            if event == "call" and self.hot is not None and self.kind == "fn":
                name = os.path.basename(frame.f_code.co_filename), frame.f_code.co_name
                h = f"{name[0]}:{name[1]}"
                if zlib.crc32(h.encode()) % self.hot[0] == self.hot[1]:
                    self.point(name, h)
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            name = os.path.basename(frame.f_code.co_filename), frame.f_code.co_name
            h = self.hot is not None and self.kind == "line" and f"{name[0]}:{name[1]}:{frame.f_lineno - frame.f_code.co_firstlineno}"
            h = h if h and zlib.crc32(h.encode()) % self.hot[0] == self.hot[1] else False
            self.point(name, h)
        return self.line

    def body(self, t):
        self.local.task = t
        t.sem.acquire()
        try:
            if not self.stopping:
                if self.lines:
                    sys.settrace(self.trace)
                t.fn()
        except Stop:
            pass
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            if not self.stopping:
                t.done = True
                self.save(t)
                if self.cur is t:
                    cand = self.candidates()
                    if cand:
                        c = self.choose() or 0
                        n = cand[c % len(cand)]
                        self.trail.append((self.points, t.k, n.k))
                        self.hand(n)
                    else:
                        self.over.set()

    def run(self):
        keep = random.getstate(), np.random.get_state()
        self.threads = []
        for t in self.tasks:
            self.start(t)
        first = self.candidates()
        if not first:
            raise HarnessError("no task can start")
        c = self.choose() or 0
        self.hand(first[c % len(first)])
        seen, since = -1, time.monotonic()
        while not self.over.wait(0.5):
            if self.points != seen:
                seen, since = self.points, time.monotonic()
            elif time.monotonic() - since > STALL:
                # the running task is blocked by something that is not ours
                cand = [t for t in self.candidates() if t is not self.cur]
                if not cand:
                    continue
                self.stalls += 1
                self.save(self.cur)
                self.hand(cand[0])
                since = time.monotonic()
        for t in self.tasks:
            if not t.done and t.error is None:
                raise HarnessError(f"task {t.name} never became ready")
        random.setstate(keep[0])
        np.random.set_state(keep[1])
        for th in self.threads:
            th.join(20)
        return [t.error for t in self.tasks]


def gen_gaps(rng, n=None):
    """Switch points: some close together, some far apart."""
    n = rng.randint(3, 60) if n is None else n
    scale = rng.pick([2, 8, 30, 120, 500, 2000])
    return [[max(1, int(rng.expovariate(1.0 / scale) if rng.chance(0.8) else rng.randint(1, 3))), rng.randrange(12)] for _ in range(n)]


def gen_hot(rng, p=0.5):
    m, most = rng.pick([3, 8, 20, 40]), rng.pick([1, 2, 6])
    kind = rng.pick(["line", "fn"])
    if kind == "fn":
        m = rng.pick([3, 8, 16])
    return [m, rng.randrange(m), most, kind] if rng.chance(p) else None
