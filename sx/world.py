"""The environment of one path: clock, randomness, timers, threads and their interleaving.

Everything the code under test can observe of its environment is a symbolic variable constrained only by its documented
contract: clock readings do not decrease along the happens-before order, random draws lie in their range (draws from a
range of 2**60 or more are assumed pairwise distinct), timers fire no earlier than start + delay.
Installed before the repository is imported, in explorations and in replays alike.
"""
import _thread
import os
import random
import socket
import threading
import time
from .engine import PathAbort, Pruned
from . import engine as _e
from . import values

CURRENT = None
_real_time = time.time
_RealTimer = threading.Timer
_RealSystemRandom = random.SystemRandom
_RealThread = threading.Thread
_random, _sample = random.random, random.sample


def _time():
    w = CURRENT
    return _real_time() if w is None else w.now()


class Timer(object):
    """Stand-in for threading.Timer: start() registers the call with the path's world, which decides when it fires."""

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function
        self.args = list(args) if args is not None else []
        self.kwargs = dict(kwargs) if kwargs is not None else {}
        self.daemon = False
        self.name = 'timer'
        self.started_at = None
        self.cancelled = False
        self.fired = False

    def start(self):
        if CURRENT is None:
            return None
        self.started_at = CURRENT.now()
        CURRENT.timers.append(self)

    def cancel(self):
        self.cancelled = True

    def is_alive(self):
        return self.started_at is not None and not self.fired

    def join(self, timeout=None):
        pass

    def setDaemon(self, v):
        self.daemon = v


class SystemRandom(_RealSystemRandom):
    def randrange(self, *a, **k):
        w = CURRENT
        if w is None:
            return _RealSystemRandom.randrange(self, *a, **k)
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return w.draw(lo, hi)

    def getrandbits(self, n):
        w = CURRENT
        return _RealSystemRandom.getrandbits(self, n) if w is None else w.draw(0, 1 << n)

    def randint(self, a, b):
        return self.randrange(a, b + 1)


class Thread(_RealThread):
    """A thread the code under test starts is run when the harness says."""

    def start(self):
        if CURRENT is None:
            return _RealThread.start(self)
        CURRENT.threads.append(self)


def random_():
    w = CURRENT
    if w is None or not w.fs:
        return _random()
    r = w.ctx.fix('random')
    w.ctx.assume_all([r >= 0, r < 1])
    return r


def sample(population, k, **kw):
    w = CURRENT
    if w is None or not w.fs:
        return _sample(population, k, **kw)
    rest, out = list(population), []
    for _ in range(k):
        out.append(rest.pop(w.ctx.choose('sample', len(rest))))
    return out


IDENTITY = {}       # overrides of host name, process id and thread id, see harness/c16.py
_real = dict(host=socket.gethostname, pid=os.getpid, ident=_thread.get_ident)


def _identity(name):
    def f():
        v = IDENTITY.get(name)
        return _real[name]() if v is None else v
    return f


def install():
    socket.gethostname, os.getpid = _identity('host'), _identity('pid')
    _thread.get_ident = threading.get_ident = _identity('ident')
    time.time = _time
    threading.Timer = Timer
    threading.Thread = Thread
    random.random, random.sample = random_, sample
    random.SystemRandom = SystemRandom


class Killed(PathAbort):
    pass


class Session(object):
    """A real thread of execution, run one at a time."""

    def __init__(self, world, name):
        self.world, self.name = world, name
        # raw locks as hand-over signals: semaphores are several times slower
        self.go = _thread.allocate_lock()
        self.back = _thread.allocate_lock()
        self.go.acquire()
        self.back.acquire()
        self.job = None
        self.kill = False
        self.state = 'idle'
        self.exc = None
        self.result = None
        self.pending = None
        self.last_time = None
        _thread.start_new_thread(self._loop, ())

    def _loop(self):
        while True:
            self.go.acquire()
            if self.kill:
                self.state = 'dead'
                self.back.release()
                return
            try:
                self.result = self.job()
            except BaseException as e:
                self.exc = e
            self.state = 'idle'
            self.back.release()

    def _resume(self):
        w = self.world
        prev, w.running = w.running, self
        self.state = 'running'
        self.go.release()
        self.back.acquire()
        w.running = prev
        if self.exc is not None and isinstance(self.exc, BaseException) and not isinstance(self.exc, Exception):
            e, self.exc = self.exc, None
            raise e

    def start(self, job):
        self.job, self.exc, self.result = job, None, None
        self._resume()

    def call(self, f, *a, **k):
        """Run f in this thread to completion; its result or exception comes back."""
        self.start(lambda: f(*a, **k))
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        return self.result

    def park(self, op):
        """Called in the session's own thread, before a shared operation."""
        if self.kill:
            raise Killed()
        self.pending = op
        self.state = 'parked'
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise Killed()
        self.pending = None
        self.state = 'running'

    def stop(self):
        self.kill = True
        if self.state in ('idle', 'parked'):
            self.go.release()
            self.back.acquire()
            if self.state != 'dead':        # the job unwound; end the thread's loop
                self.go.release()
                self.back.acquire()


class World(object):
    def __init__(self, ctx, ttl='live', frozen=False, plain=False):
        global CURRENT
        self.ctx = ctx
        self.ttl = ttl              # 'live': no entry expires within the history; 'fork': expiry follows the clock
        self.frozen = frozen        # True: the clock is a plain constant (properties that do not depend on it)
        self.plain = plain          # True: draws are plain distinct constants (properties that do not depend on them)
        self.sessions = []
        self.running = None
        self.concurrent = False
        self.timers = []
        self.threads = []
        self.fs = None
        self.draws = []
        self.events = []
        self.marks = []
        self.ops = []
        self.stores = {}
        self.last = None
        self.split = False
        CURRENT = self

    # --- clock ----------------------------------------------------------------------------------------------

    def now(self):
        if self.frozen:
            return 1000.0
        t = self.ctx.fix('t')
        if self.concurrent and self.running is not None:
            s = self.running
            self.ctx.assume(t >= (s.last_time if s.last_time is not None else self.last))
            s.last_time = t
        else:
            self.ctx.assume(t >= (self.last if self.last is not None else 1000))
            self.last = t
        return t

    def exact_decimals(self, on):
        values.DIGITS[0] = on

    def draw(self, lo, hi):
        if self.plain:
            self.draws.append(lo + (len(self.draws) * 0x9e3779b97f4a7c15) % (hi - lo))
            return self.draws[-1]
        r = self.ctx.int('rand', lo, hi - 1)
        if hi - lo >= 1 << 60:
            for o in self.draws:
                self.ctx.assume(r != o)
            self.draws.append(r)
        return r

    # --- shared operations ----------------------------------------------------------------------------------

    def op(self, kind, keys):
        """A shared-memory operation is about to happen: kind 'r' or 'w' on resources `keys`. -> its time or None."""
        s = self.running
        if not self.concurrent or s is None:
            return None
        s.park((kind, keys))
        t = self.ctx.fix('t')
        if not self.ctx.symbolic:
            s.last_time = t
            return t
        conds = [t >= (s.last_time if s.last_time is not None else self.last)]
        seen = set()
        for (who, k2, keys2, t2) in reversed(self.events):
            if who is s or who in seen:
                continue
            if self._dependent((kind, keys), (k2, keys2)):
                seen.add(who)
                conds.append(t >= t2)
        self.ctx.assume_all(conds)
        s.last_time = t
        self.events.append((s, kind, keys, t))
        return t

    def mark(self, kind, what, item):
        """An observable boundary of a call: ordered like an operation ('r' marks commute with each other)."""
        self.op(kind, [what])
        self.marks.append(item)

    def _dependent(self, a, b):
        if a[0] == 'r' and b[0] == 'r':
            return False
        for x in a[1]:
            for y in b[1]:
                if self.ctx.may_equal(x, y):
                    return True
        return False

    # --- threads --------------------------------------------------------------------------------------------

    def session(self, name=None):
        s = Session(self, name or 's%d' % len(self.sessions))
        self.sessions.append(s)
        return s

    def interleave(self, jobs, bound=None):
        """Run the jobs [(session, function)] under every interleaving of their shared operations (partial-order
        reduced with sleep sets: of equivalent schedules only the lexicographically first is kept).
        bound: at most that many preemptions, or None."""
        if self.last is None:
            self.now()
        self.concurrent = True
        preempt = 0
        try:
            for s, f in jobs:
                s.last_time = self.last
                s.start(f)
            order = [s for s, f in jobs]
            sleep = set()
            current = None
            while True:
                ready = [s for s in order if s.state == 'parked']
                if not ready:
                    break
                # at most one non-sleeping choice need be offered twice: pruned ones are never offered
                offer = [s for s in ready if s not in sleep] if self.ctx.symbolic else ready
                if not offer:
                    raise Pruned()
                if bound is not None and current is not None and current in ready and preempt >= bound:
                    offer = [current]
                if len(ready) > 1:
                    s = order[self.ctx.pick('sched', [order.index(x) for x in offer])]
                else:
                    s = ready[0]
                i = offer.index(s) if s in offer else 0
                if current is not None and s is not current and current in ready:
                    preempt += 1
                current = s
                op = s.pending
                # siblings offered earlier in the order sleep until something dependent on their next step happens
                if bound is None and self.ctx.symbolic:
                    cand = sleep | set(offer[:i])
                    sleep = set(x for x in cand if x is not s and not self._dependent(x.pending, op))
                s._resume()
        finally:
            self.concurrent = False
        for s, f in jobs:
            if s.last_time is not None:
                self.last = self.ctx.max_time(self.last, s.last_time)
        for s, f in jobs:
            if s.exc is not None:
                e, s.exc = s.exc, None
                raise e
        return [s.result for s, f in jobs]

    # --- timers ---------------------------------------------------------------------------------------------

    def fire(self, timer):
        """Let a timer's call happen, in a thread of its own, at an instant its delay allows."""
        timer.fired = True
        if not self.frozen:
            t = self.ctx.fix('t')
            self.ctx.assume(t >= timer.started_at + timer.interval)
            self.ctx.assume(t >= self.last)
            self.last = t
        s = self.session('timer')
        return s.call(timer.function, *timer.args, **timer.kwargs)

    def pending_timers(self):
        return [t for t in self.timers if not t.fired and not t.cancelled]

    def close(self):
        global CURRENT
        self.concurrent = False
        for s in self.sessions:
            s.stop()
        self.sessions = []
        values.DIGITS[0] = False
        values.HANDLES = None
        CURRENT = None
