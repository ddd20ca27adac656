"""The harness's view of an exploration (SymCtx) or of a replay (ConcCtx): same calls, same names."""
from . import smt
from .engine import PathAbort, PathDone, ViolationFound, Infeasible
from .values import (SymInt, SymBool, SymFix, SymStr, mkint, mkbool, mkfix, mkstr, bterm, SCALE)
from . import values
from .world import World
from .backend import Backend, BackendFault


class Base(object):
    world = None

    def __init__(self, params):
        self.params = params
        # sharding: the first choices of the path are fixed by the job, jobs together cover every combination
        self.force = list(params.get('force', ()))

    def p(self, name, default=None):
        return self.params.get(name, default)

    def make_world(self, **kw):
        self.world = World(self, **kw)
        return self.world

    def teardown(self):
        if self.world is not None:
            self.world.close()

    def done(self):
        raise PathDone()

    def fail(self, label, detail=''):
        self.check(False, label, detail)

    def choose_of(self, name, items):
        items = list(items)
        return items[self.choose(name, len(items))]

    # pure helpers: formulas on proxies, plain logic on plain values
    land = staticmethod(values.land)
    lor = staticmethod(values.lor)
    lnot = staticmethod(values.lnot)
    implies = staticmethod(values.implies)
    eq = staticmethod(values.eq)


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine):
        Base.__init__(self, engine.params)
        self.e = engine

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        t = self.e.fresh(name)
        if lo is not None:
            self.e.assume(smt.le(smt.const(lo), t))
        if hi is not None:
            self.e.assume(smt.le(t, smt.const(hi)))
        return SymInt(t)

    def bool(self, name):
        return SymBool(self.e.fresh(name, 'Bool'))

    def fix(self, name):
        return SymFix(self.e.fresh(name))

    def _forced(self, n):
        at = len(self.params['force']) - len(self.force)
        self.e.forced_sizes[at] = max(n, self.e.forced_sizes.get(at, 0))
        v = self.force.pop(0)
        if v >= n:
            raise Infeasible()
        return v

    def choose(self, name, n):
        if n == 1:
            return 0
        t = self.e.fresh(name)
        if self.force:
            v = self._forced(n)
            self.e.assume(smt.eq(t, smt.const(v)))
            return v
        self.e.assume(smt.land(smt.le(smt.const(0), t), smt.lt(t, smt.const(n))))
        for i in range(n - 1):
            if self.e.branch(smt.eq(t, smt.const(i))):
                return i
        return n - 1

    def pick(self, name, allowed):
        """One of the listed integers."""
        t = self.e.fresh(name)
        if self.force and len(allowed) > 1:
            v = self._forced(len(allowed))
            self.e.assume(smt.eq(t, smt.const(allowed[v])))
            return allowed[v]
        self.e.assume(smt.lor(*[smt.eq(t, smt.const(i)) for i in allowed]))
        for i in allowed[:-1]:
            if self.e.branch(smt.eq(t, smt.const(i))):
                return i
        return allowed[-1]

    def flag(self, name):
        return self.choose(name, 2) == 1

    def str(self, name, length, lo=33, hi=126, any_char=False):
        segs = []
        for _ in range(length):
            c = self.e.fresh(name)
            if any_char:
                self.e.assume(smt.land(smt.le(smt.const(0), c), smt.lor(
                    smt.lt(c, smt.const(0xd800)),
                    smt.land(smt.le(smt.const(0xe000), c), smt.le(c, smt.const(0x10ffff))))))
            else:
                self.e.assume(smt.land(smt.le(smt.const(lo), c), smt.le(c, smt.const(hi))))
            segs.append(c)
        return mkstr(segs)

    def assume(self, b):
        self.e.assume(bterm(b))

    def assume_all(self, bs):
        self.e.assume(smt.land(*[bterm(b) for b in bs]))

    def check(self, b, label, detail='', known=None):
        self.e.check(bterm(b), label, detail, known)

    def possible(self, b):
        return self.e.feasible(bterm(b))

    def may_equal(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.may_equal(a, b) for a, b in zip(x, y))
        r = (x == y)
        if isinstance(r, SymBool):
            return self.e.known.get(r.t, True)
        return r is True

    def max_time(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return max(a, b)
        ta, tb = SymFix._ticks(a), SymFix._ticks(b)
        return mkfix(smt.ite(smt.lt(ta, tb), tb, ta))

    def cover(self, label):
        self.e.cover(label)

    def observe(self, label, v):
        self.e.log.append((label, v))


class ReplayMismatch(Exception):
    pass


class ConcCtx(Base):
    """Replays one path on plain values, on the unmodified modules."""
    symbolic = False

    def __init__(self, params, model):
        Base.__init__(self, params)
        self.model = model
        self.names = {}
        self.log = []
        self.failures = []
        self.covers = set()

    def _val(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return self.model.get('%s#%d' % (name, n), default)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = self._val(name, lo if lo is not None else (hi if hi is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Infeasible()
        return v

    def bool(self, name):
        return bool(self._val(name, False))

    def flag(self, name):
        return self.choose(name, 2) == 1

    def fix(self, name):
        return self._val(name, -1) / float(SCALE)

    def choose(self, name, n):
        if n == 1:
            return 0
        v = self._val(name, 0)
        if not 0 <= v < n:
            raise Infeasible()
        return v

    def pick(self, name, allowed):
        v = self._val(name, allowed[-1])
        if v not in allowed:
            raise Infeasible()
        return v

    def str(self, name, length, lo=33, hi=126, any_char=False):
        return ''.join(chr(self._val(name, lo if not any_char else 97)) for _ in range(length))

    def assume(self, b):
        if not b:
            raise Infeasible()

    def assume_all(self, bs):
        if not all(bs):
            raise Infeasible()

    def check(self, b, label, detail='', known=None):
        if not b:
            raise ViolationFound(label, detail() if callable(detail) else detail, known)

    def possible(self, b):
        return bool(b)

    def may_equal(self, x, y):
        # schedules are replayed, not explored: sleep sets must be computed as they were symbolically
        return True

    def max_time(self, a, b):
        return max(a, b)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, label, v):
        self.log.append((label, v))
