"""Symbolic proxies: SymInt (unbounded integer), SymBool, SymStr (text/bytes of concrete length whose characters may
be symbolic code points, plus opaque digest blocks and decimal renderings of symbolic integers).

All proxies hash to one constant per kind, so Python's own dict and set fall through to __eq__, which asks the solver.
"""
import functools
from . import engine as _e
from . import smt


def _eng():
    e = _e.ACTIVE
    if e is None:
        raise RuntimeError('symbolic value outside an exploration')
    return e


PROXY_HASHES = (11, 13, 17)


HANDLES = None          # the symbolic leaves of pickles in virtual files, by number (see sx/fs.py)


def _handle(i):
    return HANDLES[i]


class Sym(object):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        if HANDLES is None:
            raise TypeError('symbolic values are serialised by reference')
        HANDLES.append(self)
        return _handle, (len(HANDLES) - 1,)


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _eng().branch(self.t)

    def __hash__(self):
        return 11

    def _coerce(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, bool):
            return smt.bconst(o)
        return None

    def __eq__(self, o):
        t = self._coerce(o)
        if t is None:
            return _as_int(self) == o if isinstance(o, (int, SymInt)) else NotImplemented
        return mkbool(smt.eq(self.t, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __and__(self, o):
        t = self._coerce(o)
        return NotImplemented if t is None else mkbool(smt.land(self.t, t))
    __rand__ = __and__

    def __or__(self, o):
        t = self._coerce(o)
        return NotImplemented if t is None else mkbool(smt.lor(self.t, t))
    __ror__ = __or__

    def __xor__(self, o):
        t = self._coerce(o)
        return NotImplemented if t is None else mkbool(smt.lnot(smt.eq(self.t, t)))
    __rxor__ = __xor__

    def __add__(self, o):
        return _as_int(self) + o
    __radd__ = __add__

    def __repr__(self):
        return '<SymBool %s>' % self.t.smt

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _as_int(b):
    return mkint(smt.ite(b.t, smt.const(1), smt.const(0)))


def mkbool(t):
    return smt.val(t) if smt.is_const(t) else SymBool(t)


def mkint(t):
    return smt.val(t) if smt.is_const(t) else SymInt(t)


def bterm(b):
    """The Bool term of a truth value (forks for values that are neither bool nor SymBool)."""
    if isinstance(b, SymBool):
        return b.t
    return smt.bconst(bool(b))


def iterm(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return _as_int(x).t if isinstance(_as_int(x), SymInt) else smt.const(int(_as_int(x)))
    if isinstance(x, bool):
        return smt.const(int(x))
    if isinstance(x, int):
        return smt.const(x)
    if isinstance(x, float) and x == int(x):
        return smt.const(int(x))
    return None


def land(*bs):
    return mkbool(smt.land(*[bterm(b) for b in bs]))


def lor(*bs):
    return mkbool(smt.lor(*[bterm(b) for b in bs]))


def lnot(b):
    return mkbool(smt.lnot(bterm(b)))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """Merged choice between two integers."""
    return mkint(smt.ite(bterm(c), iterm(a), iterm(b)))


def eq(a, b):
    """Equality as a formula (no fork). Handles containers of symbolic leaves of the same shape."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    r = (a == b)
    return r


class SymInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 13

    def __bool__(self):
        return _eng().branch(smt.lnot(smt.eq(self.t, smt.const(0))))

    def _bin(self, o, f, swap=False):
        t = iterm(o)
        if t is None:
            return NotImplemented
        return mkint(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o):
        return self._bin(o, smt.add)

    def __radd__(self, o):
        return self._bin(o, smt.add, True)

    def __sub__(self, o):
        return self._bin(o, smt.sub)

    def __rsub__(self, o):
        return self._bin(o, smt.sub, True)

    def __mul__(self, o):
        if isinstance(o, SymInt):
            return self * _eng().concretise(o.t, 'product of two symbolic integers')
        return self._bin(o, smt.mul)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(smt.floordiv(self.t, o))
        return int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(smt.mod(self.t, o))
        return int(self) % o

    def __truediv__(self, o):
        if isinstance(o, int) and o == 1:
            return self
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __neg__(self):
        return mkint(smt.sub(smt.const(0), self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(smt.ite(smt.lt(self.t, smt.const(0)), smt.sub(smt.const(0), self.t), self.t))

    def _cmp(self, o, f, swap=False):
        if isinstance(o, float) and o != int(o):
            # x < 2.5  <=>  x < 3 ... compare with the neighbouring integers
            import math
            lo, hi = math.floor(o), math.ceil(o)
            if f is smt.lt:
                return mkbool(smt.le(smt.const(hi), self.t) if swap else smt.le(self.t, smt.const(lo)))
            return mkbool(smt.le(smt.const(hi), self.t) if swap else smt.le(self.t, smt.const(lo)))
        t = iterm(o)
        if t is None:
            return NotImplemented
        return mkbool(f(t, self.t) if swap else f(self.t, t))

    def __lt__(self, o):
        return self._cmp(o, smt.lt)

    def __gt__(self, o):
        return self._cmp(o, smt.lt, True)

    def __le__(self, o):
        return self._cmp(o, smt.le)

    def __ge__(self, o):
        return self._cmp(o, smt.le, True)

    def __eq__(self, o):
        t = iterm(o)
        if t is None:
            if isinstance(o, (float,)):
                return False
            return NotImplemented
        return mkbool(smt.eq(self.t, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def __int__(self):
        return _eng().concretise(self.t, 'int()')

    __index__ = __int__
    __trunc__ = __int__
    __round__ = lambda self, n=None: self
    __floor__ = lambda self: self
    __ceil__ = lambda self: self

    def __float__(self):
        return float(self.__int__())

    def __repr__(self):
        return '<SymInt %s>' % self.t.smt

    def __str__(self):
        return str(_eng().concretise(self.t, 'str()'))

    def __format__(self, spec):
        return format(_eng().concretise(self.t, 'format()'), spec)

    def is_integer(self):
        return True


SCALE = 4       # clock readings are multiples of a quarter of a second


class SymFix(Sym):
    """A clock reading: SCALE ticks to the second (exactly representable as a float, so replays lose nothing)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 13

    @staticmethod
    def _ticks(o):
        if isinstance(o, SymFix):
            return o.t
        if isinstance(o, SymInt):
            return smt.mul(o.t, smt.const(SCALE))
        if isinstance(o, SymBool):
            return SymFix._ticks(_as_int(o))
        if isinstance(o, (int, float)) and o == o and o not in (float('inf'), float('-inf')):
            v = o * SCALE
            return smt.const(int(v)) if v == int(v) else None
        return None

    def _bin(self, o, f, swap=False):
        t = self._ticks(o)
        if t is None:
            if isinstance(o, float):
                import math
                t = smt.const(math.floor(o * SCALE))
            else:
                return NotImplemented
        return mkfix(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o):
        return self._bin(o, smt.add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, smt.sub)

    def __rsub__(self, o):
        return self._bin(o, smt.sub, True)

    def __mul__(self, o):
        return mkfix(smt.mul(self.t, smt.const(o))) if isinstance(o, int) else float(self) * o
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return mkfix(smt.mul(smt.floordiv(self.t, o * SCALE), smt.const(SCALE))) \
            if isinstance(o, int) and o > 0 else float(self) // o

    def __mod__(self, o):
        return mkfix(smt.mod(self.t, o * SCALE)) if isinstance(o, int) and o > 0 else float(self) % o

    def __truediv__(self, o):
        return self if o == 1 else float(self) / o

    def __neg__(self):
        return mkfix(smt.sub(smt.const(0), self.t))

    def _cmp(self, o, f, swap=False):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return (o > 0) != swap
        t = self._ticks(o)
        if t is None:
            if not isinstance(o, float):
                return NotImplemented
            import math
            lo, hi = smt.const(math.floor(o * SCALE)), smt.const(math.ceil(o * SCALE))
            return mkbool(smt.le(hi, self.t) if swap else smt.le(self.t, lo))
        return mkbool(f(t, self.t) if swap else f(self.t, t))

    def __lt__(self, o):
        return self._cmp(o, smt.lt)

    def __gt__(self, o):
        return self._cmp(o, smt.lt, True)

    def __le__(self, o):
        return self._cmp(o, smt.le)

    def __ge__(self, o):
        return self._cmp(o, smt.le, True)

    def __eq__(self, o):
        t = self._ticks(o)
        if t is None:
            return False if isinstance(o, float) else NotImplemented
        return mkbool(smt.eq(self.t, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        return _eng().branch(smt.lnot(smt.eq(self.t, smt.const(0))))

    def __float__(self):
        return _eng().concretise(self.t, 'float() of a clock reading') / float(SCALE)

    def __int__(self):
        return _eng().concretise(smt.floordiv(self.t, SCALE), 'int() of a clock reading')

    def __trunc__(self):
        return mkint(smt.floordiv(self.t, SCALE))
    __floor__ = __trunc__

    def __ceil__(self):
        return mkint(smt.floordiv(smt.add(self.t, smt.const(SCALE - 1)), SCALE))

    def __round__(self, n=None):
        if n:
            return self
        return mkint(smt.floordiv(smt.add(self.t, smt.const(SCALE // 2)), SCALE))

    def __abs__(self):
        return mkfix(smt.ite(smt.lt(self.t, smt.const(0)), smt.sub(smt.const(0), self.t), self.t))

    def __str__(self):
        return str(float(self))

    def __format__(self, spec):
        return format(float(self), spec)

    def __repr__(self):
        return '<SymFix %s>' % self.t.smt


def mkfix(t):
    return smt.val(t) / float(SCALE) if smt.is_const(t) else SymFix(t)


# --- text -------------------------------------------------------------------------------------------------------

class Block(object):
    """An opaque digest: `algo` of a byte string, `width` characters. Equal iff the digested texts are equal."""
    __slots__ = ('algo', 'arg', 'width')

    def __init__(self, algo, arg, width):
        self.algo, self.arg, self.width = algo, arg, width


class Num(object):
    """The decimal rendering of a symbolic integer (atomic: equal iff the integers are equal)."""
    __slots__ = ('t', 'kind', 'width')

    def __init__(self, t, kind='int'):
        self.t, self.kind, self.width = t, kind, None

    def show(self, v):
        return str(v / float(SCALE)) if self.kind == 'fix' else str(v)

    def parse(self, s):
        """The value whose rendering is s, or None."""
        try:
            v = int(float(s) * SCALE) if self.kind == 'fix' else int(s)
        except (ValueError, OverflowError):
            return None
        return v if self.show(v) == s else None


_Z = smt.const(0)


def _seg_eq(a, b):
    if isinstance(a, Block) and isinstance(b, Block):
        if a.algo != b.algo or a.width != b.width:
            return smt.FALSE
        return _segs_eq(a.arg, b.arg)
    if isinstance(a, Num) and isinstance(b, Num):
        return smt.eq(a.t, b.t) if a.kind == b.kind else smt.FALSE
    if isinstance(a, (Block, Num)) or isinstance(b, (Block, Num)):
        return None
    return smt.eq(_ct(a), _ct(b))


def _ct(c):
    return smt.const(c) if isinstance(c, int) else c


def _num_vs_text(num, text):
    """Num against a run of concrete digits."""
    v = num.parse(''.join(chr(c) for c in text))
    return smt.FALSE if v is None else smt.eq(num.t, smt.const(v))


KNOWN = {}      # digests of plain texts computed in this process: (algo, hex digest) -> segments of the text


def _preimage(block, text):
    """The text whose digest (or part of it, as in `block`) is this text, among those digested so far."""
    name, _, rest = block.algo.partition('[')
    if not rest:
        return KNOWN.get((name, text))
    for (n, d), segs in KNOWN.items():
        if n == name:
            for part in rest.rstrip(']').split(']['):
                i, j = part.split(':')
                d = d[int(i):int(j)]
            if d == text:
                return segs
    return None


def _lift(b, a):
    """Rewrite the plain digests in b that stand where a has digest blocks as blocks."""
    b = list(b)
    for rev in (False, True):
        if rev:
            a, b = a[::-1], b[::-1]
        for i, x in enumerate(a):
            if i >= len(b) or isinstance(x, Num) or isinstance(b[i], Num):
                break
            if isinstance(x, Block) and isinstance(b[i], int):
                run = b[i:i + x.width]
                if len(run) == x.width and all(isinstance(c, int) for c in run):
                    t = ''.join(map(chr, run[::-1] if rev else run))
                    segs = _preimage(x, t)
                    if segs is None:
                        break
                    b[i:i + x.width] = [Block(x.algo, segs, x.width)]
        if rev:
            a, b = a[::-1], b[::-1]
    return tuple(b)


def _segs_eq(a, b):
    """Formula: two segment lists spell the same text (digests and decimals atomic; see Block and Num)."""
    na, nb = 0, 0
    for x in a:
        if isinstance(x, Block):
            na += 1
    for x in b:
        if isinstance(x, Block):
            nb += 1
    if na > nb:
        b = _lift(b, a)
    elif nb > na:
        a = _lift(a, b)
    if len(a) == len(b) and all(
            isinstance(x, (Block, Num)) == isinstance(y, (Block, Num)) and
            (not isinstance(x, (Block, Num)) or type(x) is type(y)) for x, y in zip(a, b)):
        parts = []
        for x, y in zip(a, b):
            r = _seg_eq(x, y)
            if r is smt.FALSE:
                return smt.FALSE
            parts.append(r)
        return smt.land(*parts)
    # decimals against concrete digits: strip common ends, then compare the middle
    i = 0
    parts = []
    a, b = list(a), list(b)
    while a and b and not isinstance(a[0], Num) and not isinstance(b[0], Num):
        r = _seg_eq(a[0], b[0])
        if r is None or r is smt.FALSE:
            return smt.FALSE
        parts.append(r)
        a.pop(0), b.pop(0)
    while a and b and not isinstance(a[-1], Num) and not isinstance(b[-1], Num):
        r = _seg_eq(a[-1], b[-1])
        if r is None or r is smt.FALSE:
            return smt.FALSE
        parts.append(r)
        a.pop(), b.pop()
    if not a and not b:
        return smt.land(*parts)
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and isinstance(x[0], Num) and all(isinstance(c, int) for c in y):
            return smt.land(*(parts + [_num_vs_text(x[0], y)]))
    return smt.FALSE


class SymStr(Sym):
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind='str'):
        self.segs = tuple(segs)
        self.kind = kind

    # -- construction helpers
    def _of(self, o):
        """Segments of another text of the same kind, or None."""
        if isinstance(o, SymStr):
            return o.segs if o.kind == self.kind else None
        if self.kind == 'str' and isinstance(o, str):
            return tuple(map(ord, o))
        if self.kind == 'bytes' and isinstance(o, (bytes, bytearray)):
            return tuple(o)
        return None

    def _mk(self, segs):
        return mkstr(segs, self.kind)

    def __hash__(self):
        return 17

    def __eq__(self, o):
        s = self._of(o)
        if s is None:
            return NotImplemented
        return mkbool(_segs_eq(self.segs, s))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        return len(self.segs) > 0

    def __len__(self):
        n = 0
        for s in self.segs:
            if isinstance(s, Num):
                v = _eng().concretise(s.t, 'len() of a rendered integer')
                n += len(s.show(v))
            else:
                n += s.width if isinstance(s, Block) else 1
        return n

    def _lt(self, o, strict):
        s = self._of(o)
        if s is None:
            return NotImplemented
        a, b = self.segs, s
        if any(isinstance(x, (Block, Num)) for x in a + b):
            # an arbitrary but consistent total order on opaque text: equality first, then by name
            if _eng().branch(_segs_eq(a, b)):
                return not strict
            return repr(SymStr(a, self.kind)) < repr(SymStr(b, self.kind))
        res = smt.bconst(len(a) < len(b) if strict else len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            x, y = _ct(x), _ct(y)
            res = smt.lor(smt.lt(x, y), smt.land(smt.eq(x, y), res))
        return mkbool(res)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else lnot(r)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else lnot(r)

    def __add__(self, o):
        s = self._of(o)
        return NotImplemented if s is None else self._mk(self.segs + s)

    def __radd__(self, o):
        s = self._of(o)
        return NotImplemented if s is None else self._mk(s + self.segs)

    def __mul__(self, n):
        return self._mk(self.segs * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return mod_format(self, args)

    # -- characters
    def _chars(self):
        """Segments as single characters: opaque digests become slices of their block."""
        out = []
        for s in self.segs:
            if isinstance(s, Block):
                out.extend(('blk', s, i) for i in range(s.width))
            elif isinstance(s, Num):
                v = _eng().concretise(s.t, 'characters of a rendered integer')
                out.extend(ord(c) for c in s.show(v))
            else:
                out.append(s)
        return out

    def _from_chars(self, chars):
        out, i = [], 0
        while i < len(chars):
            c = chars[i]
            if isinstance(c, tuple):
                blk, start = c[1], c[2]
                j = i
                while j < len(chars) and isinstance(chars[j], tuple) and chars[j][1] is blk \
                        and chars[j][2] == start + (j - i):
                    j += 1
                if start == 0 and j - i == blk.width:
                    out.append(blk)
                else:
                    # a truncated digest: still treated as collision-free, under its own name
                    out.append(Block('%s[%d:%d]' % (blk.algo, start, start + j - i), blk.arg, j - i))
                i = j
            else:
                out.append(c)
                i += 1
        return self._mk(out)

    def __getitem__(self, i):
        chars = self._chars()
        if isinstance(i, slice):
            return self._from_chars(chars[i])
        c = chars[i]
        if self.kind == 'bytes':
            return mkint(_ct(c))
        return self._from_chars([c])

    def __iter__(self):
        for c in self._chars():
            yield self._from_chars([c]) if self.kind == 'str' else mkint(_ct(c))

    def _match_at(self, chars, i, sub):
        return smt.land(*[self._ceq(chars[i + j], sub[j]) for j in range(len(sub))])

    @staticmethod
    def _ceq(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[1] is b[1] and a[2] == b[2]:
                return smt.TRUE
            return smt.FALSE
        return smt.eq(_ct(a), _ct(b))

    def _find(self, sub, start=0):
        """First index of sub (forks per position), or -1."""
        s = self._of(sub)
        if s is None:
            raise TypeError('must be %s' % self.kind)
        chars, sub = self._chars(), SymStr(s, self.kind)._chars()
        for i in range(start, len(chars) - len(sub) + 1):
            if _eng().branch(self._match_at(chars, i, sub)):
                return i
        return -1

    def _rfind(self, sub):
        """Last index of sub (forks per position), or -1."""
        s = self._of(sub)
        if s is None:
            raise TypeError('must be %s' % self.kind)
        chars, sub = self._chars(), SymStr(s, self.kind)._chars()
        for i in reversed(range(len(chars) - len(sub) + 1)):
            if _eng().branch(self._match_at(chars, i, sub)):
                return i
        return -1

    def rfind(self, sub):
        return self._rfind(sub)

    def rindex(self, sub):
        i = self._rfind(sub)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def find(self, sub, start=0):
        return self._find(sub, start)

    def index(self, sub, start=0):
        i = self._find(sub, start)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        n, i = 0, 0
        while True:
            i = self._find(sub, i)
            if i < 0:
                return n
            n += 1
            i += max(len(sub), 1)

    def __contains__(self, sub):
        return self._find(sub) >= 0

    def startswith(self, pre, *a):
        if a:
            part = self[slice(*a)]
            return part.startswith(pre) if isinstance(part, SymStr) or not isinstance(pre, (SymStr, tuple)) else \
                SymStr(self._of(part), self.kind).startswith(pre)
        if isinstance(pre, tuple):
            return lor(*[self.startswith(p) for p in pre])
        s = self._of(pre)
        if s is None:
            raise TypeError('startswith')
        chars, sub = self._chars(), SymStr(s, self.kind)._chars()
        return mkbool(self._match_at(chars, 0, sub)) if len(sub) <= len(chars) else False

    def endswith(self, suf, *a):
        if a:
            part = self[slice(*a)]
            return part.endswith(suf) if isinstance(part, SymStr) or not isinstance(suf, (SymStr, tuple)) else \
                SymStr(self._of(part), self.kind).endswith(suf)
        if isinstance(suf, tuple):
            return lor(*[self.endswith(p) for p in suf])
        s = self._of(suf)
        if s is None:
            raise TypeError('endswith')
        chars, sub = self._chars(), SymStr(s, self.kind)._chars()
        return mkbool(self._match_at(chars, len(chars) - len(sub), sub)) if len(sub) <= len(chars) else False

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            for c in self._chars():
                if self._is_space(c):
                    if cur:
                        out.append(self._from_chars(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(self._from_chars(cur))
            return out
        chars = self._chars()
        n = len(sep)
        out, start, i = [], 0, 0
        while maxsplit != 0:
            i = self._find(sep, start)
            if i < 0:
                break
            out.append(self._from_chars(chars[start:i]))
            start = i + n
            maxsplit -= 1
        out.append(self._from_chars(chars[start:]))
        return out

    def replace(self, old, new, count=-1):
        return join(new, self.split(old, count)) if not isinstance(new, SymStr) else new.join(self.split(old, count))

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, '', '')

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            if maxsplit < 0:
                return self.split(sep)
            raise NotImplementedError('rsplit(None, n) of symbolic text')
        chars, out, rest = self._chars(), [], self
        while maxsplit != 0:
            i = SymStr(self._of(rest), self.kind)._rfind(sep)
            if i < 0:
                break
            chars = SymStr(self._of(rest), self.kind)._chars()
            out.append(self._from_chars(chars[i + len(sep):]))
            rest = self._from_chars(chars[:i])
            maxsplit -= 1
        return [rest] + out[::-1]

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ('', '', self)

    def splitlines(self, keepends=False):
        chars, out, start, i = self._chars(), [], 0, 0
        ends = (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029) if self.kind == 'str' else (10, 13)

        def among(c, options):
            return not isinstance(c, tuple) and _eng().branch(
                smt.lor(*[smt.eq(_ct(c), smt.const(x)) for x in options]))
        while i < len(chars):
            if among(chars[i], ends):
                end = i + 1
                if end < len(chars) and among(chars[i], (13,)) and among(chars[end], (10,)):
                    end += 1
                out.append(self._from_chars(chars[start:end if keepends else i]))
                start = i = end
            else:
                i += 1
        if start < len(chars):
            out.append(self._from_chars(chars[start:]))
        return out

    def removeprefix(self, pre):
        return self[len(pre):] if self.startswith(pre) else self

    def removesuffix(self, suf):
        return self[:len(self) - len(suf)] if len(suf) and self.endswith(suf) else self

    def ljust(self, width, fill=' '):
        return self + fill * max(0, width - len(self))

    def rjust(self, width, fill=' '):
        return fill * max(0, width - len(self)) + self

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def translate(self, table):
        out = ''
        for c in self._chars():
            piece = self._from_chars([c])
            if not isinstance(c, tuple):
                for k, v in table.items():
                    if _eng().branch(smt.eq(_ct(c), smt.const(k))):
                        piece = '' if v is None else chr(v) if isinstance(v, int) else v
                        break
            out = out + piece
        return out

    def join(self, items):
        return join(self, items)

    @staticmethod
    def _is_space(c):
        if isinstance(c, tuple):
            return False
        c = _ct(c)
        return _eng().branch(smt.lor(*([smt.eq(c, smt.const(x)) for x in (32, 0x85, 0xa0)] +
                                       [smt.land(smt.le(smt.const(9), c), smt.le(c, smt.const(13))),
                                        smt.land(smt.le(smt.const(28), c), smt.le(c, smt.const(31)))])))

    def _strip(self, chars, left, right, cs=None):
        pred = self._is_space
        if cs is not None:
            want = SymStr(self._of(cs), self.kind)._chars()

            def pred(c):
                return _eng().branch(smt.lor(*[self._ceq(c, w) for w in want]))
        a, b = 0, len(chars)
        while left and a < b and pred(chars[a]):
            a += 1
        while right and b > a and pred(chars[b - 1]):
            b -= 1
        return self._from_chars(chars[a:b])

    def strip(self, cs=None):
        return self._strip(self._chars(), True, True, cs)

    def lstrip(self, cs=None):
        return self._strip(self._chars(), True, False, cs)

    def rstrip(self, cs=None):
        return self._strip(self._chars(), False, True, cs)

    def _map(self, f):
        out = []
        for s in self.segs:
            if isinstance(s, Block):
                out.append(s)            # hex digests are lower case; upper() of one is a renaming
            elif isinstance(s, Num):
                out.append(s)
            else:
                t = f(_ct(s))
                out.append(smt.val(t) if smt.is_const(t) else t)
        return self._mk(out)

    def lower(self):
        return self._map(lambda c: smt.ite(_between(c, 65, 90), smt.add(c, smt.const(32)), c))

    casefold = lower

    def upper(self):
        return self._map(lambda c: smt.ite(_between(c, 97, 122), smt.sub(c, smt.const(32)), c))

    def _all(self, f):
        if not self.segs:
            return False
        return mkbool(smt.land(*[f(_ct(c)) for c in self._chars() if not isinstance(c, tuple)]))

    def isdigit(self):
        return self._all(lambda c: _between(c, 48, 57))

    def isalpha(self):
        return self._all(lambda c: smt.lor(_between(c, 65, 90), _between(c, 97, 122)))

    def isascii(self):
        return mkbool(smt.land(*[smt.lt(_ct(c), smt.const(128)) for c in self._chars() if not isinstance(c, tuple)]))

    def isalnum(self):
        return self._all(lambda c: smt.lor(_between(c, 48, 57), _between(c, 65, 90), _between(c, 97, 122)))

    def isspace(self):
        return self._all(lambda c: smt.lor(smt.eq(c, smt.const(32)), _between(c, 9, 13), _between(c, 28, 31)))

    def encode(self, encoding='utf-8', errors='strict'):
        # utf-8 (or another injective codec) keeps texts apart; a character stands for its own encoding
        enc = str(encoding).lower().replace('-', '').replace('_', '')
        if enc in ('ascii', 'latin1', 'iso88591'):
            lim = 128 if enc == 'ascii' else 256
            out = []
            for c in self.segs:
                if isinstance(c, (Block, Num)):
                    out.append(c)
                    continue
                if _eng().branch(smt.lt(_ct(c), smt.const(lim))):
                    out.append(c)
                elif errors == 'strict':
                    raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
                elif errors == 'replace':
                    out.append(ord('?'))
                elif errors == 'ignore':
                    pass
                else:
                    out.append(c)
            return mkstr(out, 'bytes')
        return mkstr(self.segs, 'bytes')

    def decode(self, encoding='utf-8', errors='strict'):
        return mkstr(self.segs, 'str')

    def format(self, *a, **k):
        # symbolic characters which are no braces stand for themselves in the result
        plain, held = [], {}
        for c in self._chars():
            if not isinstance(c, (int, tuple)):
                if _eng().branch(smt.lor(smt.eq(c, smt.const(123)), smt.eq(c, smt.const(125)))):
                    c = _eng().concretise(c, 'brace of a format')
            if not isinstance(c, int):
                held[0xF8000 + len(held)] = c
                c = 0xF8000 + len(held) - 1
            plain.append(chr(c))
        r = str_format(''.join(plain), a, k)
        segs = r.segs if isinstance(r, SymStr) else tuple(map(ord, r))
        return self._from_chars([held.get(c, c) if isinstance(c, int) else c for c in SymStr(segs)._chars()])

    def __format__(self, spec):
        if spec in ('', 's'):
            return str(self)
        return format(str(self), spec)

    def __str__(self):
        return self._concrete('str() in uninstrumented code')

    def __bytes__(self):
        return bytes(map(ord, self._concrete('bytes()')))

    def _concrete(self, why):
        e = _eng()
        out = []
        for s in self.segs:
            if isinstance(s, Num):
                out.append(s.show(e.concretise(s.t, why)))
            elif isinstance(s, Block):
                out.append('%s(%s)' % (s.algo, SymStr(s.arg)._concrete(why)))
            else:
                out.append(chr(e.concretise(_ct(s), why)))
        return ''.join(out)

    def render(self, model):
        out = []
        for s in self.segs:
            if isinstance(s, Num):
                out.append(s.show(smt.ev(s.t, model)))
            elif isinstance(s, Block):
                out.append(digest(s.algo, SymStr(s.arg, 'bytes').render(model)))
            else:
                out.append(chr(smt.ev(_ct(s), model)))
        return ''.join(out)

    def __repr__(self):
        out = []
        for s in self.segs:
            if isinstance(s, int):
                out.append(chr(s))
            elif isinstance(s, Block):
                out.append('{%s:%r}' % (s.algo, SymStr(s.arg)))
            elif isinstance(s, Num):
                out.append('{#%s}' % s.t.smt)
            else:
                out.append('{%s}' % s.smt)
        return '<SymStr %s>' % ''.join(out)


def digest(algo, text):
    """The real digest of a concrete text (used when a path witness is rendered)."""
    import hashlib
    name, _, rest = algo.partition('[')
    h = hashlib.new(name, text.encode('utf-8')).hexdigest()
    if rest:
        for part in rest.rstrip(']').split(']['):
            a, b = part.split(':')
            h = h[int(a):int(b)]
    return h


def _between(c, lo, hi):
    return smt.land(smt.le(smt.const(lo), c), smt.le(c, smt.const(hi)))


def mkstr(segs, kind='str'):
    segs = tuple(segs)
    if all(isinstance(s, int) for s in segs):
        return ''.join(map(chr, segs)) if kind == 'str' else bytes(bytearray(segs)) if all(
            s < 256 for s in segs) else SymStr(segs, kind)
    return SymStr(segs, kind)


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x, depth=4):
    """Does a value contain a symbolic leaf?"""
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    return False


DIGITS = [False]     # render decimals digit by digit (exact also where texts are joined without separators)


def _digits(x):
    """The decimals of a symbolic integer, one path per number of digits."""
    sign = ()
    if x < 0:
        sign, x = (ord('-'),), -x
    n = 1
    while not x < 10 ** n:
        n += 1
    if not isinstance(x, SymInt):
        return ''.join(map(chr, sign)) + str(x)
    return mkstr(sign + tuple(smt.add(smt.mod(smt.floordiv(x.t, 10 ** k), 10), smt.const(48)) for k in reversed(range(n))))


def text(x):
    """str(x) for any x, keeping symbolic content."""
    if isinstance(x, SymStr):
        if x.kind == 'bytes':
            return mkstr(tuple(map(ord, "b'")) + x.segs + (ord("'"),))
        return x
    if isinstance(x, SymInt):
        if DIGITS[0]:
            return _digits(x)
        return SymStr([Num(x.t)])
    if isinstance(x, SymFix):
        return SymStr([Num(x.t, 'fix')])
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (list, tuple)) and deep_sym(x):
        o, c = ('[', ']') if isinstance(x, list) else ('(', ')')
        body = join(', ', [rep(i) for i in x])
        if isinstance(x, tuple) and len(x) == 1:
            body = body + ','
        return o + body + c
    if isinstance(x, (dict, set, frozenset)) and deep_sym(x):
        if isinstance(x, dict):
            return '{' + join(', ', [rep(k) + ': ' + rep(v) for k, v in x.items()]) + '}'
        body = '{' + join(', ', [rep(i) for i in x]) + '}'
        return body if isinstance(x, set) else 'frozenset(' + body + ')'
    return str(x)


def rep(x):
    if isinstance(x, SymStr):
        return "'" + x + "'"          # quoting of special characters is ignored: it is injective
    if isinstance(x, Sym) or deep_sym(x):
        return text(x)
    return repr(x)


def join(sep, items):
    out = []
    items = list(items)
    kind = 'bytes' if isinstance(sep, bytes) or (isinstance(sep, SymStr) and sep.kind == 'bytes') else 'str'
    base = SymStr((), kind)
    sep = base._of(sep)
    for n, i in enumerate(items):
        s = base._of(i)
        if s is None:
            raise TypeError('sequence item %d: expected %s instance, %s found' % (n, kind, type(i).__name__))
        if n:
            out.extend(sep)
        out.extend(s)
    return mkstr(out, kind)


def apply_spec(v, conv, spec):
    if conv == 'r' or conv == 'a':
        v = rep(v)
    elif conv == 's':
        v = text(v)
    if spec in ('', None):
        return text(v)
    if spec == 's' and isinstance(v, SymStr):
        return v
    if spec == 'd' and isinstance(v, SymInt):
        return text(v)
    if isinstance(v, SymStr):
        return format(v._concrete('format spec'), spec)
    return format(v, spec)


def str_format(fmt, args, kwargs):
    """str.format with symbolic arguments (parsed with the real format-string parser)."""
    import string
    f = string.Formatter()
    out = ''
    auto = 0
    if isinstance(fmt, SymStr):
        fmt = fmt._concrete('format string')
    for lit, field, spec, conv in f.parse(fmt):
        out = out + lit
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = f.get_field(field, args, kwargs)
        if spec and '{' in spec:
            spec = str_format(spec, args, kwargs)
        out = out + apply_spec(obj, conv, spec)
    return out


def mod_format(fmt, args):
    """'%' formatting with symbolic arguments (%s, %d, %i, %r; others are concretised)."""
    import re
    if isinstance(fmt, SymStr):
        if fmt.kind == 'bytes' or not all(isinstance(s, int) for s in fmt.segs):
            fmt = fmt._concrete('format string')
    out, pos, n = '', 0, 0
    mapping = isinstance(args, dict)
    seq = args if isinstance(args, tuple) else (args,)
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])', fmt):
        out = out + fmt[pos:m.start()]
        pos = m.end()
        if m.group(5) == '%':
            out = out + '%'
            continue
        if m.group(1) is not None and mapping:
            v = args[m.group(1)]
        else:
            if n >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[n]
            n += 1
        plain = not (m.group(2) or m.group(3) or m.group(4))
        if m.group(5) == 's' and plain:
            out = out + text(v)
        elif m.group(5) in 'ra' and plain:
            out = out + rep(v)
        elif m.group(5) in 'di' and plain and isinstance(v, SymInt):
            out = out + text(v)
        else:
            if isinstance(v, SymInt):
                v = int(v)
            elif isinstance(v, SymStr):
                v = str(v)
            out = out + ('%' + m.group(2) + m.group(3) + ('.' + m.group(4) if m.group(4) else '') + m.group(5)) % (v,)
    out = out + fmt[pos:]
    if not mapping and n < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return out
