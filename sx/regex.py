"""Regular expressions over symbolic text: the parse tree of the pattern the code uses is matched by backtracking, each
comparison of a symbolic character being a branch decided by the solver. Patterns may contain symbolic characters themselves."""
import re
import sre_constants as C
import sre_parse
from . import engine as _e
from . import smt
from .values import SymStr, mkstr

SPECIAL = '.^$*+?{}[]\\|()-&~#'      # and white space, under re.X
BASE = 0xF0000                       # stands for the symbolic characters of a pattern, while it is parsed


class Unsupported(Exception):
    pass


def _ct(c):
    return smt.const(c) if isinstance(c, int) else c


def _is(c, k):
    """Branch: character c (code, term or part of a digest) is k (code or term)."""
    if isinstance(c, tuple) or isinstance(k, tuple):
        return _e.ACTIVE.branch(SymStr._ceq(c, k))
    if isinstance(c, int) and isinstance(k, int):
        return c == k
    return _e.ACTIVE.branch(smt.eq(_ct(c), _ct(k)))


def _between(c, lo, hi):
    return smt.land(smt.le(smt.const(lo), _ct(c)), smt.le(_ct(c), smt.const(hi)))


def _one_of(c, ranges):
    if isinstance(c, tuple):        # a character of a hex digest
        c = ord('0') if any(lo <= ord('0') and ord('9') <= hi for lo, hi in ranges) else ord('~')
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    return _e.ACTIVE.branch(smt.lor(*[_between(c, lo, hi) for lo, hi in ranges]))


DIGIT = [(48, 57)]
SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0)]
WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]        # symbolic characters beyond ASCII count as no letters
CATEGORY = {C.CATEGORY_DIGIT: (DIGIT, False), C.CATEGORY_NOT_DIGIT: (DIGIT, True), C.CATEGORY_SPACE: (SPACE, False),
            C.CATEGORY_NOT_SPACE: (SPACE, True), C.CATEGORY_WORD: (WORD, False), C.CATEGORY_NOT_WORD: (WORD, True)}


def escape(text):
    """re.escape"""
    if not isinstance(text, SymStr):
        return re.escape(text)
    out = []
    for c in text._chars():
        if isinstance(c, tuple):
            out.append(c)
        elif isinstance(c, int):
            out.extend(map(ord, re.escape(chr(c))))
        else:
            if _one_of(c, [(ord(x), ord(x)) for x in SPECIAL + ' '] + [(9, 13)]):
                out.append(ord('\\'))
            out.append(c)
    return text._from_chars(out)


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, int(flags)
        self.symbols = {}
        if isinstance(pattern, SymStr):
            chars, plain, escaped = pattern._chars(), [], False
            for c in chars:
                if not isinstance(c, (int, tuple)):
                    if escaped:
                        literal = not _one_of(c, [(48, 57), (65, 90), (97, 122)])
                    else:
                        literal = not _one_of(c, [(ord(x), ord(x)) for x in SPECIAL])
                    if not literal:
                        c = _e.ACTIVE.concretise(c, 'special character of a pattern')
                if not isinstance(c, int):
                    self.symbols[BASE + len(self.symbols)] = c
                    c = BASE + len(self.symbols) - 1
                plain.append(chr(c))
                escaped = c == ord('\\') and not escaped
            pattern = ''.join(plain)
        self.tree = sre_parse.parse(pattern, self.flags)
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.flags = self.tree.state.flags
        self.plain = pattern

    # -- matching: m(nodes, i, k) tries the nodes from position i on and then the continuation k
    def _seq(self, nodes, n, s, i, g, k):
        if n == len(nodes):
            return k(i, g)
        op, av = nodes[n]
        nxt = lambda j, g: self._seq(nodes, n + 1, s, j, g, k)
        if op is C.LITERAL:
            return i < len(s) and self._lit(s[i], av) and nxt(i + 1, g)
        if op is C.NOT_LITERAL:
            return i < len(s) and not self._lit(s[i], av) and nxt(i + 1, g)
        if op is C.ANY:
            return i < len(s) and (bool(self.flags & re.S) or not _is(s[i], 10)) and nxt(i + 1, g)
        if op is C.IN:
            return i < len(s) and self._in(s[i], av) and nxt(i + 1, g)
        if op is C.SUBPATTERN:
            group, add, sub, inner = av
            if add or sub:
                raise Unsupported('flags inside of a pattern')

            def done(j, g):
                if group is not None:
                    g = dict(g)
                    g[group] = (i, j)
                return nxt(j, g)
            return self._seq(inner, 0, s, i, g, done)
        if op is C.BRANCH:
            for b in av[1]:
                r = self._seq(list(b) + list(nodes[n + 1:]), 0, s, i, g, k)
                if r:
                    return r
            return False
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, inner = av

            def rep(count, j, g, last):
                more = lambda: (hi is C.MAXREPEAT or count < int(hi)) and j != last and self._seq(
                    inner, 0, s, j, g, lambda x, g: rep(count + 1, x, g, j if count >= int(lo) else None))
                if count < int(lo):
                    return more()
                if op is C.MAX_REPEAT:
                    return more() or nxt(j, g)
                return nxt(j, g) or more()
            return rep(0, i, g, None)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av is C.AT_BEGINNING and self.flags & re.M and _is(s[i - 1], 10))
            elif av is C.AT_END_STRING:
                ok = i == len(s)
            elif av is C.AT_END:
                ok = i == len(s) or ((i == len(s) - 1 or self.flags & re.M) and _is(s[i], 10))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and _one_of(s[i - 1], WORD)
                b = i < len(s) and _one_of(s[i], WORD)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported(str(av))
            return ok and nxt(i, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, inner = av
            if direction == 1:
                found = self._seq(inner, 0, s, i, g, lambda j, g: (j, g))
            else:
                lo, hi = inner.getwidth()
                found = lo == hi and i >= lo and self._seq(inner, 0, s, i - lo, g, lambda j, g: j == i and (j, g))
            if op is C.ASSERT_NOT:
                return not found and nxt(i, g)
            return bool(found) and nxt(i, found[1])
        if op is C.GROUPREF:
            if av not in g:
                return False
            a, b = g[av]
            return i + b - a <= len(s) and all(_is(s[a + x], s[i + x]) for x in range(b - a)) and nxt(i + b - a, g)
        raise Unsupported(str(op))

    def _lit(self, c, k):
        k = self.symbols.get(k, k)
        if self.flags & re.I:
            forms = set([k]) if not isinstance(k, int) else set(map(ord, set([chr(k).lower()[:1], chr(k).upper()[:1], chr(k)])))
            return any(_is(c, f) for f in forms)
        return _is(c, k)

    def _in(self, c, items):
        negate, res = False, False
        for op, av in items:
            if op is C.NEGATE:
                negate = True
            elif op is C.LITERAL:
                res = res or self._lit(c, av)
            elif op is C.RANGE:
                if self.flags & re.I:
                    raise Unsupported('range, ignoring case')
                res = res or _one_of(c, [av])
            elif op is C.CATEGORY:
                ranges, no = CATEGORY[av]
                res = res or (_one_of(c, ranges) != no)
            else:
                raise Unsupported(str(op))
        return res != negate

    def _at(self, text, chars, i, whole=False):
        r = self._seq(list(self.tree), 0, chars, i, {}, lambda j, g: (not whole or j == len(chars)) and (j, g))
        return Match(self, text, chars, i, r[0], r[1]) if r else None

    @staticmethod
    def _chars(text):
        return text._chars() if isinstance(text, SymStr) else list(map(ord, text)) if isinstance(text, str) else list(text)

    def match(self, text, pos=0):
        return self._at(text, self._chars(text), pos)

    def fullmatch(self, text, pos=0):
        return self._at(text, self._chars(text), pos, True)

    def search(self, text, pos=0):
        chars = self._chars(text)
        for i in range(pos, len(chars) + 1):
            m = self._at(text, chars, i)
            if m:
                return m
        return None

    def finditer(self, text, pos=0):
        end = -1
        while True:
            m = self.search(text, pos)
            if m is None:
                return
            if m.end() == m.start():
                pos = m.end() + 1
                if m.end() == end:
                    continue
            else:
                pos = m.end()
            end = m.end()
            yield m

    def findall(self, text, pos=0):
        return [m.group() if not self.groups else m.group(1) if self.groups == 1 else m.groups('') for m in self.finditer(text, pos)]

    def subn(self, repl, text, count=0):
        chars, out, last, n = self._chars(text), [], 0, 0
        for m in self.finditer(text):
            if count and n == count:
                break
            out.extend(chars[last:m.start()])
            r = repl(m) if callable(repl) else m.expand(repl)
            out.extend(self._chars(r))
            last, n = m.end(), n + 1
        out.extend(chars[last:])
        return _text(text, out), n

    def sub(self, repl, text, count=0):
        return self.subn(repl, text, count)[0]

    def split(self, text, maxsplit=0):
        chars, out, last = self._chars(text), [], 0
        for n, m in enumerate(self.finditer(text)):
            if maxsplit and n == maxsplit:
                break
            out.append(_text(text, chars[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
        return out + [_text(text, chars[last:])]


def _text(like, chars):
    kind = like.kind if isinstance(like, SymStr) else 'str' if isinstance(like, str) else 'bytes'
    return SymStr((), kind)._from_chars(chars)


class Match(object):
    def __init__(self, pattern, text, chars, start, end, groups):
        self.re, self.string, self._chars = pattern, text, chars
        self._g = dict(groups)
        self._g[0] = (start, end)

    def _no(self, n):
        n = self.re.groupindex[n] if isinstance(n, str) else n
        if not 0 <= n <= self.re.groups:
            raise IndexError('no such group')
        return n

    def span(self, n=0):
        return self._g.get(self._no(n), (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _one(self, n, default=None):
        n = self._no(n)
        if n not in self._g:
            return default
        a, b = self._g[n]
        return _text(self.string, self._chars[a:b])

    def group(self, *ns):
        if len(ns) <= 1:
            return self._one(*ns or (0,))
        return tuple(self._one(n) for n in ns)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(n, default) for n in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(n, default) for k, n in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max([n for n in self._g if n] or [0]) or None

    def expand(self, template):
        if isinstance(template, SymStr) or '\\' not in template:
            return template
        raise Unsupported('escapes in a replacement')


def lift(p):
    """The symbolic counterpart of a compiled pattern."""
    return Pattern(p.pattern, p.flags)


def compile(pattern, flags=0):
    return Pattern(pattern, flags) if isinstance(pattern, SymStr) else re.compile(pattern, flags)


METHODS = {'match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'subn', 'split'}


def function(name):
    """re.match and so on: (pattern, ...)"""
    plain = getattr(re, name)

    def f(pattern, *a, **k):
        if _e.ACTIVE is None or not any(isinstance(x, SymStr) for x in (pattern,) + a + tuple(k.values())):
            return plain(pattern, *a, **k)
        flags = k.pop('flags', 0)
        n = 2 if name in ('sub', 'subn') else 1
        if not flags and len(a) > n + (name in ('sub', 'subn', 'split')):
            a, flags = a[:-1], a[-1]
        elif not flags and len(a) > n and name in METHODS - {'sub', 'subn', 'split'}:
            a, flags = a[:-1], a[-1]
        if isinstance(pattern, re.Pattern):
            pattern, flags = pattern.pattern, pattern.flags
        return getattr(pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags), name)(*a, **k)
    return f
