"""Programs of nested cache creation, against a reference: an entry carries its own tags and the tags of everything that
was served from cache or saved while it was being created."""
from .common import Env, Party, tags_dep, dummy, MISS
from .flat import victim

NAMES = 'abcdefghijklmnopqrstuvwxyz'


class Boom(Exception):
    pass


class Program(object):
    """Runs the program's operations on the real cache and on the reference at once."""

    def __init__(self, ctx, cache, version=None):
        self.ctx, self.c, self.version = ctx, cache, version
        self.open = []              # [key, inherited tags, tracked?]
        self.entries = {}           # key -> tags
        self.n = 0

    def tag(self):
        self.n += 1
        return NAMES[self.n - 1]

    def contribute(self, tags):
        for o in self.open:
            o[1] |= tags

    def save(self, key, *tags):
        """An entry put there beforehand."""
        self.c.set(key, key, tags_dep(*tags), version=self.version)
        self.entries[key] = set(tags)
        self.contribute(set(tags))

    def begin(self, how=0, key=None):
        key = key or 'e%d' % self.n
        self.n += 1
        if how == 0:
            r = self.c.get(key, MISS, self.version)
            self.ctx.check(r == MISS, 'nobody saved it yet')
        else:
            self.c.begin(key)
        self.open.append([key, set()])
        return key

    def set(self, tagged=True, at=-1):
        key, inherited = self.open.pop(at)
        own = set([self.tag()]) if tagged else set()
        self.c.set(key, key, tags_dep(*own) if tagged else None, version=self.version)
        self.entries[key] = own | inherited
        self.contribute(own)
        return key

    def abort(self, at=-1):
        key, inherited = self.open.pop(at)
        self.c.abort(key)

    def hit(self, key, how):
        if how == 0:
            r = self.c.get(key, MISS, self.version)
        elif how == 1:
            r = self.c.get_many([key], self.version).get(key, MISS)
        else:
            r = self.c.get_or_set_callback(key, self.never, dummy(), None, self.version)
        self.ctx.check(r == key, 'a valid entry is served')
        self.contribute(self.entries[key])

    def never(self):
        self.ctx.check(False, 'nothing is computed on a hit')

    def compute(self, body=None, fail=False):
        """get-or-compute whose function reads `body`, and possibly raises."""
        key = 'e%d' % self.n
        self.n += 1
        own = self.tag()

        def f():
            if body is not None:
                self.hit(body, 0)
            if fail:
                raise Boom()
            return key
        self.open.append([key, set()])
        try:
            r = self.c.get_or_set_callback(key, f, tags_dep(own), None, self.version)
            self.ctx.check(r == key and not fail, 'the computed value is returned')
        except Boom:
            self.ctx.check(fail, 'only the function\'s own failure comes out')
            self.open.pop()
            return
        k, inherited = self.open.pop()
        self.entries[key] = set([own]) | inherited
        self.contribute(set([own]))

    def bulk(self, known):
        """A bulk read of a valid entry and a missing one, which is then saved."""
        key = 'e%d' % self.n
        self.n += 1
        r = self.c.get_many([known, key], self.version)
        self.ctx.check(r == {known: known}, 'exactly the valid entry comes back')
        self.contribute(self.entries[known])
        own = self.tag()
        self.c.set(key, key, tags_dep(own), version=self.version)
        self.entries[key] = set([own])
        self.contribute(set([own]))

    def verdict(self, sound, precise, key=None):
        """Invalidate one tag, whichever, and look at every entry."""
        ctx = self.ctx
        x = ctx.str('x', 1, lo=97, hi=122)
        self.c.invalidate_dependency(tags_dep(x), self.version)
        for k in ([key] if key else sorted(self.entries)):
            r = self.c.get(k, MISS, self.version, abort=True)
            if any(x == t for t in sorted(self.entries[k])):
                if sound:
                    ctx.check(r == MISS, 'an entry dies with any tag of what it was made of',
                              lambda: repr((k, self.entries, x)))
                ctx.cover('died')
            else:
                if precise:
                    ctx.check(r == k, 'an entry survives tags of nothing it was made of',
                              lambda: repr((k, self.entries, x)))
                ctx.cover('survived')


OPS = ('begin', 'set', 'hit', 'hit-last', 'compute', 'compute-hit', 'bulk', 'abort', 'fail')
MORE = OPS + ('set-plain', 'close')


def program(ctx):
    """Free programs, well nested."""
    w = ctx.make_world(frozen=True)
    e = Env(w, legacy=ctx.p('legacy', False), safe=ctx.p('safe', False))
    p = Program(ctx, e.cache, ctx.p('version'))
    p.save('pre', p.tag(), p.tag())
    if ctx.p('inside', True):
        p.begin()
    last = 'pre'
    prefix = ctx.p('prefix') or []
    for i in range(len(prefix) + ctx.p('steps')):
        op = prefix[i] if i < len(prefix) else ctx.choose_of('op', ctx.p('ops') or OPS)
        if op == 'begin':
            if len(p.open) >= ctx.p('depth', 4):
                ctx.done()
            p.begin(ctx.choose('how', 2) if ctx.p('hows') else 0)
        elif op == 'set':
            if not p.open:
                ctx.done()
            last = p.set()
        elif op == 'set-plain':     # without tags of its own
            if not p.open:
                ctx.done()
            last = p.set(False)
        elif op in ('set-outer', 'abort-outer'):     # the enclosing creation is over before the one in it
            if len(p.open) < 2:
                ctx.done()
            if op == 'set-outer':
                last = p.set(False, -2)
            else:
                p.abort(-2)
        elif op == 'close':         # the session's work ends here, whatever was still being made is forgotten
            p.c.close()
            del p.open[:]
        elif op == 'abort':
            if not p.open:
                ctx.done()
            p.abort()
        elif op == 'hit':
            p.hit('pre', ctx.choose('how', 3) if ctx.p('hows') else 0)
        elif op == 'hit-last':
            if last == 'pre':
                ctx.done()
            p.hit(last, ctx.choose('how', 3) if ctx.p('hows') else 0)
        elif op == 'compute':
            p.compute()
        elif op == 'compute-hit':
            p.compute(last)
        elif op == 'fail':
            p.compute(last, fail=True)
        elif op == 'bulk':
            p.bulk(last)
    while p.open:
        p.set()
    # the session is clean again: what is made now inherits nothing of the above
    p.begin()
    p.set()
    p.verdict(ctx.p('sound', True), ctx.p('precise', True))


def chain(ctx):
    """Deep nesting: the outermost entry depends on the innermost one, whatever way it was obtained."""
    w = ctx.make_world(frozen=True)
    e = Env(w)
    p = Program(ctx, e.cache)
    p.save('pre', p.tag())
    depth = ctx.p('chain', 6)
    for i in range(depth):
        p.begin()
    if ctx.flag('hit'):
        p.hit('pre', ctx.choose('how', 3))
    elif ctx.flag('bulk'):
        p.bulk('pre')
    else:
        p.compute('pre', fail=ctx.flag('fail'))
    given_up = ctx.choose('given up', depth)
    for i in range(depth):
        if i == given_up and i < depth - 1:
            p.abort()
        else:
            p.set()
    p.verdict(ctx.p('sound', True), ctx.p('precise', True))


def wide(ctx):
    """Many descendants with many tags each."""
    n = ctx.p('n')
    w = ctx.make_world(frozen=True, plain=n > 20)
    c = Env(w).cache
    for i in range(n):
        c.set('d%d' % i, i, tags_dep('t%d' % i, 'common', 'u%d' % i))
    c.set('beside', 0, tags_dep('beside'))
    ctx.check(c.get('top') is None, 'not saved yet')
    way = ctx.choose('way', 3)
    if way == 0:
        for i in range(n):
            c.get('d%d' % i)
    elif way == 1:
        ctx.check(len(c.get_many(['d%d' % i for i in range(n)])) == n, 'all served')
    else:
        for i in range(n):
            c.get('sub%d' % i)
            c.get('d%d' % i)
            c.set('sub%d' % i, i, tags_dep('s%d' % i))
    c.set('top', 'top', tags_dep('own'))
    i = victim(ctx, n)
    which = ctx.choose_of('tag', ['t', 'u', 's', 'beside', 'own'])
    if which == 's' and way != 2:
        ctx.done()
    c.invalidate_dependency(tags_dep(which + ('%d' % i if len(which) == 1 else '')))
    r = c.get('top', MISS, abort=True)
    if which == 'beside':
        if ctx.p('precise', True):
            ctx.check(r == 'top', 'the tag of an entry it was not made of')
        ctx.cover('survived')
    else:
        if ctx.p('sound', True):
            ctx.check(r == MISS, 'dies with any tag of any descendant', lambda: repr((which, i)))
        ctx.cover('died')


def refused(ctx):
    """Inner entries whose saving is refused because of a lock: the outer one, saved when the lock is over, still depends
    on all of their tags."""
    w = ctx.make_world()
    level = ctx.choose_of('level', ['READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE'])
    A, B = Party(w, 'A', level=level), Party(w, 'B', level=level)
    locked = ctx.flag('locked')
    if locked:
        B.do(B.cache.transaction.begin)
        B.do(B.cache.invalidate_dependency, tags_dep('t'))
    key = 'inner'
    how = ctx.choose('how', 3)

    def work():
        c = A.cache
        c.get('outer')
        if how == 0:
            c.get('inner')
            c.get('innermost')
            c.set('innermost', 2, tags_dep('s', 't'))
            c.set('inner', 1, tags_dep('u'))
        elif how == 1:
            c.get_or_set_callback('inner', lambda: 1, tags_dep('t', 's', 'u'))
        else:
            c.get_many(['inner', 'more'])
            c.set('inner', 1, tags_dep('s', 't'))
            c.set('more', 1, tags_dep('u'))
    A.do(work)
    if locked and level != 'READ COMMITTED':
        ctx.check(A.do(A.cache.get, 'inner', MISS, None, True) == MISS, 'refused')
        ctx.cover('refused')
    if locked:
        B.do(B.cache.transaction.finish)
    A.do(A.cache.set, 'outer', 'outer', tags_dep('own'))
    if A.do(A.cache.get, 'outer', MISS, None, True) == MISS:      # refused itself
        ctx.done()
    x = ctx.str('x', 1, lo=97, hi=122)
    A.do(A.cache.invalidate_dependency, tags_dep(x))
    r = A.do(A.cache.get, 'outer', MISS, None, True)
    if x == 's' or x == 't' or x == 'u':
        if ctx.p('sound', True):
            ctx.check(r == MISS, 'the outer entry dies with the tags of what was refused', lambda: repr((how, level, x)))
        ctx.cover('died')
    elif x != 'own':
        ctx.cover('survived')
