"""Deferred requests: any combination answers every request as it would have been answered alone, in as few round trips
as there are distinct queries; the cost of every operation does not depend on how many tags and keys it handles."""
from sx import runtime
from harness.common import Env, Party, tags_dep, dummy, MISS, read, shards, LEVELS
PROPERTY = 'C13'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    job([3, 3], 'combine', ['found', 'answered', 'shared trip'], n=3, groups=3, symbolic=True)
    job([5, 5], 'combine', ['answered', 'failed', 'nothing'], n=4, groups=5, symbolic=False, twice=True)
    job([5], 'cost', ['counted'])
    job([], 'criterion', ['same', 'different'])
    job([], 'direct', ['answered'])
    job([2, 3], 'repeated', ['answered'])
    if thorough:
        job([5, 5], 'combine', ['found', 'answered'], n=3, groups=5, symbolic=True, twice=True)
        job([5, 5, 5], 'combine', ['answered', 'failed', 'nothing'], n=5, groups=5, symbolic=False, twice=True)
    return out


class Refused(Exception):
    pass


def combine(ctx):
    """n requests to several queries put together in any bracketing; some answers raise."""
    from cache_dependencies import defer
    from sx.backend import Backend
    w = ctx.make_world(frozen=True)
    X, Y = Backend(w, 'X', none_when_empty=True), Backend(w, 'Y')
    n, sym = ctx.p('n'), ctx.p('symbolic')
    if sym:
        stored = ctx.str('stored', 1)
        X.set(stored, 'x', version=1)
        X.set('b', 'xb', version=1)
        X.set('b', 'xb2', version=2)
        Y.set(stored, 'y', version=1)
    else:
        for b in (X, Y):
            for v in (1, 2):
                for k in 'ac':
                    b.set(k, (b is X, v, k), version=v)
    groups = [(X, 1), (X, 2), None, (Y, 1), (X, None)][:ctx.p('groups')]

    class Request(object):
        def __init__(self, i):
            self.i = i
            self.group = ctx.choose_of('group', groups)
            if sym:
                self.keys = [ctx.str('key', 1), 'b'] if i == 0 else [ctx.str('key', 1)]
            else:
                self.keys = [['a'], ['b', 'c'], []][i % 3]
            self.fails = not sym and i % 2 == 1 and ctx.p('fails', True)
            self.calls = 0
            if self.group is None:
                self.d = defer.Deferred(None, defer.NoneDeferredIterator)
            else:
                self.d = defer.Deferred(self.group[0].get_many, defer.GetManyDeferredIterator, self.group[1])
            self.d.add_callback(self.answer, self.keys, extra=i)
            self.second = ctx.p('twice') and i == 0
            if self.second:         # a request may consist of several parts
                self.d.add_callback(self.answer2, ['c'], extra='second')

        def expected(self, keys):
            if self.group is None:
                return None
            store, v = self.group
            return runtime.make_dict((k, val) for k, val in ((k, store.get(k, version=v)) for k in keys) if val is not None)

        def answer(self, node, caches, keys, extra):
            self.calls += 1
            ctx.check(keys is self.keys and extra == self.i, 'the callback gets its own arguments')
            if self.fails:
                ctx.cover('failed')
                raise Refused(self.i)
            return (self.i, caches)

        def answer2(self, node, caches, keys, extra):
            ctx.check(keys == ['c'] and extra == 'second', 'the callback gets its own arguments')
            return ('second', caches)

    rs = [Request(i) for i in range(n)]
    want = []
    for r in rs:
        want.append(r)
        if r.second:
            want.append('second')
    # any bracketing, keeping the order
    parts = [r.d for r in rs]
    while len(parts) > 1:
        i = ctx.choose('join', len(parts) - 1)
        a = parts[i]
        a += parts.pop(i + 1)
        parts[i] = a
    d = parts[0]
    expected = {}
    for r in rs:
        expected[r] = r.expected(r.keys)
        if r.second:
            expected['second'] = r.expected(['c'])
    del w.ops[:]
    for r in reversed(want):
        try:
            got = d.get()
            ctx.check(r == 'second' or not r.fails, 'a failing answer is the one that fails')
            ctx.check(got[0] == (r if r == 'second' else r.i), 'answers come in the reverse order of the requests')
            exp = expected[r]
            if exp is None:
                ctx.check(got[1] is None, 'no query, no result')
            else:
                ctx.check(len(got[1]) == len(exp), 'exactly the entries asked for and present', lambda: repr((got, exp)))
                for k in exp:
                    ctx.check(runtime.contains(k, got[1]) and runtime.item(got[1], k) == exp[k], 'exactly the entries asked for', lambda: repr((got, exp)))
                ctx.cover('found' if exp else 'nothing')
            ctx.cover('answered')
        except Refused as e:
            ctx.check(r != 'second' and r.fails and e.args == (r.i,), 'a failure belongs to its request')
        if r != 'second':
            ctx.check(r.calls == 1, 'every callback is called once')
    try:
        d.get()
        ctx.check(False, 'after the last answer there is none')
    except StopIteration:
        pass
    ctx.check(all(r.calls == 1 for r in rs), 'every callback is called once')
    # round trips: at most one per distinct query
    used = [r.group for r in rs if r.group is not None]
    distinct = len(set((g[0] is X, g[1]) for g in used))
    ctx.check(len(w.ops) <= distinct, 'at most one round trip for all requests of a query', lambda: repr(w.ops))
    if len(used) > distinct:
        ctx.cover('shared trip')
    ctx.observe('trips', len(w.ops))


def repeated(ctx):
    """The same request made several times, callback, keys and all: each is answered."""
    from cache_dependencies import defer
    from sx.backend import Backend
    w = ctx.make_world(frozen=True)
    b = Backend(w)
    b.set('a', 'va', version=1)
    calls = []
    fails = ctx.flag('fails')
    form = ctx.choose('form', 3)
    keys = ['a', 'b']

    def answer(node, caches, *args, **kw):
        calls.append((args, sorted(kw.items())))
        if fails and len(calls) == 2:
            raise Refused()
        return len(calls)

    def add(d):
        if form == 1:
            d.add_callback(answer, keys)
        elif form == 2:
            d.add_callback(answer, keys, 'x', y='z')
        else:
            d.add_callback(answer, list(keys))
        return d

    def make():
        if ctx.p('none'):
            return defer.Deferred(None, defer.NoneDeferredIterator)
        return defer.Deferred(b.get_many, defer.GetManyDeferredIterator, 1)
    n = 0
    d = None
    for i in range(ctx.choose('n', 3) + 1):
        x = add(make())
        n += 1
        if ctx.flag('again'):
            add(x)
            n += 1
        if d is None:
            d = x
        elif ctx.flag('left'):
            d += x
        else:
            x += d
            d = x
    for i in range(n):
        try:
            ctx.check(d.get() == i + 1, 'each request is answered, once')
        except Refused:
            ctx.check(i == 1 and fails, 'by its own failure')
    try:
        d.get()
        ctx.check(False, 'after the last answer there is none')
    except StopIteration:
        pass
    ctx.check(len(calls) == n, 'every callback is called once')
    if form:
        ctx.check(all(c == calls[0] for c in calls), 'with its own arguments')
    ctx.cover('answered')


def direct(ctx):
    """Answers can be pulled from inside of a callback (composite answers), whatever they cost."""
    from cache_dependencies import defer
    from sx.backend import Backend
    w = ctx.make_world(frozen=True)
    X = Backend(w, 'X')
    n = ctx.choose('n', 4)
    for i in range(n):
        if ctx.flag('present'):
            X.set('k%d' % i, i)
    d = defer.Deferred(None, defer.NoneDeferredIterator)
    for i in range(n):
        other = defer.Deferred(X.get_many, defer.GetManyDeferredIterator, None)
        other.add_callback(lambda node, caches, keys: caches, ['k%d' % i])
        d += other
    top = defer.Deferred(None, defer.NoneDeferredIterator)
    d += top

    def collect(node, caches):
        return [node.get() for _ in range(n)]
    d.add_callback(collect)
    del w.ops[:]
    got = d.get()
    ctx.check(len(w.ops) == (1 if n else 0), 'in one round trip')
    ctx.check(got == [X.get_many(['k%d' % i]) for i in reversed(range(n))], 'all answers, last first')
    ctx.cover('answered')


def cost(ctx):
    """Backend round trips of every operation: as many for n tags and keys as for one."""
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency
    op = ctx.choose_of('op', ['get', 'get_many', 'set', 'invalidate', 'tx'])
    level = LEVELS[ctx.choose('level', 4)]
    composite = ctx.flag('composite')
    fresh = ctx.flag('fresh')
    delay = 5 if ctx.flag('delay') else 0

    def run(n, m):
        w = ctx.make_world(frozen=True, plain=True)
        c = Env(w, level=level, delay=delay).cache
        tags = ['tag%d' % i for i in range(n)]

        def d(i=''):
            ts = [t + str(i) for t in tags]
            return CompositeDependency(*[TagsDependency(t) for t in ts]) if composite else TagsDependency(*ts)
        if op == 'get':
            c.set('k', 'v', d())
            if fresh:
                c.cache.delete_many([e.key for e in c.cache.entries if 'tag' in e.key])
            del w.ops[:]
            c.get('k', abort=True)
        elif op == 'get_many':
            for i in range(m):
                c.set('k%d' % i, 'v', d(i))
            if fresh:
                for i in range(0, m, 2):
                    c.invalidate_dependency(TagsDependency('tag0%d' % i))
            del w.ops[:]
            r = c.get_many(['k%d' % i for i in range(m)], abort=not fresh)
            ctx.check(len(r) == (m // 2 if fresh else m), 'served')
        elif op == 'set':
            if not fresh:
                c.set('other', 'v', d())
            del w.ops[:]
            c.set('k', 'v', d())
        elif op == 'invalidate':
            if fresh:
                c.set('k', 'v', d())
            del w.ops[:]
            c.invalidate_dependency(TagsDependency(*tags))
        else:
            c.transaction.begin()
            for i in range(m if fresh else 1):
                c.invalidate_dependency(d(i))
            del w.ops[:]
            c.transaction.finish()
        return [o[0] for o in w.ops]
    one = run(1, 2)
    few = run(3, 4)
    lots = run(40, 20)
    ctx.check(len(few) == len(one) and len(lots) == len(one), 'round trips do not depend on the number of tags and keys',
              lambda: repr((op, len(one), len(few), len(lots), lots[:12])))
    ctx.check(len(one) <= 4, 'and there are few of them', lambda: repr(one))
    ctx.observe('n', len(one))
    ctx.cover('counted')


def criterion(ctx):
    """Requests share a round trip only if it is the same query with the same arguments."""
    from cache_dependencies import defer
    calls = []

    def q1(keys, *args, **kw):
        calls.append(('q1', sorted(keys), args, kw))
        return {k: ('q1', k, args, kw) for k in keys}

    def q2(keys, *args, **kw):
        calls.append(('q2', sorted(keys), args, kw))
        return {k: ('q2', k, args, kw) for k in keys}
    ctx.make_world(frozen=True)
    x = ctx.choose('x', 3)
    forms = [
        ((), {}), ((None,), {}), ((1,), {}), ((2,), {}), ((x,), {}), ((), {'version': 1}), ((), {'version': x}),
        ((), {'version': 1, 'other': [1, 2]}), ((), {'version': 1, 'other': [1, x]}), (([1, {'a': 2}],), {}), (({1, 2},), {}), (({1, x},), {}),
    ]
    fa, fb = ctx.choose_of('fa', forms), ctx.choose_of('fb', forms)
    qa, qb = q1, (q2 if ctx.flag('other query') else q1)
    a = defer.Deferred(qa, defer.GetManyDeferredIterator, *fa[0], **fa[1])
    b = defer.Deferred(qb, defer.GetManyDeferredIterator, *fb[0], **fb[1])
    a.add_callback(lambda n, caches, keys: caches, ['a', 's'])
    b.add_callback(lambda n, caches, keys: caches, ['b', 's'])
    a += b
    rb, ra = a.get(), a.get()
    name = lambda q: 'q1' if q is q1 else 'q2'
    ctx.check(ctx.eq(ra['a'][2:], fa) and ra['a'][0] == name(qa), 'answered by its own query')
    ctx.check(ctx.eq(rb['b'][2:], fb) and rb['b'][0] == name(qb), 'answered by its own query')
    ctx.check(sorted(ra) == ['a', 's'] and sorted(rb) == ['b', 's'], 'with its own keys')
    same = qa is qb and fa == fb
    ctx.check(len(calls) == 1 if same else len(calls) == 2, 'one round trip if it is the same query', lambda: repr((calls, fa, fb)))
    ctx.cover('same' if same else 'different')


BOUNDS = ('3 requests with symbolic keys to up to 3 (thorough 5) queries, 4 (thorough 5) requests with plain keys to 5, in every '
          'bracketing; 12x12 argument forms; costs compared for 1, 3 and 40 tags with 2, 4 and 20 keys')
ASSUMPTIONS = ('requests are put together before their answers are taken',)
