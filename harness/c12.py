"""Per-thread objects are refused to other threads before anything happens; every thread gets its own."""
from harness.common import Env, Party, tags_dep, dummy, MISS, read, shards, REPEATABLE_READ
PROPERTY = 'C12'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        dj = p.pop('django', False)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=dj))
    job([2], 'parts', ['own', 'foreign'], steps=3 if thorough else 2)
    job([2], 'cache', ['own', 'foreign'])
    job([3], 'collection', ['own'], django=True)
    job([], 'connections', ['own'], django=True)
    job([2], 'sessions', ['separate'])
    return out


def attempt(ctx, f, *a, **kw):
    """-> (refused, result)"""
    try:
        return False, f(*a, **kw)
    except RuntimeError:
        return True, None


def parts(ctx):
    """The thread-safe managers: any operation by any of two threads, in any order."""
    from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
    from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
    from cache_dependencies.locks import DependencyLock
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    relations = ctx.flag('relations')
    calls = []

    class Lock(object):
        def acquire(self, *a):
            calls.append('acquire')

        def release(self, *a):
            calls.append('release')

    if relations:
        plain = RelationManager()
        safe = A.call(ThreadSafeRelationManagerDecorator, plain)
        state = lambda: (plain.current(), plain.current().key(), bool(plain.current()))
    else:
        plain = TransactionManager(Lock())
        safe = A.call(ThreadSafeTransactionManagerDecorator, plain)
        state = lambda: (bool(plain.current()), plain.current() if plain.current() else None, len(calls))

    def func():
        calls.append('func')
        return 'result'

    def block():
        with safe:
            func()

    def decorated():
        return safe(func)()

    def decorated_empty():
        return safe()(func)()
    if relations:
        ops = [lambda: safe.get('x'), lambda: safe.current(), lambda: safe.current('x'), lambda: safe.pop('x'),
               lambda: safe.current(safe.get('y')), safe.clear]
    else:
        ops = [lambda: safe.current(), safe.begin, safe.finish, safe.flush, block, decorated, decorated_empty]
    for i in range(ctx.p('steps')):
        who = [A, B][ctx.choose('who', 2)]
        op = ctx.choose_of('op', ops)
        before, n = state(), len(calls)
        refused, r = attempt(ctx, who.call, op)
        if who is B:
            ctx.check(refused, 'another thread is refused')
            ctx.check(state() == before and len(calls) == n, 'before anything happens')
            ctx.cover('foreign')
        else:
            ctx.check(not refused, 'the owner is not')
            ctx.cover('own')
    # whatever happened, the owner goes on
    if relations:
        A.call(safe.clear)
        A.call(safe.current, 'k')
        ctx.check(A.call(safe.current).key() == 'k', 'the owner goes on')
    else:
        A.call(safe.flush)
        A.call(safe.begin)
        ctx.check(bool(A.call(safe.current)), 'the owner goes on')
        A.call(safe.finish)
        ctx.check(not A.call(safe.current), 'the owner goes on')


def cache(ctx):
    """A cache wrapper used in a foreign thread: refused, nothing stored, invalidated or left pending."""
    w = ctx.make_world(frozen=True)
    A, B = Party(w, 'A', safe=True, legacy=ctx.flag('legacy')), Party(w, 'B')
    c = A.cache
    A.do(A.cache.invalidate_dependency, tags_dep('t'))
    B.do(B.cache.set, 'old', 'old', tags_dep('t'))
    in_tx, in_creation = ctx.flag('in tx'), ctx.flag('in creation')
    if in_tx:
        A.do(c.transaction.begin)
    if in_creation:
        A.do(c.get, 'k')
    ops = [lambda: c.get('k'), lambda: c.get('old'), lambda: c.get_many(['k', 'old']), lambda: c.begin('k'),
           lambda: c.abort('k'), lambda: c.finish('k', tags_dep('u')), c.close, lambda: c.set('k', 'bad', None),
           lambda: c.set('k', 'bad', tags_dep('u')), lambda: c.invalidate_dependency(tags_dep('t')),
           lambda: c.get_or_set_callback('k', lambda: 'bad', tags_dep('t')), lambda: c.transaction.begin(),
           lambda: c.transaction.current(), lambda: c.relation_manager.current(), lambda: c.transaction.flush()]
    n = len([e for e in w.ops if e[0] not in ('get', 'get_many')])
    refused, r = attempt(ctx, B.do, ctx.choose_of('op', ops))
    ctx.check(refused, 'another thread is refused')
    ctx.check(len([e for e in w.ops if e[0] not in ('get', 'get_many')]) == n, 'nothing was written')
    ctx.check(B.do(read, B.cache, 'get', 'old') == 'old', 'nothing was invalidated')
    ctx.check(B.do(read, B.cache, 'get', 'k') == MISS, 'nothing was stored')
    ctx.check(bool(A.do(c.transaction.current)) == in_tx, 'the owner\'s transaction is what it was')
    cur = A.do(c.relation_manager.current)
    ctx.check(bool(cur) == in_creation and (not in_creation or cur.key() == 'k'), 'the owner\'s creation too')
    ctx.cover('foreign')
    A.do(c.set, 'k', 'v', tags_dep('u'))
    ctx.check(A.do(read, c, 'get', 'k') == 'v', 'the owner goes on')
    ctx.cover('own')


def collection(ctx):
    """The Django collection: one instance per thread and alias, usable in that thread, whatever the order of asking."""
    from django_cache_dependencies import caches, get_cache, cache
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    way = ctx.choose('way', 3)
    aliases = ['default', 'other', 'alias']
    ask = [lambda a: caches[a], lambda a: caches(a), lambda a: get_cache(a)][way]
    seen = {}
    for i in range(4):
        s = [A, B][ctx.choose('who', 2)]
        a = ctx.choose_of('alias', aliases[:2])
        c = s.call(ask, a)
        if (s, a) in seen:
            ctx.check(seen[s, a] is c, 'the same thread gets the same instance')
        for k, v in seen.items():
            if k != (s, a):
                ctx.check(v is not c, 'every thread and alias has its own')
        seen[s, a] = c
        s.call(c.transaction.begin)
        ctx.check(bool(s.call(c.transaction.current)), 'usable in its thread')
    for (s, a), c in seen.items():
        other = B if s is A else A
        refused, r = attempt(ctx, other.call, c.transaction.current)
        ctx.check(refused, 'not elsewhere')
        refused, r = attempt(ctx, other.call, c.relation_manager.current)
        ctx.check(refused, 'not elsewhere')
        ctx.check(c in list(s.call(caches.all)), 'listed in its thread')
        ctx.check(c not in list(other.call(caches.all)), 'not elsewhere')
    ctx.check(A.call(ask, None if way else 'default') is A.call(caches, 'default') if way else True, 'the default alias')
    mine = A.call(caches, 'default')
    ctx.check(A.call(lambda: cache == mine and not (cache != mine)), 'the proxy stands for the thread\'s own')
    ctx.check(B.call(lambda: cache != mine), 'the proxy stands for the thread\'s own')
    ctx.cover('own')


def connections(ctx):
    """Locks work through the backend connection of the thread that uses them; threads do not share connections."""
    from django_cache_dependencies import caches
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    alias = ctx.choose_of('alias', ['rr', 'rc', 'delayed', 'default'])
    a, b = A.call(lambda: caches[alias]), B.call(lambda: caches[alias])
    raw = lambda c: getattr(c, 'cache').cache
    ctx.check(raw(a) is not raw(b), 'a connection per thread')
    # both see the same store
    A.call(a.set, 'k', 'v', ('t',))
    ctx.check(B.call(b.get, 'k', None, None, True) == 'v', 'the same store')
    A.call(a.transaction.begin)
    A.call(a.invalidate_tags, 't')
    A.call(a.transaction.finish)
    ctx.check(B.call(b.get, 'k', None, None, True) is None, 'the same store')
    for t in w.pending_timers():
        w.fire(t)
        ctx.check(alias == 'delayed', 'delays as configured')
    # ignoring descendants is per thread as well
    A.call(setattr, a, 'ignore_descendants', True)
    ctx.check(not B.call(getattr, b, 'ignore_descendants'), 'settings of one thread are its own')
    ctx.cover('own')


def sessions(ctx):
    """Transactions of two threads are separate, in every interleaving of their scopes."""
    w = ctx.make_world(frozen=True)
    A, B = Party(w, 'A', safe=True), Party(w, 'B', safe=True)
    depth = {A: 0, B: 0}
    pend = {A: [], B: []}
    for i in range(5):
        p = [A, B][ctx.choose('who', 2)]
        op = ctx.choose('op', 2)
        if op == 0:
            if depth[p] == 2:
                ctx.done()
            p.do(p.cache.transaction.begin)
            depth[p] += 1
        else:
            p.do(p.cache.transaction.finish)
            depth[p] = max(0, depth[p] - 1)
        for q in (A, B):
            ctx.check(bool(q.do(q.cache.transaction.current)) == (depth[q] > 0), 'a thread\'s scopes are its own')
    p = A
    A.do(A.cache.transaction.flush)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('t'))
    B.do(B.cache.set, 'k', 'v', tags_dep('t'))
    B.do(B.cache.transaction.flush)
    ctx.check(B.do(read, B.cache, 'get', 'k') == 'v', 'the end of another thread\'s transaction repeats nothing of this one')
    A.do(A.cache.transaction.finish)
    ctx.check(B.do(read, B.cache, 'get', 'k') == MISS, 'the own end does')
    ctx.cover('separate')


BOUNDS = ('two threads; 2 (thorough 3) operations of any thread on each manager, each of 15 operations of the wrapper in a foreign '
          'thread in 4 states, 4 requests for 2 aliases by any thread, 5 transaction operations of any thread')
ASSUMPTIONS = ('threads switch at backend operations and call boundaries',)
