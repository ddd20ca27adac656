"""Transactions nest: inner ends keep everything pending, the outermost end settles all of it, once."""
from harness.common import (Env, Party, tags_dep, dummy, MISS, read, shards, LEVELS,
                            READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE)
from harness.tx import txprogram, Boom
PROPERTY = 'C11'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        dj = p.pop('django', False)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=dj))
    seen = ['missed', 'hit']
    job([5], 'txprogram', seen, steps=4, ops=['begin', 'finish', 'inv', 'save', 'flush'], every=True, depth=3)
    job([4], 'txprogram', seen, steps=3, ops=['with', 'fail', 'begin', 'inv'], every=True, depth=3)
    job([2, 4], 'manager', ['nested', 'empty'], steps=3)
    job([2, 4], 'manager', ['nested', 'empty'], steps=5, forms=1)
    job([2, 4], 'locks', ['held', 'released'])
    job([6], 'scopes', ['settled'])
    job([3, 2], 'passes', ['passed', 'failed'])
    job([4, 2], 'versions', ['held', 'settled'])
    job([5, 3], 'django_scopes', ['settled'], django=True)
    if thorough:
        job([5, 5], 'txprogram', seen, steps=6, ops=['begin', 'finish', 'inv', 'save', 'flush'], every=True, depth=4)
        job([6, 6], 'txprogram', seen, steps=5, ops=['with', 'fail', 'begin', 'inv', 'deco', 'deco-fail'], every=True, depth=4)
        job([2, 4, 4], 'manager', ['nested', 'empty'], steps=5)
        job([2, 4, 4], 'manager', ['nested', 'empty'], steps=7, forms=1)
    return out


def manager(ctx):
    """The current transaction is always the innermost open one, whatever opened and closed the scopes."""
    w = ctx.make_world()
    c = Env(w, safe=ctx.flag('safe')).cache
    t = c.transaction
    stack = []

    def look():
        cur = t.current()
        ctx.check(bool(cur) == bool(stack), 'a transaction is current exactly while a scope is open')
        if stack:
            ctx.check(cur is stack[-1], 'it is the one of the innermost scope')
            ctx.check(ctx.eq(cur.get_start_time(), stack[0].get_start_time()), 'a nested one starts with the outermost')
        else:
            ctx.cover('empty')
        if len(stack) > 1:
            ctx.check(cur.parent() is stack[-2], 'inside of the enclosing one')
            ctx.cover('nested')

    def scope(fail):
        seen = []

        def body(x):
            stack.append(t.current())
            seen.append(x)
            look()
            if fail:
                raise Boom()
            return x
        depth = len(stack)
        form = ctx.choose('form', ctx.p('forms', 3))
        try:
            if form == 0:
                with t:
                    r = body(5)
            elif form == 1:
                r = t(body)(5)
            else:
                r = t()(body)(x=5)
            ctx.check(not fail and r == 5, 'the result is passed through')
        except Boom:
            ctx.check(fail, 'only its own failure comes out')
        ctx.check(seen == [5], 'called once, with its arguments')
        ctx.check(len(stack) == depth + 1, 'in a scope of its own')
        stack.pop()

    look()
    for i in range(ctx.p('steps')):
        op = ctx.choose_of('op', ['begin', 'finish', 'flush', 'scope'])
        if op == 'begin':
            if len(stack) == 3:
                ctx.done()
            r = t.begin()
            stack.append(t.current())
            ctx.check(r is stack[-1], 'begin returns it')
        elif op == 'finish':
            t.finish()                      # ending what never began is harmless
            if stack:
                stack.pop()
        elif op == 'flush':
            t.flush()
            del stack[:]
        else:
            scope(ctx.p('forms') is None and ctx.flag('fail'))
        look()


def locks(ctx):
    """Under snapshot isolation the locks of a savepoint's invalidations are held until the outermost end."""
    level = [REPEATABLE_READ, SERIALIZABLE][ctx.choose('level', 2)]
    w = ctx.make_world()
    A, B = Party(w, 'A', level=level), Party(w, 'B', level=level)
    c = A.cache
    depth = 1 + ctx.choose('depth', 4)
    at = ctx.choose('at', depth)
    for i in range(depth):
        A.do(c.transaction.begin)
        if i == at:
            A.do(c.invalidate_dependency, tags_dep('T', 'U'))
    if ctx.flag('again'):
        A.do(c.invalidate_dependency, tags_dep('T'))

    def attempt(key):
        B.do(B.cache.transaction.begin)
        B.do(B.cache.set, key, key, tags_dep('U'))
        r = B.do(read, B.cache, 'get', key)
        B.do(B.cache.transaction.finish)
        return r == key
    ctx.check(not attempt('k%d' % depth), 'locked')
    inner = ctx.flag('inner')
    if inner and depth > 1:
        A.do(c.transaction.begin)
        A.do(c.transaction.finish)
    for i in range(depth - 1):
        A.do(c.transaction.finish)
        ctx.check(not attempt('k%d' % i), 'still locked after the end of a savepoint')
        ctx.cover('held')
    ctx.assume(w.now() > A.do(c.transaction.current).get_start_time())
    if ctx.flag('flush'):
        A.do(c.transaction.flush)
    else:
        A.do(c.transaction.finish)
    t = w.now()
    B.do(B.cache.transaction.begin)
    ctx.assume(B.do(B.cache.transaction.current).get_start_time() > t)
    B.do(B.cache.set, 'later', 'v', tags_dep('U'))
    ctx.check(B.do(read, B.cache, 'get', 'later') == 'v', 'a transaction which began after the end is free')
    ctx.cover('released')


def settle(ctx, w, A, B, run, depth=1, level=READ_COMMITTED):
    """What was invalidated within `run` is repeated at its end, not before, and forgotten afterwards."""
    def body():
        A.cache.invalidate_dependency(tags_dep('T'))
        B.do(B.cache.set, 'K', 'v', tags_dep('T'))
        B.do(B.cache.set, 'L', 'v', tags_dep('other'))
        ctx.check(B.do(read, B.cache, 'get', 'K') == 'v', 'not repeated before the end')
    A.do(run, body)
    ctx.check(B.do(read, B.cache, 'get', 'K') == MISS, 'repeated at the end')
    ctx.check(B.do(read, B.cache, 'get', 'L') == 'v', 'nothing else is')
    ctx.check(not A.do(A.cache.transaction.current), 'no scope is left open')
    B.do(B.cache.set, 'K', 'v2', tags_dep('T'))
    A.do(A.cache.transaction.flush)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('unrelated'))
    A.do(A.cache.transaction.finish)
    A.do(A.cache.close)
    ctx.check(B.do(read, B.cache, 'get', 'K') == 'v2', 'the next transaction does not repeat it')
    ctx.cover('settled')


def scopes(ctx):
    """Every way of opening and closing scopes around an invalidation, with failures in it."""
    way = ctx.choose('way', 6)
    fail = ctx.flag('fail')
    w = ctx.make_world(frozen=True)
    A, B = Party(w, 'A', legacy=True), Party(w, 'B')
    c = A.cache
    t = c.transaction

    def run(body):
        def go():
            body()
            if fail:
                raise Boom()
        try:
            if way == 0:
                t.begin()
                t.begin()
                try:
                    go()
                finally:
                    t.finish()
                    t.finish()
            elif way == 1:
                t.begin()
                t.begin()
                try:
                    go()
                finally:
                    t.flush()
            elif way == 2:
                with t:
                    with t:
                        go()
            elif way == 3:
                t(t()(go))()
            elif way == 4:
                ctx.check(c.transaction_begin() is c, 'chainable')
                c.transaction_begin()
                try:
                    go()
                finally:
                    ctx.check(c.transaction_finish() is c, 'chainable')
                    ctx.check(c.transaction_finish() is c, 'chainable')
            else:
                c.transaction_begin()
                c.transaction_begin()
                try:
                    go()
                finally:
                    ctx.check(c.transaction_finish_all() is c, 'chainable')
            ctx.check(not fail, 'failures come out')
        except Boom:
            ctx.check(fail, 'only the body fails')
    settle(ctx, w, A, B, run)


def django_scopes(ctx):
    """The decorators, in every form of calling them."""
    way = ctx.choose('way', 5)
    form = ctx.choose('form', 3)
    fail = ctx.flag('fail')
    nested = ctx.flag('nested')
    w = ctx.make_world(frozen=True)
    alias = 'default' if form == 0 else 'other'

    class P(object):
        def __init__(self, name):
            from django_cache_dependencies import caches
            self.session = w.session(name)
            self.cache = self.session.call(lambda: caches[alias])

        def do(self, f, *a, **kw):
            return self.session.call(f, *a, **kw)
    A, B = P('A'), P('B')

    def run(body):
        from django_cache_dependencies import decorators, cache

        def go(x, y=0):
            ctx.check(x == 1 and y == 2, 'the arguments are passed')
            body()
            if fail:
                raise Boom()
            return 'result'
        if way < 2:
            deco = decorators.cache_transaction
        elif way < 4:
            deco = decorators.cache_transaction_all
        else:
            deco = None
        if deco is None:
            f = (cache if form == 0 else A.cache).transaction(go)
        elif form == 0:
            f = deco(go) if way % 2 == 0 else deco()(go)
        elif form == 1:
            f = deco(go, A.cache) if way % 2 == 0 else deco(go, cache=A.cache)
        else:
            f = deco(A.cache)(go) if way % 2 == 0 else deco(cache=A.cache)(go)
        flushes = deco is decorators.cache_transaction_all
        t = A.cache.transaction
        if nested:
            t.begin()
        try:
            ctx.check(f(1, y=2) == 'result' and not fail, 'the result is passed through')
        except Boom:
            ctx.check(fail, 'only the function fails')
        if nested:
            ctx.check(bool(t.current()) != flushes, 'ends its own scope; the flushing one ends all')
            t.flush()
    settle(ctx, w, A, B, run)


RESULTS = ('result', 0, '', None, False, [], {}, StopIteration)
FAILURES = (Boom, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, KeyError)


def passes(ctx):
    """Whatever a decorated function takes, returns or fails with is passed through, by itself or inside of another scope."""
    form = ctx.choose('form', 3)
    failure = FAILURES[ctx.choose('failure', 6)] if ctx.flag('fail') else None
    result = RESULTS[ctx.choose('result', 8)] if failure is None else None
    w = ctx.make_world()
    c = Env(w, safe=ctx.flag('safe')).cache
    t = c.transaction
    nested = ctx.flag('nested')
    if nested:
        t.begin()
    outer = t.current()
    calls = []

    def body(*args, **kwargs):
        calls.append((args, kwargs))
        ctx.check(t.current() and t.current() is not outer, 'in a scope of its own')
        if failure is not None:
            raise failure('x')
        return result
    args = [(), (1,), (None, 'a')][ctx.choose('args', 3)]
    kwargs = [{}, {'func': 2}, {'self': 0, 'a': None}][ctx.choose('kwargs', 3)]
    if form == 0:
        f = t(body)
    elif form == 1:
        f = t()(body)
    else:
        f = lambda *a, **kw: t(t(body))(*a, **kw)
    for i in range(2):
        try:
            r = f(*args, **kwargs)
            ctx.check(failure is None, 'the failure comes out')
            ctx.check(r is result, 'the result is passed through', lambda: repr((r, result)))
            ctx.cover('passed')
        except FAILURES as e:
            ctx.check(failure is not None and type(e) is failure and e.args == ('x',), 'the failure is the one of the function')
            ctx.cover('failed')
        ctx.check(calls[i:] == [(args, kwargs)], 'called once, with its arguments')
        ctx.check(bool(t.current()) == nested, 'its scope is over, and only that')
        ctx.check(not nested or t.current() is outer, 'its scope is over, and only that')
    try:
        with t:
            if failure is not None:
                raise failure('y')
    except FAILURES as e:
        ctx.check(failure is not None and type(e) is failure, 'blocks let failures out')
    else:
        ctx.check(failure is None, 'blocks let failures out')
    ctx.check(bool(t.current()) == nested, 'its scope is over, and only that')


def versions(ctx):
    """Invalidations in several versions and scopes: the end of an inner scope settles none of them, the outermost all."""
    level = LEVELS[ctx.choose('level', 4)]
    delay = ctx.choose_of('delay', [0, 2])
    w = ctx.make_world(frozen=False)
    A, B = Party(w, 'A', level=level, delay=delay), Party(w, 'B', level=level, delay=delay)
    c = A.cache
    what = [('T', None), ('T', 2), ('U', 2), ('U', None), ('W', 0)]
    n = 2 + ctx.choose('n', 2)
    shift = ctx.choose('shift', 3)
    done = []
    A.do(c.transaction.begin)
    if ctx.flag('outer'):
        A.do(c.invalidate_dependency, tags_dep('T'), None)
        done.append(('T', None))
    A.do(c.transaction.begin)
    for i in range(n):
        t, v = what[(i + shift) % len(what)]
        A.do(c.invalidate_dependency, tags_dep(t), v)
        done.append((t, v))
    for t, v in what:
        A.do(c.set, t, t, tags_dep(t), None, v)

    def look(ended):
        for t, v in what:
            r = B.do(read, B.cache, 'get', t, v)
            dead = ended and level != 'READ UNCOMMITTED' and (t, v) in done
            ctx.check(r == (MISS if dead else t), 'settled by the outermost end, and by no other', lambda: repr((t, v, r, done, ended)))
    look(False)
    if ctx.flag('flush'):
        A.do(c.transaction.flush)
    else:
        A.do(c.transaction.finish)
        look(False)
        ctx.check(not w.timers, 'no end, no repetition')
        ctx.cover('held')
        ctx.assume(w.now() > A.do(c.transaction.current).get_start_time())
        A.do(c.transaction.finish)
    look(True)
    n = len(set(v for t, v in done))
    ctx.check(len(w.timers) == (n if delay and level.startswith('READ') else 0), 'repeated once for each version')
    ctx.cover('settled')


BOUNDS = ('one session with programs of 3-5 (thorough 5-8) operations, scopes nested up to 3-4 deep, opened and closed in every way '
          '(explicit, block, decorator, flush, close), with and without failures; locks through up to 4 nested scopes; 8 results, 6 failures and 9 argument lists of decorated functions; up to 4 invalidations in 3 versions')
ASSUMPTIONS = ('each backend operation is atomic (stub)', 'a transaction takes some time; clocks agree')
