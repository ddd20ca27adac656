"""With a replication delay, invalidations are repeated once the delay has passed, and only then."""
from harness.common import (Env, Party, tags_dep, dummy, MISS, read, shards,
                            READ_UNCOMMITTED, READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE, LEVELS)
from harness.tx import Own
PROPERTY = 'C10'


def jobs(tier):
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    job([4, 2], 'delayed', ['repeated', 'nothing to repeat'])
    job([4], 'nodelay', ['no timer'])
    job([2], 'several', ['repeated'])
    job([], 'timeouts', ['timeouts'])
    return out


def delayed(ctx):
    """Any delay: what is saved before the repetition dies with it, what is saved after it lives."""
    level = LEVELS[ctx.choose('level', 4)]
    dead_tag = ctx.flag('same tag')
    w = ctx.make_world()
    if ctx.flag('fraction'):
        delay = ctx.fix('delay')
        ctx.assume(ctx.land(delay > 0, delay < 3600))
    else:
        delay = ctx.int('delay', 1, 3600)
    used = []
    kw = {}
    A = W = None
    import _thread

    def accessor():
        used.append(_thread.get_ident())
        return A.env.backend if A is not None else None
    A = Party(w, 'A', level=level, delay=delay, accessor=accessor)
    B = Party(w, 'B', level=level, delay=delay)
    c = A.cache
    v = ctx.choose_of('version', [None, 0, 2])
    depth = 1 + ctx.choose('savepoint', 2)
    for i in range(depth):
        A.do(c.transaction.begin)
    first = ctx.choose('first', 3)          # whatever else is invalidated in the transaction
    if first:
        A.do(c.invalidate_dependency, [dummy, Own][first - 1](), v)
    A.do(c.invalidate_dependency, tags_dep('T', 'U'), v)
    ctx.check(not w.timers, 'nothing is repeated before the end')
    ctx.assume(w.now() > A.do(c.transaction.current).get_start_time())      # a transaction takes some time
    how = ctx.choose('how', 3)
    if how == 0:
        for i in range(depth):
            ctx.check(not w.timers, 'nor at the end of a savepoint')
            A.do(c.transaction.finish)
    elif how == 1:
        A.do(c.transaction.flush)
    else:
        A.do(c.close)
    end = w.now()
    if level in (REPEATABLE_READ, SERIALIZABLE):
        ctx.check(not w.timers, 'the lock covers the delay')
        # by a transaction that begins when the delay has passed
        ctx.assume(w.now() > end + delay)
        B.do(B.cache.set, 'K', 'v', tags_dep('T'), None, v)
        ctx.check(B.do(read, B.cache, 'get', 'K', v) == 'v', 'not refused after the delay')
        ctx.cover('nothing to repeat')
        return
    ts = w.pending_timers()
    ctx.check(len(ts) == 1, 'repeated once', lambda: repr(ts))
    ctx.check(ctx.eq(ts[0].interval, delay), 'after the delay')
    ctx.check(len(w.timers) == 1, 'repeated once')
    tag = 'T' if dead_tag else 'other'
    B.do(B.cache.set, 'K', 'v', tags_dep(tag), None, v)
    B.do(B.cache.set, 'L', 'v', tags_dep('U'), None, 5)
    ctx.check(B.do(read, B.cache, 'get', 'K', v) == 'v', 'served until then')
    n = len(used)
    w.fire(ts[0])
    ctx.check(len(used) > n, 'by a backend of the thread that does it')
    ctx.check(all(x != A.do(_thread.get_ident) for x in used[n:]), 'by a backend of the thread that does it')
    r = B.do(read, B.cache, 'get', 'K', v)
    ctx.check(r == (MISS if dead_tag else 'v'), 'the repetition takes it out of service', lambda: repr((level, r)))
    ctx.check(B.do(read, B.cache, 'get', 'L', 5) == 'v', 'of this version only')
    B.do(B.cache.set, 'K', 'v2', tags_dep(tag), None, v)
    ctx.check(not w.pending_timers(), 'and that was it')
    ctx.check(B.do(read, B.cache, 'get', 'K', v) == 'v2', 'saved afterwards: served')
    ctx.cover('repeated')


def nodelay(ctx):
    """Without a delay nothing is ever repeated by a timer; READ UNCOMMITTED does nothing at the end of a transaction."""
    level = LEVELS[ctx.choose('level', 4)]
    w = ctx.make_world()
    A, B = Party(w, 'A', level=level), Party(w, 'B', level=level)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('T'))
    B.do(B.cache.set, 'K', 'v', tags_dep('T'))
    before = B.do(read, B.cache, 'get', 'K')
    A.do(A.cache.transaction.finish)
    ctx.check(not w.timers, 'no delay, no timer')
    r = B.do(read, B.cache, 'get', 'K')
    if level == READ_UNCOMMITTED:
        ctx.check(before == 'v' and r == 'v', 'what was saved after the invalidation is good')
    else:
        ctx.check(r == MISS, 'what was saved before the end is not')
    A.do(A.cache.invalidate_dependency, tags_dep('T'))
    ctx.check(not w.timers, 'outside of transactions there is no end to wait for')
    ctx.cover('no timer')


def several(ctx):
    """Several versions and several transactions: each is repeated on its own."""
    level = [READ_UNCOMMITTED, READ_COMMITTED][ctx.choose('level', 2)]
    w = ctx.make_world()
    A = Party(w, 'A', level=level, delay=10)
    B = Party(w, 'B', level=level, delay=10)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('T'), 1)
    A.do(A.cache.invalidate_dependency, tags_dep('T'), 2)
    A.do(A.cache.invalidate_dependency, tags_dep('U'), 2)
    A.do(A.cache.transaction.finish)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('W'), 1)
    A.do(A.cache.transaction.finish)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.transaction.finish)
    alive = {}
    for v in (1, 2):
        for t in 'TUW':
            B.do(B.cache.set, t, t, tags_dep(t), None, v)
            alive[t, v] = True
    for t in w.pending_timers():
        w.fire(t)
    for v in (1, 2):
        for t in 'TUW':
            dead = (t, v) in (('T', 1), ('T', 2), ('U', 2), ('W', 1))
            r = B.do(read, B.cache, 'get', t, v)
            ctx.check(r == (MISS if dead else t), 'exactly the invalidated tags of each version', lambda: repr((t, v, r)))
    ctx.cover('repeated')


def timeouts(ctx):
    """Tag versions outlive the entries' life in service by a day; lock states live for seconds."""
    w = ctx.make_world(ttl='fork')
    level = [REPEATABLE_READ, READ_COMMITTED][ctx.choose('level', 2)]
    B = Party(w, 'B', level=level)
    A = Party(w, 'A', level=level)
    A.do(A.cache.transaction.begin)
    t0 = w.now()
    A.do(A.cache.set, 'K', 'v', tags_dep('T'))
    # within a day an untouched entry stays served
    r = B.do(read, B.cache, 'get', 'K')
    t1 = w.now()
    if t1 < t0 + 24 * 3600 - 1000:
        ctx.check(r == 'v', 'served for a day at least')
    else:
        ctx.check(r == 'v' or r == MISS, 'or expired')
    ctx.cover('timeouts')


BOUNDS = ('one or two transactions with savepoints, up to three versions, any whole or fractional delay up to 3600 s, saves before and after '
          'the repetition')
ASSUMPTIONS = ('timers fire no earlier than their interval (stub of threading.Timer)', 'each backend operation is atomic (stub)')
