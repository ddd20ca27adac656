"""Under snapshot isolation no entry computed from a snapshot older than a commit survives that commit's invalidation."""
from harness.common import (Env, Party, root, tags_dep, dummy, MISS, read, shards, overlap,
                            READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE)
PROPERTY = 'C08'
LEVELS = (REPEATABLE_READ, SERIALIZABLE)


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    fresh = ['fresh', 'refused']
    for shape in ('plain', 'savepoint', 'rollback', 'twice'):
        job([], 'one', ['refused'], shape=shape)
    for reader in ('compute', 'many', 'savepoint', 'late savepoint', 'nested', 'nested hit', 'two tags'):
        job([], 'one', ['refused'], reader=reader)
    job([], 'one', ['refused'], level=SERIALIZABLE)
    job([], 'one', ['refused'], delay=3)
    job([], 'one', ['refused'], fresh_tag=True)
    job([], 'one', ['refused'], fresh_tag=True, reader='two tags')
    # every schedule of two writers and one reader
    job([3, 3, 3], 'two', ['refused'])
    job([2, 2], 'program', fresh, steps=6)
    job([2, 2], 'program', fresh, steps=5, delay=2)
    job([2, 3], 'program', fresh, steps=5, writers=2, nested=True)
    job([2], 'program', fresh, steps=6, level=REPEATABLE_READ, points=2)
    job([2, 4], 'program', ['refused'], steps=6, level=REPEATABLE_READ, touches=True)
    job([2, 4], 'program', ['refused'], steps=6, level=SERIALIZABLE, touches=True, delay=2)
    job([2], 'program', fresh, steps=5, level=REPEATABLE_READ, ttl='fork')
    job([2], 'program', fresh, steps=5, level=REPEATABLE_READ, ttl='fork', delay=2)
    if thorough:
        job([2, 2, 3], 'program', fresh, steps=8)
        job([2, 2, 3], 'program', fresh, steps=7, delay=2)
        job([2, 3, 4], 'program', fresh, steps=7, writers=2)
        job([2, 3], 'program', fresh, steps=6, level=REPEATABLE_READ, ttl='fork')
        job([2, 3], 'program', fresh, steps=6, level=REPEATABLE_READ, ttl='fork', delay=2)
        job([3, 3, 3], 'two', ['refused'], shape='savepoint')
        job([3, 3, 3], 'two', ['refused'], fresh_tag=True)
    return out


def one(ctx):
    race(ctx, 1)


def two(ctx):
    race(ctx, 2)


def race(ctx, nw):
    """Writers change the data and invalidate; a reader computes an entry from its snapshot; every interleaving."""
    p = ctx.p
    w = ctx.make_world()
    level, delay = p('level', REPEATABLE_READ), p('delay', 0)
    shape, reader_shape = p('shape', 'plain'), p('reader', 'get')
    R = Party(w, 'R', level=level, delay=delay, **root(p, 0))
    W = [Party(w, 'W%d' % i, level=level, delay=delay, **root(p, 1)) for i in range(nw)]
    commits = []            # times
    if not p('fresh_tag'):
        W[0].do(W[0].cache.set, 'x', 1, W[0].tags('T', 'U'))
    if reader_shape == 'two tags':
        W[0].do(W[0].cache.set, 'y', 1, W[0].tags('A'))
    if reader_shape == 'nested hit':
        W[0].do(W[0].cache.set, 'inner', 0, W[0].tags('T'))
    finishing = {}
    step = [0]

    def writer(i):
        c = W[i].cache
        c.transaction.begin()
        if shape == 'savepoint':
            c.transaction.begin()
        c.invalidate_dependency(W[i].tags('T'))
        if shape == 'twice':
            c.invalidate_dependency(W[i].tags('T', 'V'))
        if shape == 'savepoint':
            c.transaction.finish()
        t = w.op('w', ['db'])
        if shape != 'rollback':
            commits.append(t)
        step[0] += 1
        a = step[0]
        c.transaction.finish()
        step[0] += 1
        finishing[i] = (a, step[0])

    def reader():
        c = R.cache
        c.transaction.begin()
        if reader_shape == 'savepoint':
            c.transaction.begin()
        t = w.op('r', ['db'])
        # a replica may lag behind by at most the configured delay
        snap = [x for x in commits]
        if delay:
            snap = [x for x in snap if x + delay <= t]
        snap = len(snap)
        if reader_shape == 'late savepoint':
            c.transaction.begin()
        if reader_shape == 'compute':
            c.get_or_set_callback('K', lambda: snap, R.tags('T'))
        elif reader_shape == 'many':
            if not c.get_many(['K']):
                c.set('K', snap, R.tags('T'))
        elif reader_shape == 'nested':
            c.get('K')
            c.get('inner')
            c.set('inner', snap, R.tags('T'))
            c.set('K', snap)
        elif reader_shape == 'nested hit':
            c.get('K')
            r = c.get('inner')
            if r is None:
                c.set('inner', snap, R.tags('T'))
            else:
                snap = r
            c.set('K', snap, R.tags('other'))
        elif reader_shape == 'two tags':
            if c.get('K') is None:
                c.set('K', snap, R.tags('A', 'T', 'Z'))
        else:
            if c.get('K') is None:
                c.set('K', snap, R.tags('T'))
        if reader_shape.endswith('savepoint'):
            c.transaction.finish()
        c.transaction.finish()
    w.interleave([(R.session, reader)] + [(W[i].session, lambda i=i: writer(i)) for i in range(nw)])
    known = None
    if nw == 2:
        (a, b), (c, d) = finishing[0], finishing[1]
        if a < d and c < b:
            # the ends of two transactions which invalidated the same tag overlap in time
            known = 'overlapping-ends'
    for key in ('K', 'inner'):
        r = R.do(read, R.cache, 'get', key)
        ctx.observe(key, r)
        if r == MISS:
            if key == 'K':
                ctx.cover('refused')
        else:
            ctx.check(r == len(commits), 'an entry made from a snapshot older than a commit is not served after it',
                      lambda: repr((r, len(commits), w.events)), known=known)


def program(ctx):
    """Free sequential programs of a writer (or two) and a reader, under every timing."""
    p = ctx.p
    w = ctx.make_world(ttl=p('ttl', 'live'))
    level = p('level') or LEVELS[ctx.choose('level', 2)]
    delay = p('delay', 0)
    R = Party(w, 'R', level=level, delay=delay, **root(p, 0))
    W = [Party(w, 'W%d' % i, level=level, delay=delay, **root(p, 1)) for i in range(p('writers', 1))]
    if p('ttl') == 'fork':
        W[0].do(W[0].cache.set, 'x', 1, W[0].tags('T', 'U'))
    commits = []
    state = {x: None for x in W}       # None: no transaction; else whether it has invalidated
    snap = None
    saved = points = 0

    def young(party):
        """No transaction outlives the tag-state timeout."""
        if w.ttl == 'fork':
            ctx.assume(w.now() < party.do(party.cache.transaction.current).get_start_time() + 5)

    def end(a):
        if state[a]:
            commits.append(w.now())
        tx = a.do(a.cache.transaction.current)
        a.do(a.cache.transaction.finish)
        if w.ttl == 'fork':
            ctx.assume(w.now() < tx.get_start_time() + 5)
        state[a] = None

    for i in range(p('steps')):
        # only what is possible now is offered
        ops = [(a, op) for a in W for op in (['begin'] if state[a] is None else ['inv', 'end'])]
        ops += [(R, op) for op in (['begin'] if snap is None else ['save', 'end'])]
        if snap is not None and points < p('points', 0):
            ops.append((R, 'savepoint'))
        if snap is not None and p('touches'):
            ops.append((R, 'inv'))
        a, op = ctx.choose_of('op', ops)
        c = a.cache
        if a is not R:
            if op == 'begin':
                a.do(c.transaction.begin)
                state[a] = False
            elif op == 'inv':
                a.do(c.invalidate_dependency, a.tags('T', 'U'))
                state[a] = True
            else:
                end(a)
        elif op == 'begin':
            R.do(c.transaction.begin)
            t = w.now()
            snap = len([x for x in commits if not delay or x + delay <= t])
        elif op == 'save':
            saved += 1
            key = 'K%d' % saved
            if p('nested'):
                R.do(c.get, key)
                R.do(c.set, 'inner', snap, R.tags('T'))
                R.do(c.set, key, snap)
            else:
                R.do(c.set, key, snap, R.tags('T', 'V'))
            young(R)
        elif op == 'inv':       # of something it has not changed, or will roll back
            R.do(c.invalidate_dependency, R.tags('T'))
        elif op == 'savepoint':
            R.do(c.transaction.begin)
            points += 1
        elif points:
            R.do(c.transaction.finish)
            points -= 1
        else:
            R.do(c.transaction.finish)
            snap = None
    # open writers end; the data they changed is committed just before
    for a in W:
        if state[a] is not None:
            end(a)
    for i in range(saved):
        r = R.do(read, R.cache, 'get', 'K%d' % (i + 1))
        ctx.observe('r', r)
        if r == MISS:
            ctx.cover('refused')
        else:
            ctx.check(r == len(commits), 'an entry made from a snapshot older than a commit is not served after it',
                      lambda: repr((r, commits)))
            ctx.cover('fresh')


BOUNDS = ('one reader and one writer (4 shapes of writer, 7 of reader) or two writers, every interleaving of their backend '
          'operations under every timing; sequential programs of 5-6 (thorough 6-8) operations of a reader and 1-2 writers; '
          'replica lag up to the configured delay')
ASSUMPTIONS = ('each backend operation is atomic (stub)', 'transactions are shorter than the tag-state timeout (5 s)',
               'clocks agree and readers and writers bracket their work by cache transactions',
               'known finding excluded: overlapping ends of two transactions which invalidated the same tag')
