"""Tag locks refuse a save only while they must."""
from harness.common import (Env, Party, root, tags_dep, dummy, MISS, read, shards, overlap,
                            READ_UNCOMMITTED, READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE)
from harness.flat import names
PROPERTY = 'C09'
SNAPSHOT = (REPEATABLE_READ, SERIALIZABLE)


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    both = ['refused', 'saved']
    job([4, 5], 'program', both, steps=4, level=REPEATABLE_READ)
    job([4, 5], 'program', both, steps=4, level=SERIALIZABLE, delay=2)
    job([4, 6], 'program', both, steps=5, level=REPEATABLE_READ, touches=True)
    for level in (READ_UNCOMMITTED, READ_COMMITTED):
        job([4], 'program', ['saved'], steps=4, level=level, delay=1)
    job([4, 5], 'program', both, steps=4, level=REPEATABLE_READ, delay=2, tags=2, single=True)
    for last in (['Rend', 'Rsave'], ['Rsave'], ['Rend', 'Rbegin', 'Rsave']):
        job([], 'program', both, steps=0, level=REPEATABLE_READ, delay=2, tags=2, single=True,
            prefix=['Wbegin', 'Winv', 'Wend', 'Rbegin', 'Rinv'] + last)
    job([4], 'own', ['own'])
    job([2], 'crashed', both)
    job([2], 'crashed', both, delay=3)
    job([], 'inherited', both)
    job([2], 'many', both, n=15)
    if thorough:
        job([4, 5], 'program', both, steps=6, level=REPEATABLE_READ)
        job([4, 5], 'program', both, steps=6, level=SERIALIZABLE, delay=2)
        job([2], 'many', both, n=60)
        job([2], 'crashed', both, delay=30)
    return out


def saved_now(ctx, party, key, value, tags):
    party.do(party.cache.set, key, value, party.tags(*tags))
    r = party.do(read, party.cache, 'get', key)
    ctx.check(r == value or r == MISS, 'the new value or nothing')
    return r == value


def program(ctx):
    """Free programs of one writer and one saving session, all tag coincidences, all timings."""
    p = ctx.p
    level, delay = p('level'), p('delay', 0)
    w = ctx.make_world()
    W, R = Party(w, 'W', level=level, delay=delay, **root(p, 1)), Party(w, 'R', level=level, delay=delay, **root(p, 0))
    history = []        # [session, tags, end time or None]
    begun = None        # start of the writer's transaction
    mine = False
    n = 0
    prefix = [({'W': W, 'R': R}[x[0]], x[1:]) for x in p('prefix') or []]
    for i in range(len(prefix) + p('steps')):
        ops = [(W, op) for op in (['begin'] if begun is None else ['inv', 'end'])]
        ops += [(R, op) for op in (['begin'] if not mine else ['end'])] + [(R, 'save'), (W, 'save')]
        if n >= 2:
            ops = [x for x in ops if x[1] != 'save']
        if p('touches') and mine:
            ops.append((R, 'inv'))
        a, op = prefix[i] if i < len(prefix) else ctx.choose_of('op', ops)
        c = a.cache
        if op == 'begin':
            a.do(c.transaction.begin)
            if a is W:
                begun = a.do(c.transaction.current).get_start_time()
            else:
                mine = True
        elif op == 'end':
            tx = a.do(c.transaction.current)
            ctx.assume(w.now() > tx.get_start_time())         # a transaction takes some time
            a.do(c.transaction.finish)
            for h in history:
                if h[0] is a and h[2] is None:
                    h[2] = tx.get_end_time()
            if a is W:
                begun = None
            else:
                mine = False
        elif op == 'inv':
            tags = names(ctx, 1 if p('single') else p('tags', 1))
            a.do(c.invalidate_dependency, a.tags(*tags))
            history.append([a, tags, None])
        else:
            n += 1
            tags = names(ctx, p('tags', 1))
            start = a.do(c.transaction.current).get_start_time()
            ok = saved_now(ctx, a, '%s%d' % ('w' if a is W else 'r', n), n, tags)
            ctx.observe('ok', ok)
            may = False
            if level in SNAPSHOT:
                may = ctx.lor(*[ctx.land(overlap(ctx, tags, t), True if end is None else start <= end + delay)
                                for x, t, end in history if x is not a])
            if ok:
                if level in SNAPSHOT and not any(x is R for x, t, end in history):
                    late = start if a is W or mine else w.now()     # outside of a transaction it begins with the save
                    must = ctx.lor(*[ctx.land(overlap(ctx, tags, t), True if end is None else late <= end + delay)
                                     for x, t, end in history if x is not a])
                    ctx.check(ctx.lnot(must), 'saved although another session has invalidated the tag and could yet roll back or commit',
                              lambda: repr((history, tags, start)))
                ctx.cover('saved')
            else:
                ctx.check(may, 'refused although no overlapping transaction of another session has invalidated the tag',
                          lambda: repr((history, tags, start)))
                ctx.cover('refused')


def own(ctx):
    """A session computes and saves entries under tags it has invalidated itself, in any shape of transaction."""
    level = [REPEATABLE_READ, SERIALIZABLE, READ_COMMITTED, READ_UNCOMMITTED][ctx.choose('level', 4)]
    delay = ctx.choose_of('delay', [0, 2])
    w = ctx.make_world()
    A = Party(w, 'A', level=level, delay=delay)
    c = A.cache

    def body():
        depth = ctx.choose('depth', 3)
        for i in range(depth):
            c.transaction.begin()
        c.invalidate_dependency(tags_dep('T'))
        more = ctx.choose('more', 3)
        if more == 1:
            c.transaction.begin()
        elif more == 2 and depth > 1:
            c.transaction.finish()
        ctx.check(c.get('K', MISS) == MISS, 'nothing yet')
        c.set('K', 'v', tags_dep('T'))
        ctx.check(read(c, 'get', 'K') == 'v', 'not locked by itself')
        ctx.check(c.get_or_set_callback('L', lambda: 'l', tags_dep('T')) == 'l', 'computed')
        ctx.check(read(c, 'get', 'L') == 'l', 'not locked by itself')
        c.transaction.flush()
        # the next transaction of the same session, however soon
        if ctx.flag('next in tx'):
            c.transaction.begin()
        c.set('M', 'm', tags_dep('T'))
        ctx.check(read(c, 'get', 'M') == 'm', 'not locked by its own past')
        c.transaction.flush()
        ctx.cover('own')
    A.do(body)


def crashed(ctx):
    """Locks of a session that never finishes, or long after it finished, wear off."""
    level = SNAPSHOT[ctx.choose('level', 2)]
    delay = ctx.p('delay', 0)
    w = ctx.make_world(ttl='fork')
    A, D, B = [Party(w, x, level=level, delay=delay) for x in 'ADB']
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('T'))
    locked = w.now()
    how = ctx.choose('how', 3)
    second = ctx.flag('second')
    if second:
        D.do(D.cache.transaction.begin)
        D.do(D.cache.invalidate_dependency, tags_dep('T'))
        locked = w.now()
    if how == 1:
        A.do(A.cache.transaction.finish)
        locked = w.now()
        if second:
            D.do(D.cache.transaction.finish)
            locked = w.now()
    elif how == 2 and second:
        D.do(D.cache.transaction.finish)
        locked = w.now()
    limit = 5 + (max(delay, 1) if how else 0)
    in_tx = ctx.flag('in tx')
    if in_tx:
        B.do(B.cache.transaction.begin)
    t0 = w.now()
    ok = saved_now(ctx, B, 'K', 'v', ['T'])
    ctx.assume(w.now() < t0 + 60)           # looked at while its tag lives
    ctx.observe('ok', ok)
    if t0 >= locked + limit:
        ctx.check(ok, 'no lock outlives its timeout')
        ctx.cover('saved')
    if not ok:
        ctx.cover('refused')


def inherited(ctx):
    """Inherited tags count like own ones: locked ones refuse, others do not."""
    w = ctx.make_world()
    W, R = Party(w, 'W', level=REPEATABLE_READ), Party(w, 'R', level=REPEATABLE_READ)
    hit = ctx.flag('hit')
    if hit:
        W.do(W.cache.set, 'inner', 'i', tags_dep('a'))
    x = ctx.str('x', 1, lo=97, hi=122)

    def begin():
        R.cache.transaction.begin()
        r = R.cache.get('outer', MISS)
        r = R.cache.get('inner', MISS)
        if not hit:
            R.cache.set('inner', 'i', tags_dep('a'))
    R.do(begin)
    W.do(W.cache.transaction.begin)
    W.do(W.cache.invalidate_dependency, tags_dep(x))
    if ctx.flag('ended'):
        W.do(W.cache.transaction.finish)
    R.do(R.cache.set, 'outer', 'o', tags_dep('b'))
    r = R.do(read, R.cache, 'get', 'outer')
    if x == 'a' or x == 'b':
        ctx.check(r == MISS, 'refused')
        ctx.cover('refused')
    else:
        ctx.check(r == 'o', 'saved')
        ctx.cover('saved')
    # the inherited tags of a refused entry still reach its ancestors, and nothing stays pending
    R.do(R.cache.transaction.flush)
    R.do(R.cache.set, 'next', 'n', tags_dep('c'))
    r = R.do(read, R.cache, 'get', 'next')
    ctx.check(r == ('n' if not x == 'c' else r), 'the session goes on')


def many(ctx):
    """Entries with many tags, one of them locked or none."""
    level = SNAPSHOT[ctx.choose('level', 2)]
    n = ctx.p('n')
    w = ctx.make_world()
    W, R = Party(w, 'W', level=level), Party(w, 'R', level=level)
    R.do(R.cache.transaction.begin)
    i = ctx.choose('victim', n + 1)
    W.do(W.cache.transaction.begin)
    W.do(W.cache.invalidate_dependency, tags_dep(['other-%d' % j for j in range(n)]))
    W.do(W.cache.invalidate_dependency, tags_dep('t%d' % i))
    if ctx.flag('ended'):
        W.do(W.cache.transaction.finish)
    ok = saved_now(ctx, R, 'K', 'v', ['t%d' % j for j in range(n)])
    if i == n:
        ctx.check(ok, 'none of its tags is locked')
        ctx.cover('saved')
    else:
        ctx.check(not ok, 'one of its tags is locked')
        ctx.cover('refused')


BOUNDS = ('one writer and one saving session, programs of 4 (thorough 6) operations with one fresh tag per invalidation and save, '
          'every coincidence and every timing; two writers for the expiry of locks; one lock among 15 (thorough 60) tags')
ASSUMPTIONS = ('each backend operation is atomic (stub)', 'clocks agree; a transaction takes some time',
               'when several transactions invalidated one tag concurrently its lock may last until the tag-state timeout')
