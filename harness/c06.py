"""Cache versions are separate worlds: entries, tags, locks and inherited tags of one never affect another."""
from harness.common import Env, Party, tags_dep, dummy, MISS, HOWS, read, shards, LEVELS, REPEATABLE_READ, READ_COMMITTED
PROPERTY = 'C06'


def jobs(tier):
    out = []

    def job(sizes, covers, fn, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    top = 1000 if tier == 'quick' else 10 ** 6
    job([4, 3], ['same version', 'other version'], 'flat', top=top)
    job([4], ['refused', 'free'], 'locks', top=top)
    job([], ['same version', 'other version'], 'nested', top=top)
    job([3], ['same version', 'other version'], 'transactions', top=top)
    job([4], ['same version', 'other version'], 'transactions', top=top, n=3 if tier == 'thorough' else 2, delay=3, levels=4)
    job([], ['same version', 'other version'], 'transactions', top=top, n=3, levels=1)
    job([2], ['same version', 'other version'], 'bulk', top=top)
    return out


def version(ctx, name='version', none=True):
    if none and ctx.flag(name + ' omitted'):
        return None
    return ctx.int(name, 0, ctx.p('top'))


def eff(v):
    return 1 if v is None else v


def flat(ctx):
    """One key saved under two versions, a tag invalidated under a third, read under a fourth."""
    w = ctx.make_world(frozen=True)
    how = HOWS[ctx.choose('how', 4)]
    mode = ctx.choose('mode', 3)
    e = Env(w, legacy=ctx.flag('legacy'))
    c = e.cache
    same_tags = ctx.flag('same tags')
    va, vb, vx, vq = [version(ctx) for _ in range(4)]
    c.set('k', 'a', tags_dep('t'), None, va)
    c.set('k', 'b', tags_dep('t' if same_tags else 'u'), version=vb)
    if mode == 1:
        with c.transaction:
            c.invalidate_dependency(tags_dep('t'), vx)
    elif mode == 0:
        c.invalidate_dependency(tags_dep('t'), version=vx)
    else:
        c.invalidate_dependency(tags_dep('other'), vx)
    r = read(c, how, 'k', vq)
    if eff(vq) == eff(vb):
        dead = same_tags and mode != 2 and eff(vx) == eff(vb)
        ctx.check(r == (MISS if dead else 'b'), 'the entry of this version, unless its tag died in this version',
                  lambda: repr((va, vb, vx, vq, r)))
    elif eff(vq) == eff(va):
        dead = mode != 2 and eff(vx) == eff(va)
        ctx.check(r == (MISS if dead else 'a'), 'the entry of this version, unless its tag died in this version',
                  lambda: repr((va, vb, vx, vq, r)))
    else:
        ctx.check(r == MISS, 'nothing was saved under this version')
    ctx.cover('same version' if eff(vx) == eff(vq) else 'other version')


def locks(ctx):
    """A tag under invalidation is locked in its version only."""
    level = LEVELS[ctx.choose('level', 4)]
    w = ctx.make_world()
    A, B = Party(w, 'A', level=level), Party(w, 'B', level=level)
    vx, vb = version(ctx), version(ctx)
    exists = ctx.flag('exists')
    if exists:
        B.do(B.cache.set, 'old', 'old', tags_dep('t'), None, vb)
    A.do(A.cache.transaction.begin)
    if ctx.flag('savepoint'):
        A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('t'), vx)
    in_tx = ctx.flag('in tx')
    if in_tx:
        B.do(B.cache.transaction.begin)
    B.do(B.cache.set, 'k', 'v', tags_dep('t'), None, vb)
    r = B.do(B.cache.get, 'k', MISS, vb, True)
    snapshot = level in (REPEATABLE_READ, 'SERIALIZABLE')
    same = eff(vx) == eff(vb)
    if same and snapshot:
        ctx.check(r == MISS, 'refused while the tag is locked in this version')
        ctx.cover('refused')
    else:
        ctx.check(r == 'v', 'a lock in another version does not matter', lambda: repr((level, vx, vb)))
        ctx.cover('free')
    A.do(A.cache.transaction.flush)
    r = B.do(B.cache.get, 'k', MISS, vb, True)
    if same and level != 'READ UNCOMMITTED':
        ctx.check(r == MISS, 'dead after the finish')
    elif not same:
        ctx.check(r == 'v', 'finishing does not touch other versions', lambda: repr((level, vx, vb)))
    if in_tx:
        # saved after the end by a transaction which began before it: refused in this version only
        B.do(B.cache.set, 'k2', 'v2', tags_dep('t'), None, vb)
        r = B.do(B.cache.get, 'k2', MISS, vb, True)
        if same and snapshot:
            ctx.check(r == MISS, 'refused: the snapshot is older than the invalidation')
        else:
            ctx.check(r == 'v2', 'not refused')


def nested(ctx):
    """Tags are inherited within a version."""
    w = ctx.make_world(frozen=True)
    c = Env(w).cache
    vo, vi, vx = version(ctx, 'outer'), version(ctx, 'inner'), version(ctx, 'invalidated')
    hit = ctx.flag('hit')
    if hit:
        c.set('inner', 'i', tags_dep('t'), None, vi)
    ctx.check(c.get('outer', MISS, vo) == MISS, 'missing')
    if ctx.flag('bulk') and hit:
        c.get_many(['inner'], vi)
    else:
        r = c.get('inner', MISS, vi)
        ctx.check(r == ('i' if hit else MISS), 'inner')
        if not hit:
            c.set('inner', 'i', tags_dep('t'), None, vi)
    c.set('outer', 'o', tags_dep('own'), None, vo)
    c.invalidate_dependency(tags_dep('t'), vx)
    r = c.get('outer', MISS, vo, abort=True)
    ri = c.get('inner', MISS, vi, abort=True)
    ctx.check(ri == (MISS if eff(vi) == eff(vx) else 'i'), 'inner dies in its own version')
    if eff(vo) == eff(vi):
        ctx.check(r == (MISS if eff(vx) == eff(vo) else 'o'), 'outer inherits within the version')
        ctx.cover('same version')
    else:
        ctx.check(r == 'o', 'nothing is inherited from another version')
        ctx.cover('other version')


def bulk(ctx):
    """Several entries of one version taken from cache at once, while an entry of another is made."""
    w = ctx.make_world(frozen=True)
    c = Env(w).cache
    how = ctx.choose('how', 2)
    vo, vi, vx = version(ctx, 'outer'), version(ctx, 'inner'), version(ctx, 'invalidated')
    for i in range(3):
        c.set('inner%d' % i, i, tags_dep('t%d' % i), None, vi)
    ctx.check(c.get('outer', MISS, vo) == MISS, 'missing')
    keys = ['inner%d' % i for i in range(3)]
    if how == 0:
        r = c.get_many(keys, vi)
    else:
        r = dict((k, c.get_or_set_callback(k, lambda: 'anew', dummy(), None, vi)) for k in keys)
    ctx.check(r == dict(inner0=0, inner1=1, inner2=2), 'all there')
    c.set('outer', 'o', tags_dep('own'), None, vo)
    x = ctx.choose('tag', 3)
    c.invalidate_dependency(tags_dep('t%d' % x), vx)
    dead = eff(vi) == eff(vx)
    r = c.get_many(keys, vi, abort=True)
    ctx.check(r == dict((k, i) for i, k in enumerate(keys) if not (dead and i == x)), 'they die in their own version')
    r = c.get('outer', MISS, vo, abort=True)
    ctx.check(r == (MISS if eff(vi) == eff(vo) and dead else 'o'), 'inherits within its version', lambda: repr((vo, vi, vx, r)))
    ctx.cover('same version' if eff(vo) == eff(vi) else 'other version')


def transactions(ctx):
    """Invalidations of several versions in one transaction are each repeated at its end (and after the delay) in their own version."""
    w = ctx.make_world()
    level = [READ_COMMITTED, REPEATABLE_READ, 'SERIALIZABLE', 'READ UNCOMMITTED'][ctx.choose('level', ctx.p('levels', 3))]
    delayed = level.startswith('READ') and ctx.p('delay', 0)
    A, B = Party(w, 'A', level=level, delay=ctx.p('delay', 0)), Party(w, 'B', level=level)
    c = A.cache
    n = ctx.p('n', 2)
    versions = [version(ctx) for _ in range(n)]
    vq = version(ctx)
    depth = ctx.choose('depth', 2) if n == 2 else 1
    tags = ['t', 't' if ctx.flag('same tag') else 'u', 'w'][:n]
    A.do(c.transaction.begin)
    A.do(c.invalidate_dependency, tags_dep(tags[0]), versions[0])
    if depth:
        A.do(c.transaction.begin)
    for tag, v in zip(tags[1:], versions[1:]):
        A.do(c.invalidate_dependency, tags_dep(tag), v)
    # saved by the session itself meanwhile (it is not locked by itself)
    for tag in set(tags):
        A.do(c.set, 'k' + tag, tag, tags_dep(tag), None, vq)
    for i in range(depth + 1):
        A.do(c.transaction.finish)

    def look(ended):
        for tag in sorted(set(tags)):
            r = B.do(B.cache.get, 'k' + tag, MISS, vq, True)
            dead = ended and ctx.lor(*[eff(v) == eff(vq) for t, v in zip(tags, versions) if t == tag])
            ctx.check(r == (MISS if dead else tag), 'each version by itself', lambda: repr((tag, versions, vq, r)))
    look(level != 'READ UNCOMMITTED')
    if delayed:
        for tag in set(tags):
            A.do(c.set, 'k' + tag, tag, tags_dep(tag), None, vq)
        for t in list(w.pending_timers()):
            w.fire(t)
        look(True)
    ctx.cover('same version' if eff(versions[0]) == eff(versions[1]) else 'other version')


BOUNDS = ('two entries under one key, one invalidation and one read, each under any version omitted or 0..1000 (thorough: 0..10**6); '
          'one lock and one save; one nesting, of one or three entries; one transaction with two or three versions, also with a delay of 3')
ASSUMPTIONS = ('backend operations honour the cache API (stub); the omitted version is the backend\'s version 1',
               'no lock state expires within the history')
