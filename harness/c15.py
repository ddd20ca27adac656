"""Tag versions: saved entries share the present ones, only missing ones are created, and a new one was never used before."""
from harness.common import Env, Party, tags_dep, dummy, MISS, read, shards, overlap, REPEATABLE_READ, LEVELS
PROPERTY = 'C15'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    job([4], 'versions', ['kept', 'created', 'changed'])
    job([4], 'history', ['fresh', 'gone'], steps=4)
    job([2], 'unique', ['unique'])
    job([2, 2], 'lifetime', ['alive', 'expired'])
    job([4], 'record', ['valid', 'invalid'])
    job([], 'saver', ['saved', 'shared'])
    if thorough:
        job([4, 4], 'history', ['fresh', 'gone'], steps=6)
    return out


def tag_entries(b):
    return {e.key: e for e in b.entries}


def versions(ctx):
    """Saving over any subset of present tag versions: those stay, exactly the missing ones appear."""
    w = ctx.make_world(frozen=True)
    env = Env(w, level=LEVELS[ctx.choose('level', 4)])
    c, b = env.cache, env.backend
    n = ctx.choose('n', 3) + 1
    tags = ['t%d' % i for i in range(n)]
    present = [t for t in tags if ctx.flag('present')]
    version = ctx.pick('version', [0, 1, 2])
    for t in present:
        c.set('mark-' + t, t, tags_dep(t), version=version)
        c.set('only-' + t, t, tags_dep(t), version=version)
    from cache_dependencies.dependencies import TagsDependency
    del w.ops[:]
    c.set('k', 'v', TagsDependency(*tags), version=version)
    written = [o for o in w.ops if o[0] in ('set', 'set_many', 'add', 'incr') and o[1] and 'k' not in o[1]]
    ctx.check(sum(len(o[1]) for o in written) == n - len(present), 'exactly the missing versions are created', lambda: repr(w.ops))
    ctx.check(all(o[2] == version for o in w.ops), 'for the cache version of the entry')
    made = [b.get(k, version=version) for o in written for k in o[1]]
    for i in range(len(made)):
        for j in range(i):
            ctx.check(ctx.lnot(ctx.eq(made[i], made[j])), 'a version is never generated twice')
    ctx.cover('created' if len(present) < n else 'kept')
    keys = ['k'] + ['mark-' + t for t in present] + ['only-' + t for t in present]
    for k in keys:
        ctx.check(c.get(k, MISS, version, abort=True) != MISS, 'entries sharing the tags stay valid')
    ctx.check(len(c.get_many(keys, version, abort=True)) == len(keys), 'entries sharing the tags stay valid')
    victim = ctx.choose_of('victim', tags)
    c.invalidate_dependency(tags_dep(victim), version)
    ctx.check(c.get('k', MISS, version, abort=True) == MISS, 'any of its tags kills it')
    for t in present:
        ctx.check((c.get('mark-' + t, MISS, version, abort=True) == MISS) == (t == victim), 'others are told apart')
    # and stays dead when its tags get new versions
    c.set('again', 1, TagsDependency(*tags), version=version)
    ctx.check(c.get('k', MISS, version, abort=True) == MISS, 'a new version of the tag does not revive it')
    ctx.check(c.get('again', MISS, version, abort=True) == 1, 'what is saved with it is valid')
    ctx.cover('changed')


def history(ctx):
    """Whatever makes a tag's version go (invalidation, eviction, expiry, clearing), the next one is new: old entries never return."""
    w = ctx.make_world(frozen=True)
    A, B = Party(w, 'A'), Party(w, 'B')
    b = A.env.backend
    n = 0
    last = None
    for i in range(ctx.p('steps')):
        op = ctx.choose('op', 4)
        p = A if i % 2 else B
        if op == 0:
            n += 1
            last = n
            p.do(p.cache.set, 'k%d' % n, n, tags_dep('t'))
        elif op == 1:
            p.do(p.cache.invalidate_dependency, tags_dep('t'))
            last = None
        elif op == 2:
            es = [e for e in b.entries if not str(e.key).startswith('k')]
            for e in es:
                b.evict_entry(e)
            if es:
                last = None
        else:
            n += 1
            p.do(p.cache.set, 'k%d' % n, n, tags_dep('t', 'u'))
            if last is None:
                last = n
        for j in range(1, n + 1):
            r = p.do(read, p.cache, 'get', 'k%d' % j)
            if last is None:
                ctx.check(r == MISS, 'gone with the version of its tag')
                ctx.cover('gone')
            elif j == n:
                ctx.check(r == j, 'the last one saved is valid')
                ctx.cover('fresh')
    # the sequence of versions: entries saved before some invalidation stay dead for good
    A.do(A.cache.invalidate_dependency, tags_dep('t'))
    A.do(A.cache.set, 'new', 1, tags_dep('t'))
    for j in range(1, n + 1):
        ctx.check(A.do(read, A.cache, 'get', 'k%d' % j) == MISS, 'never valid again')


def unique(ctx):
    """Versions made by any sessions at any times differ, however the clock and the threads coincide."""
    from cache_dependencies import utils
    w = ctx.make_world(frozen=ctx.flag('frozen'))
    sessions = [w.session('A'), w.session('B')]
    vs = [s.call(utils.generate_tag_version) for s in (sessions[0], sessions[0], sessions[1])]
    for i in range(3):
        for j in range(i):
            ctx.check(ctx.lnot(ctx.eq(vs[i], vs[j])), 'a version is never generated twice')
    ctx.cover('unique')


def lifetime(ctx):
    """With expiry following the clock: an entry outlives neither its own timeout nor the version of its tag, and is served until then."""
    w = ctx.make_world(ttl='fork')
    env = Env(w)
    c = env.cache
    start = w.now()
    timeout = ctx.choose_of('timeout', [60, 3 * 24 * 3600])
    way = ctx.choose('way', 2)
    c.set('k', 'v', tags_dep('t'), timeout)
    if way:
        c.set('later', 'v', tags_dep('t'), timeout)     # must not shorten or refresh the life of the first
    before = w.now()
    r = c.get('k', MISS, abort=True)
    after = w.now()
    if r == MISS:
        ctx.check(ctx.lor(after >= start + timeout, after >= start + 24 * 3600), 'served until it or its tag expires')
        ctx.cover('expired')
        c.set('new', 'v', tags_dep('t'), timeout)
        ctx.check(c.get('k', MISS, abort=True) == MISS, 'expired for good')
    else:
        ctx.check(r == 'v', 'the value')
        ctx.cover('alive')
    ctx.observe('r', r)


def record(ctx):
    """Evaluating records what is in the store; evaluating again renews the record."""
    from cache_dependencies.dependencies import TagsDependency
    from cache_dependencies import exceptions
    w = ctx.make_world(frozen=True)
    env = Env(w)
    b = env.backend
    tx = env.transaction.current()
    tags = [ctx.str('tag', 1) for _ in range(2)]
    d = TagsDependency(*tags)
    how = ctx.choose('how', 4)

    def valid(x):
        try:
            x.validate(b, 1).get()
            return True
        except exceptions.DependencyInvalid as e:
            ctx.check(e.dependency is x, 'the error names its dependency')
            bad = list(e.errors)
            ctx.check(bool(bad) and ctx.land(*[ctx.lor(*[ctx.eq(t, u) for u in tags]) for t in bad]), 'and the tags to blame')
            return False
    d.evaluate(b, tx, 1)
    ctx.check(valid(d), 'valid when just evaluated')
    other = ctx.str('other', 1)
    TagsDependency(other).invalidate(b, 1)
    hit = overlap(ctx, [other], tags)
    ctx.check(ctx.eq(valid(d), ctx.lnot(hit)), 'invalid exactly if one of its tags was invalidated')
    if how == 1:
        TagsDependency(other).evaluate(b, tx, 1)
        ctx.check(ctx.eq(valid(d), ctx.lnot(hit)), 'a new version is not the recorded one')
    elif how == 2:
        d.evaluate(b, tx, 1)
        ctx.check(valid(d), 'evaluated again')
    elif how == 3:
        e = TagsDependency(*tags)
        e.evaluate(b, tx, 1)
        ctx.check(valid(e), 'another record of the same tags')
        ctx.check(ctx.eq(valid(d), ctx.lnot(hit)), 'is another record')
        d.evaluate(b, tx, 2)
        ctx.check(not valid(d), 'of the given cache version')
    ctx.cover('valid' if valid(d) else 'invalid')


def saver(ctx):
    """Two sessions saving with the same missing tags, one after the other, share the versions the first one created."""
    w = ctx.make_world(frozen=True)
    A, B = Party(w, 'A'), Party(w, 'B')
    ta, tb = [ctx.str('ta', 1) for _ in range(2)], [ctx.str('tb', 1) for _ in range(2)]
    A.do(A.cache.set, 'a', 1, tags_dep(*ta))
    B.do(B.cache.set, 'b', 2, tags_dep(*tb))
    r = A.do(lambda: A.cache.get_many(['a', 'b'], abort=True))
    ctx.check(r == {'a': 1, 'b': 2}, 'both are served', lambda: repr(r))
    ctx.cover('saved')
    t = ctx.str('t', 1)
    A.do(A.cache.invalidate_dependency, tags_dep(t))
    r = B.do(lambda: B.cache.get_many(['a', 'b'], abort=True))
    ctx.check(ctx.eq('a' not in r, overlap(ctx, [t], ta)), 'a dies with its tags')
    ctx.check(ctx.eq('b' not in r, overlap(ctx, [t], tb)), 'b dies with its tags')
    if not r:
        ctx.cover('shared')


BOUNDS = ('up to 3 tags of which any subset has a version, 3 cache versions; histories of 4 (thorough 6) saves, invalidations and '
          'evictions by two sessions; symbolic tags, clock and randomness')
ASSUMPTIONS = ('draws from a range of 2**60 or more are distinct', 'digests are injective', 'the clock does not go back')
