"""The compatible interface: every spelling of a call means what it says."""
from harness.common import Env, Party, tags_dep, MISS, shards, overlap
PROPERTY = 'C24'
FORMS = 7


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        dj = p.pop('django', False)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=dj))
    job([5], 'native', ['stored'])
    job([FORMS], 'forms', ['dead', 'alive'])
    job([4], 'compute', ['computed', 'served'])
    job([2], 'delegation', ['same'])
    job([3], 'transactions', ['settled'])
    job([4], 'decorators', ['settled'], django=True)
    job([4], 'versions', ['dead', 'alive'])
    return out


def given(ctx, form, tags):
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency, DummyDependency
    return [lambda: list(tags), lambda: tuple(tags), lambda: set(tags), lambda: frozenset(tags), lambda: TagsDependency(*tags),
            lambda: CompositeDependency(*[TagsDependency(t) for t in tags]),
            lambda: CompositeDependency(DummyDependency(), TagsDependency(list(tags)))][form]()


def native(ctx):
    """set(key, value, timeout, version), as of the native interface: no tags, that timeout, that version."""
    w = ctx.make_world(frozen=True)
    e = Env(w, legacy=True)
    c = e.cache
    timeout = [None, ctx.int('timeout', 0, 1000)][ctx.flag('with timeout')]
    version = [None, ctx.int('version', 0, 3)][ctx.flag('with version')]
    spelling = ctx.choose('spelling', 5)
    if spelling == 0:
        if version is None:
            c.set('k', 'v', timeout)
        else:
            c.set('k', 'v', timeout, version)
    elif spelling == 1:
        c.set('k', 'v', timeout=timeout, version=version)
    elif spelling == 2:
        c.set('k', 'v', timeout, version=version)
    elif spelling == 3:
        c.set('k', 'v', (), timeout, version)
    else:
        c.set('k', 'v', tags=[], timeout=timeout, version=version)
    es = [x for x in e.backend.entries if x.key == 'k']
    ctx.check(len(es) == 1, 'stored')
    x = es[0]
    ctx.check((x.timeout is None) if timeout is None else ctx.eq(x.timeout, timeout), 'the timeout', lambda: repr((spelling, x.timeout, timeout)))
    ctx.check(ctx.eq(x.version, 1 if version is None else version), 'the version', lambda: repr((spelling, x.version, version)))
    t = ctx.str('tag', 1)
    c.invalidate_tags(t, version=version)
    if timeout is None or timeout > 0:
        ctx.check(c.get('k', MISS, version) == 'v', 'without tags')
    ctx.cover('stored')


def forms(ctx):
    """Tags in any form of collection or dependency, on saving and on invalidating."""
    w = ctx.make_world(frozen=True)
    c = Env(w, legacy=True).cache
    n = 1 + ctx.choose('n', 2)
    tags = [ctx.str('tag', 1) for _ in range(n)]
    form = ctx.choose('form', FORMS)
    keyword = ctx.flag('keyword')
    if keyword:
        c.set('k', 'v', tags=given(ctx, form, tags), timeout=60)
    else:
        c.set('k', 'v', given(ctx, form, tags), 60)
    ctx.check(c.get('k') == 'v', 'saved')
    other = [ctx.str('invalidated', 1) for _ in range(1 + ctx.choose('m', 2))]
    how = ctx.choose('how', FORMS + 1)
    if how == FORMS:
        c.invalidate_tags(*other)
    else:
        c.invalidate_tags(given(ctx, how, other))
    r = c.get('k', MISS, abort=True)
    ctx.check(ctx.eq(r == MISS, overlap(ctx, tags, other)), 'out of service exactly if a tag was invalidated', lambda: repr((form, how, tags, other)))
    ctx.cover('dead' if r == MISS else 'alive')


def versions(ctx):
    """Invalidation applies to the version it names, whatever the form of the tags."""
    w = ctx.make_world(frozen=True)
    c = Env(w, legacy=True).cache
    v1 = [None, 0, ctx.int('version', 0, 2)][ctx.choose('v1', 3)]
    v2 = [None, 0, ctx.int('version', 0, 2)][ctx.choose('v2', 3)]
    c.set('k', 'v', ['T'], 60, v1)
    how = ctx.choose('how', 4)
    if how == 0:
        c.invalidate_tags('T', version=v2)
    elif how == 1:
        c.invalidate_tags(['T', 'U'], version=v2)
    elif how == 2:
        c.invalidate_tags(tags_dep('T'), version=v2)
    else:
        c.invalidate_tags('U', 'T', **({} if v2 is None else dict(version=v2)))
    r = c.get('k', MISS, v1, abort=True)
    same = ctx.eq(1 if v1 is None else v1, 1 if v2 is None else v2)
    ctx.check(ctx.eq(r == MISS, same), 'exactly in the named version')
    ctx.cover('dead' if r == MISS else 'alive')


class Boom(Exception):
    pass


def compute(ctx):
    """get_or_set_callback with tags in any form, arguments, timeout, version, failures."""
    w = ctx.make_world(frozen=True)
    e = Env(w, legacy=True)
    c = e.cache
    tags = [ctx.str('tag', 1) for _ in range(2)]
    form = ctx.choose('form', 4)
    version = [None, 0, ctx.int('version', 0, 2)][ctx.choose('version', 3)]
    timeout = [None, ctx.int('timeout', 1, 1000)][ctx.choose('timeout', 2)]
    calls = []

    def f(*a, **k):
        calls.append((a, k))
        if fail:
            raise Boom()
        return value
    value = ctx.choose_of('value', ['v1', 0, '', False]) if form else 'v1'
    t = [(), list(tags), tuple(tags), tags_dep(*tags)][form]
    kw = dict(args=(1, 2), kwargs={'x': 3}) if ctx.flag('args') else {}
    fail = ctx.flag('fail')
    if fail:
        try:
            c.get_or_set_callback('k', f, t, timeout, version, **kw)
            ctx.check(False, 'the failure comes out')
        except Boom:
            pass
        ctx.check(c.get('k', MISS, version, abort=True) == MISS and not c.relation_manager.current(), 'nothing is kept or left pending')
        fail = False
        del calls[:]
    for i in range(2):
        ctx.check(c.get_or_set_callback('k', f, t, timeout, version, **kw) == value, 'the computed value')
    ctx.check(calls == [((1, 2), {'x': 3}) if kw else ((), {})], 'computed once, with the arguments')
    x = [x for x in e.backend.entries if x.key == 'k'][0]
    ctx.check((x.timeout is None) if timeout is None else ctx.eq(x.timeout, timeout), 'the timeout')
    tag = ctx.str('invalidated', 1)
    c.invalidate_tags(tag, version=version)
    r = c.get_or_set_callback('k', f, t, timeout, version, **kw)
    dead = overlap(ctx, [tag], tags) if form else False
    ctx.check(ctx.eq(len(calls) == 2, dead), 'computed again exactly if a tag was invalidated')
    ctx.cover('computed' if len(calls) == 2 else 'served')


def delegation(ctx):
    """Native operations reach the backend with their arguments and results; membership is that of the backend."""
    w = ctx.make_world(frozen=True)
    e = Env(w, legacy=ctx.flag('legacy'))
    c, b = e.cache, e.backend
    v = ctx.int('value', 0, 9)
    version = [None, ctx.int('version', 0, 2)][ctx.flag('with version')]
    ctx.check(c.add('k', v, 60, version=version) is True and c.add('k', v + 1, 60, version=version) is False, 'add')
    ctx.check(ctx.eq(c.get('k', version=version), v), 'what was added')
    ctx.check(ctx.eq(c.incr('k', 2, version=version), v + 2), 'incr')
    ctx.check(ctx.eq(c.get_many(['k', 'x'], version=version, abort=True)['k'], v + 2), 'read by the wrapper')
    ctx.check(ctx.eq(c.decr('k', version=version), v + 1), 'decr')
    ctx.check(c.has_key('k', version=version) is True and c.has_key('x', version=version) is False, 'has_key')
    ctx.check(ctx.eq(('k' in c), True if version is None else ctx.eq(version, 1)) and 'x' not in c, 'membership')
    c.set_many({'a': 1, 'b': None}, 60, version=version)
    ctx.check(b.get('a', version=version) == 1, 'set_many')
    c.delete_many(['a'], version=version)
    c.delete('k', version=version)
    ctx.check(c.get('k', MISS, version) == MISS and c.get('a', MISS, version) == MISS, 'delete')
    ctx.check(c.default_timeout == b.default_timeout, 'attributes')
    try:
        c.no_such_thing
        ctx.check(False, 'what the backend does not have is not there')
    except AttributeError:
        pass
    c.clear()
    ctx.check(not b.entries, 'clear')
    ctx.cover('same')


def transactions(ctx):
    """The old names of the transaction calls do what the new ones do, and return the cache."""
    w = ctx.make_world(frozen=True)
    A, B = Party(w, 'A', legacy=True), Party(w, 'B', legacy=True)
    depth = 1 + ctx.choose('depth', 3)
    for i in range(depth):
        if ctx.flag('old'):
            ctx.check(A.do(A.cache.transaction_begin) is A.cache, 'returns the cache')
        else:
            A.do(A.cache.transaction.begin)
    tag = ctx.str('tag', 1)
    A.do(A.cache.invalidate_tags, 'T')
    B.do(B.cache.set, 'k', 1, [tag])
    how = ctx.choose('how', 3)
    if how == 0:
        ctx.check(A.do(A.cache.transaction_finish_all) is A.cache, 'returns the cache')
    elif how == 1:
        for i in range(depth):
            ctx.check(bool(A.do(A.cache.transaction.current)), 'open')
            ctx.check(A.do(A.cache.transaction_finish) is A.cache, 'returns the cache')
    else:
        A.do(A.cache.close)
    ctx.check(not A.do(A.cache.transaction.current), 'over')
    r = B.do(B.cache.get, 'k', MISS, None, True)
    ctx.check(ctx.eq(r == MISS, ctx.eq(tag, 'T')), 'settled')
    ctx.cover('settled')


def decorators(ctx):
    """cache_transaction and cache_transaction_all, in each spelling."""
    from django_cache_dependencies import caches, cache
    from django_cache_dependencies.decorators import cache_transaction, cache_transaction_all
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    spelling = ctx.choose('spelling', 4)
    everything = ctx.flag('all')
    fail, nested = ctx.flag('fail'), ctx.flag('nested')
    deco = cache_transaction_all if everything else cache_transaction
    c = lambda: caches['other' if spelling in (2, 3) else 'default']

    def f(a, b=None):
        ctx.check(bool(c().transaction.current()), 'runs in a transaction')
        if nested and everything:
            c().transaction.begin()
        c().invalidate_tags('T')
        B.call(lambda: c().set('k', 1, ['T']))
        if fail:
            raise Boom()
        return (a, b)

    def run():
        if spelling == 0:
            g = deco(f)
        elif spelling == 1:
            g = deco()(f)
        elif spelling == 2:
            g = deco(cache=c())(f)
        else:
            g = deco(f, cache=c()) if ctx.flag('both') else deco(c())(f)
        return g(1, b=2)
    outer = ctx.flag('outer')
    if outer:
        A.call(lambda: c().transaction.begin())
    try:
        r = A.call(run)
        ctx.check(r == (1, 2) and not fail, 'the result is passed through')
    except Boom:
        ctx.check(fail, 'only its own failure')
    open_ = outer and not everything
    ctx.check(bool(A.call(lambda: c().transaction.current())) == open_, 'its scope, or all of them, are over')
    ctx.check((B.call(lambda: c().get('k', abort=True)) == 1) == open_, 'settled with the outermost scope')
    A.call(lambda: c().transaction.flush())
    ctx.check(B.call(lambda: c().get('k', abort=True)) is None, 'settled')
    ctx.cover('settled')


BOUNDS = ('5 spellings of set with symbolic timeout and version; 7 forms of up to 2 symbolic tags for saving and 8 for invalidating; '
          '4 forms for computing; all native operations; up to 3 scopes; 4 spellings of 2 decorators')
ASSUMPTIONS = ('backend operations honour the cache API (stub)',
               'native operations (incr, get_or_set, ...) see values as the backend stores them: entries with tags are for get, get_many and the like')
