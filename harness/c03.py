"""Values come back exactly as stored, by every reading operation, and computing happens exactly when needed."""
from harness.common import Env, Party, tags_dep, dummy, MISS, read, shards
PROPERTY = 'C03'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []
    for f in shards([14]):
        out.append(dict(fn='roundtrip', params=dict(force=f), covers=['read back']))
    for f in shards([8]):
        out.append(dict(fn='foreign', params=dict(force=f), covers=['foreign value']))
    out.append(dict(fn='keys', params=dict(n=3 if thorough else 2, length=2), covers=['same key', 'other key']))
    for f in shards([3]):
        out.append(dict(fn='bulk', params=dict(n=4 if thorough else 3, force=f), covers=['bulk hit', 'bulk miss']))
    out.append(dict(fn='compute', params={}, covers=['computed', 'reused']))
    out.append(dict(fn='refused', params={}, covers=['computed']))
    out.append(dict(fn='parameters', params={}, covers=['timeout']))
    return out


def make_value(ctx, kind):
    """-> (value, plain check value)"""
    if kind == 0:
        return ctx.int('v')
    if kind == 1:
        return ctx.str('v', 3)
    if kind == 2:
        return ctx.bool('v')
    if kind == 3:
        return ''
    if kind == 4:
        return []
    if kind == 5:
        return {}
    if kind == 6:
        return {'__value': ctx.int('v')}
    if kind == 7:
        return {'__dependency': ctx.int('v')}
    if kind == 8:
        return {'__value': ctx.int('v'), '__dependency': 'text'}
    if kind == 9:
        return [ctx.int('v'), (ctx.str('v', 1), None), {'k': ctx.int('v')}]
    if kind == 10:
        return 0
    if kind == 11:
        return None
    if kind == 12:
        return False
    return {'a': {'b': [ctx.int('v')]}}


def same(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return ctx.land(set(a) == set(b), *[same(ctx, a[k], b[k]) for k in a if k in b])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return ctx.land(type(a) is type(b), len(a) == len(b), *[same(ctx, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bool)) != isinstance(b, (str, bool)) and not hasattr(a, 't') and not hasattr(b, 't'):
        return False
    return ctx.eq(a, b)


def roundtrip(ctx):
    """One entry of every kind of value, with and without tags; read back several times in every way."""
    w = ctx.make_world(frozen=True)
    kind = ctx.choose('kind', 14)
    c = Env(w, legacy=ctx.flag('legacy')).cache
    v = make_value(ctx, kind)
    tagged = ctx.choose('tagged', 3)
    d = [dummy(), tags_dep('t'), None][tagged]
    if tagged == 2:
        c.set('k', v)
    else:
        c.set('k', v, d)
    default = ctx.choose_of('default', [MISS, None, 0, lambda *a: MISS, MISS.__class__, ['x']])
    other = c.get('absent', default)
    ctx.check(other is default or same(ctx, other, default), 'a missing entry reads as the default')
    c.abort('absent')
    for i in range(2):
        how = ctx.choose('how', 4)
        if how == 0:
            r = c.get('k', default)
        elif how == 1:
            r = c.get('k')
        elif how == 2:
            r = c.get_many(['k']).get('k', '<not in bulk read>')
        else:
            r = c.get('k', default, abort=True)
        ctx.check(same(ctx, r, v), 'the stored value is read back, whatever it is', lambda: repr((how, r, v)))
        ctx.cover('read back')
    ctx.observe('r', r)


def foreign(ctx):
    """Values other software put into the backend are served as they are, and never raise."""
    w = ctx.make_world(frozen=True)
    kind = ctx.choose('kind', 8)
    e = Env(w, legacy=ctx.flag('legacy'))
    c = e.cache
    v = make_value(ctx, [0, 1, 3, 4, 5, 6, 7, 13][kind])
    way = ctx.choose('way', 3)
    if way == 0:
        e.backend.set('k', v)
    elif way == 1:
        c.add('k', v)
    else:
        c.set_many({'k': v})
    how = ctx.choose('how', 3)
    if how == 0:
        r = c.get('k', MISS)
    elif how == 1:
        r = c.get_many(['k', 'absent']).get('k', MISS)
    else:
        r = c.get_or_set_callback('k', lambda: 'computed', dummy())
    ctx.check(same(ctx, r, v), 'a value stored natively is served unchanged')
    c.invalidate_dependency(tags_dep('t'))
    r = c.get('k', MISS)
    ctx.check(same(ctx, r, v), 'a value stored natively has no dependencies')
    ctx.cover('foreign value')


def keys(ctx):
    """Keys are told apart exactly by equality."""
    w = ctx.make_world(frozen=True)
    c = Env(w).cache
    n = ctx.p('n')
    stored = []
    for i in range(n):
        k, v = ctx.str('key', ctx.p('length')), ctx.int('v')
        c.set(k, v, tags_dep('t%d' % i))
        stored.append((k, v))
    q = ctx.str('key', ctx.p('length'))
    r = c.get_many([q]).get(q, MISS) if ctx.flag('bulk') else c.get(q, MISS, abort=True)
    want = MISS
    for k, v in stored:
        if k == q:
            want = v
    if want is MISS:
        ctx.check(r is MISS or ctx.eq(r, MISS), 'a key nobody stored is a miss')
        ctx.cover('other key')
    else:
        ctx.check(r is not MISS and ctx.eq(r, want), 'the last value stored under the key is served')
        ctx.cover('same key')
    # deleting one key does not touch the others
    c.delete(stored[0][0])
    r = c.get(q, MISS, abort=True)
    if stored[0][0] == q or want is MISS:
        ctx.check(r is MISS or ctx.eq(r, MISS), 'a deleted key is a miss')
    else:
        ctx.check(r is not MISS and ctx.eq(r, want), 'deleting a key leaves the others alone')


def bulk(ctx):
    """A bulk read returns, for each key asked for, exactly what a single read returns; nothing else."""
    w = ctx.make_world(frozen=True)
    e = Env(w)
    c = e.cache
    arg = ctx.choose('argument', 3)
    n = ctx.p('n')
    for i in range(n):
        s = ctx.choose('state', 4)
        if s == 1:
            c.set('k%d' % i, ctx.int('v'), tags_dep('good'))
        elif s == 2:
            c.set('k%d' % i, ctx.int('v'), tags_dep('good', 'bad'))
        elif s == 3:
            e.backend.set('k%d' % i, 'raw')
    c.invalidate_dependency(tags_dep('bad'))
    asked = ['k%d' % i for i in range(n)] + ['k0']
    single = {k: c.get(k, MISS, abort=True) for k in asked}
    if arg == 0:
        r = c.get_many(asked, abort=True)
    elif arg == 1:
        r = c.get_many(iter(asked), abort=True)
    else:
        r = c.get_many(set(asked))
    ctx.observe('r', r)
    ctx.check(set(r) <= set(asked), 'only keys asked for')
    for k in asked:
        if single[k] is MISS or single[k] == MISS:
            ctx.check(k not in r, 'a key that misses is left out')
            ctx.cover('bulk miss')
        else:
            ctx.check(k in r, 'a key that hits is included')
            ctx.check(same(ctx, r[k], single[k]), 'with the value a single read returns')
            ctx.cover('bulk hit')


def compute(ctx):
    """get-or-compute: calls the function exactly when the entry is missing, passes its arguments, stores the result."""
    w = ctx.make_world(frozen=True)
    legacy = ctx.flag('legacy')
    c = Env(w, legacy=legacy).cache
    calls = []
    a, b = ctx.int('a'), ctx.int('b')
    state = ctx.choose('state', 4)
    stored = ctx.int('stored')
    if state in (1, 2):
        c.set('k', stored, tags_dep('t'))
    if state == 2:
        c.invalidate_dependency(tags_dep('t'))
    if state == 3:
        c.set('k', None, tags_dep('t'))     # None is not a cacheable result of computing

    def f(*args, **kwargs):
        calls.append((args, kwargs))
        return a
    form = ctx.choose('form', 3)
    if form == 0:
        args = ()
        kw = {}
        r = c.get_or_set_callback('k', f, tags_dep('t'))
    elif form == 1:
        args, kw = (b, 'x'), dict(z=b)
        r = c.get_or_set_callback('k', f, tags_dep('t'), 60, None, args, kw)
    else:
        args, kw = (b,), {}
        r = c.get_or_set_callback('k', f, tags_dep('t'), args=[b])
    if state == 1:
        ctx.check(ctx.eq(r, stored), 'a valid entry is returned')
        ctx.check(len(calls) == 0, 'and nothing is computed')
        ctx.cover('reused')
        return
    ctx.check(len(calls) == 1, 'computed once', lambda: repr(calls))
    ctx.check(same(ctx, list(calls[0][0]), list(args)), 'positional arguments are passed')
    ctx.check(same(ctx, calls[0][1], kw), 'keyword arguments are passed')
    ctx.check(ctx.eq(r, a), 'the computed value is returned')
    ctx.cover('computed')
    r2 = c.get_or_set_callback('k', f, tags_dep('t'))
    ctx.check(len(calls) == 1, 'the second time it is served from cache')
    ctx.check(ctx.eq(r2, a), 'with the same value')
    c.invalidate_dependency(tags_dep('t'))
    c.get_or_set_callback('k', f, tags_dep('t'))
    ctx.check(len(calls) == 2, 'and computed again after invalidation')


def refused(ctx):
    """While another session's transaction keeps the result from being saved, it is still computed and returned, anew every time."""
    w = ctx.make_world()
    level = ctx.choose_of('level', ['REPEATABLE READ', 'SERIALIZABLE'])
    A, B = Party(w, 'A', level=level, legacy=ctx.flag('legacy')), Party(w, 'B', level=level)
    old = ctx.flag('old')
    if old:
        A.do(A.cache.set, 'k', 'old', tags_dep('t'))
    B.do(B.cache.transaction.begin)
    B.do(B.cache.invalidate_dependency, tags_dep('t'))
    calls, results = [], []
    for i in range(2):
        value = ctx.int('value') if i == 0 else ctx.str('value', 2)

        def f():
            calls.append(i)
            return value
        r = A.do(A.cache.get_or_set_callback, 'k', f, tags_dep('t') if ctx.flag('own') else tags_dep('t', 'u'))
        ctx.check(len(calls) == i + 1, 'computed, for nothing valid is stored', lambda: repr((calls, results)))
        ctx.check(same(ctx, r, value), 'the computed value is returned although it may not be saved', lambda: repr((r, value)))
        results.append(r)
    ctx.check(A.do(read, A.cache, 'get', 'k') == MISS, 'and is not saved')
    ctx.cover('computed')


def parameters(ctx):
    """The entry's timeout and version reach the backend as given."""
    w = ctx.make_world(frozen=True)
    e = Env(w, legacy=ctx.flag('legacy'))
    c = e.cache
    t = ctx.choose_of('timeout', [None, 0, 1, 3600, 'sym'])
    if t == 'sym':
        t = ctx.int('timeout', 1, 10 ** 6)
    v = ctx.choose_of('version', [None, 0, 1, 2])
    way = ctx.choose('way', 3)
    d = tags_dep('t')
    if way == 0:
        c.set('k', 'v', d, t, v)
    elif way == 1:
        c.set('k', 'v', d, timeout=t, version=v)
    else:
        c.get_or_set_callback('k', lambda: 'v', d, timeout=t, version=v)
    es = [x for x in e.backend.entries if x.key == 'k']
    ctx.check(len(es) == 1, 'one entry is written')
    x = es[0]
    ctx.check(x.version == (1 if v is None else v), 'under the version given')
    ctx.check((x.timeout is None) if t is None else (x.timeout is not None and ctx.eq(x.timeout, t)),
              'with the timeout given')
    r = c.get('k', MISS, version=v, abort=True)
    ctx.check(r == ('v' if t is None or t != 0 else MISS), 'and served accordingly')
    ctx.cover('timeout')


BOUNDS = ('14 shapes of values with symbolic leaves, 2 reads in a row; up to 3 (thorough 4) keys in a bulk read in 4 states '
          'each; symbolic keys of 2 characters; every timeout up to 10**6')
ASSUMPTIONS = ('backend operations honour the cache API (stub); values survive pickling',)
