"""Adapters of other cache systems: AbstractCache derives every operation from get, set and delete, faithfully."""
from harness.common import Env, Party, tags_dep, dummy, MISS, read, shards
PROPERTY = 'C17'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    m = 3 if thorough else 2
    job([m + 1], 'keys', ['same', 'different'], length=m)
    job([3, 3], 'many', ['found', 'absent'])
    job([2, 3], 'count', ['counted', 'absent'])
    job([2, 3], 'move', ['moved', 'absent'])
    job([2], 'validate', ['warned', 'fine'])
    job([8], 'validate_chars', ['warned', 'fine'])
    job([2, 3], 'wrapped', ['hit', 'missed'], level='REPEATABLE READ')
    job([2, 3], 'wrapped', ['hit', 'missed'], level='READ COMMITTED')
    return out


_class = []


def mini():
    """A minimal adapter: only get, set and delete, over a list of cells; values by reference."""
    from cache_dependencies.cache import AbstractCache
    if _class:
        return _class[0]

    class Mini(AbstractCache):
        def __init__(self):
            self.cells = []
            self.log = []

        def _find(self, key, version):
            k = self.make_key(key, version)
            for c in self.cells:
                if c[0] == k:
                    return c
            return None

        def get(self, key, default=None, version=None):
            self.log.append(('get', key, version))
            c = self._find(key, version)
            return default if c is None else c[1]

        def set(self, key, value, timeout=None, version=None):
            self.log.append(('set', key, timeout, version))
            c = self._find(key, version)
            if c is None:
                self.cells.append([self.make_key(key, version), value])
            else:
                c[1] = value

        def delete(self, key, version=None):
            self.log.append(('delete', key, version))
            c = self._find(key, version)
            if c is not None:
                self.cells.remove(c)
    _class.append(Mini)
    return Mini


VERSIONS = [None, 0, 1, 2]
norm = lambda v: 1 if v is None else v


def keys(ctx):
    """Keys keep keys, prefixes and versions apart, as documented: prefix, version and key joined by colons."""
    ctx.make_world(frozen=True)
    c = mini()()
    la, lb = ctx.choose('la', ctx.p('length') + 1), ctx.choose('lb', ctx.p('length') + 1)
    a = ctx.str('a', la, any_char=True) if la else ''
    b = ctx.str('b', lb, any_char=True) if lb else ''
    va, vb = VERSIONS[ctx.choose('va', 4)], VERSIONS[ctx.choose('vb', 4)]
    ka, kb = c.make_key(a, va), c.make_key(b, version=vb)
    same = ctx.land(ctx.eq(a, b) if la == lb else False, norm(va) == norm(vb))
    ctx.check(ctx.eq(ka == kb, same), 'keys differ exactly if keys or versions do', lambda: repr((ka, kb)))
    c.key_prefix = 'pre'
    ctx.check(ctx.eq(c.make_key(a, va), 'pre' + ka), 'the prefix comes first')
    c.version = 2
    ctx.check(ctx.eq(c.make_key(a, None), c.make_key(a, 2)), 'the default version is the cache\'s own')
    ctx.check(ctx.eq(c.make_key(a, 0), 'pre:0:' + a), 'any version can be given')
    c.key_func = lambda key, prefix, version: (key, prefix, version)
    ctx.check(ctx.eq(list(c.make_key(a, va)), [a, 'pre', 2 if va is None else va]), 'a key function of one\'s own is used')
    ctx.cover('same' if ka == kb else 'different')


def many(ctx):
    """The bulk operations do what the single ones would do for each key."""
    ctx.make_world(frozen=True)
    c = mini()()
    version = VERSIONS[ctx.choose('version', 3)]
    ks = [ctx.str('key', 1) for _ in range(2)]
    values = [0, '', False, [], 'v']
    op = ctx.choose('op', 3)
    other = ctx.str('other', 1)
    c.set(other, 'other', version=version)
    c.set(other, 'elsewhere', version=norm(version) + 5)
    data = {}
    if op < 2:
        v = values[ctx.choose('value', 3 if op else 5)]
        timeout = [None, 0, 77][ctx.choose('timeout', 3)]
        del c.log[:]
        data = {ks[0]: v, 'fixed': 7}
        if op == 0:
            c.set_many(data, timeout, version)
        else:
            c.set_many(data, timeout=timeout, version=version)
        ctx.check(all(e[0] != 'set' or (e[2] == timeout and e[3] == version) for e in c.log), 'with the given timeout and version')
        ctx.check(ctx.eq(c.get(ks[0], version=version), v), 'stored')
        ctx.check(c.get('fixed', version=version) == 7, 'stored')
        if not ctx.eq(other, ks[0]):
            ctx.check(c.get(other, version=version) == 'other', 'others stay')
    else:
        c.set(ks[0], 'first', version=version)
        c.delete_many([ks[1], 'never'], version)
        gone = ctx.eq(ks[1], ks[0])
        ctx.check(ctx.eq(c.get(ks[0], version=version) is None, gone), 'deleted exactly what is named')
    if ctx.flag('iterator'):
        r = c.get_many(iter([ks[0], other, 'absent']), version)
    else:
        r = c.get_many([ks[0], other, 'absent'], version=version)
    expected = {}
    for k in (ks[0], other, 'absent'):
        v = c.get(k, None, version)
        if v is not None:
            expected[k] = v
    ctx.check(len(r) == len(expected), 'a bulk read finds what single reads find', lambda: repr((r, expected)))
    for k, v in expected.items():
        ctx.check(any(k is x or k == x for x in r) and [r[x] for x in r if x is k or x == k][0] == v, 'the same values')
    ctx.cover('found' if expected else 'absent')
    for k in (ks[0], other, 'absent', 'fixed'):
        here = c.get(k, None, version) is not None
        ctx.check(c.has_key(k, version) == here, 'has_key agrees with get')
        ctx.check((k in c) == (c.get(k) is not None), 'so does `in`, for the default version')
    ctx.check(c.get(other, version=norm(version) + 5) == 'elsewhere', 'other versions are untouched')
    ctx.cover('absent')


def count(ctx):
    """Counting: the sum is stored and returned, of that version only; an absent counter is an error."""
    ctx.make_world(frozen=True)
    c = mini()()
    down = ctx.choose('down', 2)
    version = VERSIONS[ctx.choose('version', 3)]
    start, delta = ctx.int('start', -100, 100), ctx.int('delta', -100, 100)
    present = ctx.flag('present')
    c.set('n', 1000, version=norm(version) + 1)
    if present:
        c.set('n', start, version=version)
    f = c.decr if down else c.incr
    try:
        if ctx.flag('default'):
            d = 1
            r = f('n', version=version)
        else:
            d = delta
            r = f('n', delta, version)
        ctx.check(present, 'an absent counter is an error')
        want = start - d if down else start + d
        ctx.check(ctx.eq(r, want), 'the new value is returned')
        ctx.check(ctx.eq(c.get('n', version=version), want), 'and stored')
        ctx.cover('counted')
    except ValueError:
        ctx.check(not present, 'a present one is not')
        ctx.check(c.get('n', version=version) is None, 'and stays absent')
        ctx.cover('absent')
    ctx.check(c.get('n', version=norm(version) + 1) == 1000, 'other versions are untouched')


def move(ctx):
    """Changing the version of an entry moves it: it is found under the new one only."""
    ctx.make_world(frozen=True)
    c = mini()()
    down = ctx.choose('down', 2)
    version = VERSIONS[ctx.choose('version', 3)]
    delta = ctx.int('delta', 1, 4)
    if ctx.flag('negative'):
        delta = -delta
    present = ctx.flag('present')
    value = [0, '', 'v'][ctx.choose('value', 3)]
    key = ctx.str('key', 1)
    c.set('x', 'other', version=version)
    if present:
        c.set(key, value, version=version)
    taken = ctx.eq(key, 'x')
    f = c.decr_version if down else c.incr_version
    try:
        if ctx.flag('default'):
            d = 1
            r = f(key, version=version)
        else:
            d = delta
            r = f(key, delta, version)
        ctx.check(ctx.lor(present, taken), 'an absent entry is an error')
        new = norm(version) - d if down else norm(version) + d
        ctx.check(ctx.eq(r, new), 'the new version is returned')
        ctx.check(ctx.eq(c.get(key, None, new), value if present else 'other'), 'found under the new version')
        ctx.check(c.get(key, None, norm(version)) is None, 'and not under the old one')
        ctx.cover('moved')
    except ValueError:
        ctx.check(ctx.lnot(ctx.lor(present, taken)), 'a present one is not')
        ctx.cover('absent')
    if not taken:
        ctx.check(c.get('x', None, version) == 'other', 'other entries are untouched')


def warned(ctx, c, key):
    import warnings
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        c.validate_key(key)
    return len(ws) > 0


def validate(ctx):
    """Every character that memcached refuses makes a warning, wherever it stands; nothing else does, and nothing raises."""
    ctx.make_world(frozen=True)
    c = mini()()
    n = ctx.choose('n', 2) + 1
    key = ctx.str('key', n, any_char=True)
    bad = ctx.lor(*[ctx.lor(_ord(ctx, key[i]) < 33, _ord(ctx, key[i]) == 127) for i in range(n)])
    w = warned(ctx, c, key)
    ctx.check(ctx.eq(w, bad), 'warned exactly of what is not portable')
    ctx.cover('warned' if w else 'fine')


def _ord(ctx, ch):
    from sx import runtime
    return runtime._ord(ch)


def validate_chars(ctx):
    """Long keys are warned of, from the first character too many."""
    ctx.make_world(frozen=True)
    c = mini()()
    n = [0, 1, 100, 249, 250, 251, 252, 1000][ctx.choose('n', 8)]
    ch = ctx.choose_of('ch', ['x', '~', '!', '\u0444', '{', '%', ' ', '\x7f', '\t'])
    key = 'k' * (n - 1) + ch if n else ''
    w = warned(ctx, c, key)
    ctx.check(w == (n > 250 or (n > 0 and ch in ' \x7f\t')), 'warned exactly of what is not portable', lambda: repr((n, ch)))
    ctx.cover('warned' if w else 'fine')


def wrapped(ctx):
    """The whole library over such an adapter: entries live and die with their tags."""
    w = ctx.make_world()
    store = mini()()
    a = Env(w, backend=store, level=ctx.p('level'), legacy=ctx.flag('legacy'))
    c = a.cache
    tag, other = ctx.str('tag', 1), ctx.str('other', 1)
    c.set('k', 'v', tags_dep(tag))
    c.get('page')
    c.get('k')
    c.set('page', 'p', None if not hasattr(c, 'invalidate_tags') else ())
    tx = ctx.choose('tx', 3)
    if tx:
        c.transaction.begin()
    (c.invalidate_tags if hasattr(c, 'invalidate_tags') else c.invalidate_dependency)(tags_dep(other))
    if tx == 2:
        c.transaction.finish()
    r = [c.get(k, MISS, abort=True) for k in ('k', 'page')]
    many = c.get_many(['k', 'page', 'none'], abort=True)
    if not ctx.eq(tag, other):
        ctx.check(r == ['v', 'p'] and many == {'k': 'v', 'page': 'p'}, 'served', lambda: repr((r, many)))
        ctx.cover('hit')
    else:
        ctx.check(r == [MISS, MISS] and many == {}, 'not served', lambda: repr((r, many)))
        ctx.cover('missed')


BOUNDS = ('keys of up to 2 (thorough 3) arbitrary characters, 4 versions, 5 values, any counters within 100 and moves within 4 versions; '
          'keys of 8 lengths up to 1000')
ASSUMPTIONS = ('the adapter\'s own get, set and delete keep their contract',)
