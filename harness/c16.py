"""Names and identities: different tags, kinds of tag data, cache versions and sessions are never confused."""
from harness.common import (Env, Party, tags_dep, dummy, MISS, read, shards, overlap, READ_COMMITTED, REPEATABLE_READ,
                            SERIALIZABLE)
PROPERTY = 'C16'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    m = 3 if thorough else 2
    job([m + 1, m + 1], 'names', ['same', 'different'], length=m)
    for n in (250, 4000):
        job([], 'names', ['same', 'different'], length=1, long=n)
    job([], 'types', ['named'])
    job([2], 'shortened', ['different'])
    job([], 'portable', ['portable'])
    job([3], 'namespaces', ['apart'])
    job([m + 1, m + 1], 'ids', ['same', 'different'], length=m + 1)
    job([4], 'processes', ['same', 'different'])
    job([2, 3], 'locks', ['locked', 'free'])
    job([3, 3], 'versions', ['apart', 'together'])
    return out


class Host(object):
    """Stands in for host name, process id and thread id."""

    def __init__(self, host=None, pid=None, ident=None):
        self.mine = dict(host=host, pid=pid, ident=ident)

    def __enter__(self):
        from sx import world
        world.IDENTITY.update(self.mine)

    def __exit__(self, *a):
        from sx import world
        world.IDENTITY.clear()


def names(ctx):
    """Names of any characters: the entry of one dies with the invalidation of another exactly if they are equal."""
    w = ctx.make_world(frozen=True)
    env = Env(w)
    c = env.cache
    la, lb = ctx.choose('la', ctx.p('length') + 1), ctx.choose('lb', ctx.p('length') + 1)
    a = ctx.str('a', la, any_char=True) if la else ''
    b = ctx.str('b', lb, any_char=True) if lb else ''
    if ctx.p('long'):
        a, b = 'x' * ctx.p('long') + a, 'x' * ctx.p('long') + b
    form = ctx.choose('form', 2)
    c.set('k', 1, tags_dep(a) if form else tags_dep([a]))
    c.invalidate_dependency(tags_dep(b) if form else tags_dep([b]))
    same = ctx.eq(a, b) if la == lb else False
    gone = c.get('k', None, abort=True) is None
    ctx.check(ctx.eq(gone, same), 'tags are told apart by all of their name', lambda: repr((a, b, gone)))
    ctx.cover('same' if gone else 'different')


def types(ctx):
    """Tags of other types work like their text, and differ from other texts."""
    w = ctx.make_world(frozen=True)
    c = Env(w).cache
    n = ctx.int('n', -3, 30)
    s = ctx.choose_of('s', ['-1', '0', '7', '07', '17', '+7', '7 ', 'None', 'True', 'x'])
    c.set('k', 1, tags_dep(n))
    c.invalidate_dependency(tags_dep(s))
    gone = c.get('k', None, abort=True) is None
    ctx.check(ctx.eq(gone, ctx.lor(*[n == int(x) for x in [s] if x in ('-1', '0', '7', '17')])), 'a number is the tag of its digits')
    ctx.observe('gone', gone)
    for x in (None, True, 1.5, ('a', 'b'), b'x', 'x'):
        c.set('k', 1, tags_dep([x, 'common']))
        ctx.check(c.get('k', None, abort=True) == 1, 'any tag can be saved')
        c.invalidate_dependency(tags_dep([x]))
        ctx.check(c.get('k', None, abort=True) is None, 'and invalidated')
    ctx.cover('named')


# pairs whose digests begin or end alike (the first three: MD5), or whose checksums agree
ALIKE = [('tag19708912', 'tag25928161'), ('tag1025075', 'tag18686454'), ('tag85309', 'tag103872'), ('tag88279', 'tag125176'),
         ('tag193033', 'tag887562'), ('tag3567366', 'tag4003319'), ('tag32404487', 'tag41011339'), ('tag6123', 'tag92505'),
         ('tag9883', 'tag20470'), ('tag158689', 'tag161763'), ('tag19373', 'tag48899'), ('tag80256', 'tag133353'),
         ('tag90262', 'tag114112'), ('tag29685295', 'tag32060020'), ('tag120', 'tag201')]


def shortened(ctx):
    """Tags which the beginning or the end of a digest, or a checksum, does not tell apart."""
    w = ctx.make_world(frozen=True)
    locks = ctx.flag('locks')
    level = REPEATABLE_READ if locks else READ_COMMITTED
    A, B = Party(w, 'A', level=level), Party(w, 'B', level=level)
    x, y = ctx.choose_of('pair', ALIKE)
    z = ctx.choose_of('invalidated', [x, y, x + y])
    B.do(B.cache.set, 'k', 1, tags_dep(x))
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep(z))
    ctx.check((B.do(read, B.cache, 'get', 'k') == MISS) == (z == x), 'tags are told apart')
    B.do(B.cache.set, 'l', 1, tags_dep(x))
    ctx.check((B.do(read, B.cache, 'get', 'l') == MISS) == (locks and z == x), 'and so are their locks')
    A.do(A.cache.transaction.finish)
    B.do(B.cache.set, 'm', 1, tags_dep(x, y))
    A.do(A.cache.invalidate_dependency, tags_dep(y))
    ctx.check(B.do(read, B.cache, 'get', 'm') == MISS, 'each of them counts')
    ctx.cover('different')


def portable(ctx):
    """Whatever the tag, the keys made of it suit any backend: short, without spaces and control characters."""
    w = ctx.make_world(frozen=True)
    env = Env(w, level=REPEATABLE_READ)
    c = env.cache
    tag = ctx.choose_of('tag', ['', ' ', 'a b', 'a\nb', '\x00', '\x7f', 'x' * 1000, '\u0444\u044b\u0432\u0430' * 100, '\U0001f600', '{0}', '%s', 'a:b'])
    c.transaction.begin()
    c.invalidate_dependency(tags_dep(tag))
    c.transaction.finish()
    c.set('k', 1, tags_dep(tag))
    keys = set(k for o in w.ops for k in o[1])
    ctx.check(len(keys) == 4, 'version, acquired and released state, and the entry')
    for k in keys:
        ctx.check(len(k) <= 250 and all(33 <= ord(ch) < 127 for ch in k), 'portable keys', lambda: repr(k))
    ctx.cover('portable')


def namespaces(ctx):
    """The version of a tag and its states, and those of other tags, are kept under different keys."""
    w = ctx.make_world()
    level = REPEATABLE_READ
    A, B = Party(w, 'A', level=level), Party(w, 'B', level=level)
    tag = ctx.str('tag', 2)
    kind = ctx.choose('kind', 3)
    if kind == 0:
        other = ctx.str('other', 2)
    elif kind == 1:
        other = 'acquired_' + tag
    else:
        other = 'released_' + tag
    B.do(B.cache.set, 'k', 1, tags_dep(tag))
    B.do(B.cache.set, 'o', 1, tags_dep(other))
    if ctx.flag('swap'):
        tag, other, kept, kind = other, tag, 'o', -kind
    else:
        kept = 'k'
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep(other))
    if ctx.flag('finish'):
        A.do(A.cache.transaction.finish)
    same = ctx.eq(tag, other) if kind == 0 else False
    ctx.check(ctx.eq(B.do(read, B.cache, 'get', kept) == MISS, same), 'states of one tag do not touch another')
    keys = {}
    for e in A.env.backend.entries:
        keys[e] = 1
    for x in A.env.backend.entries:
        for y in A.env.backend.entries:
            if x is not y:
                ctx.check(ctx.lnot(ctx.eq(x.key, y.key)), 'no two pieces of data share a key')
    ctx.cover('apart')


def ids(ctx):
    """Session ids differ whenever host, process or thread do, whatever the host name looks like; within a session they do not."""
    from cache_dependencies.transaction import TransactionManager
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    h1, h2 = [ctx.str('h', ctx.choose('len', ctx.p('length')) + 1) for _ in range(2)]
    exact = ctx.flag('exact')       # digit by digit for short numbers; longer ones as a whole
    w.exact_decimals(exact)
    p1, p2 = [ctx.int('pid', 1, 120 if exact else 4194304) for _ in range(2)]
    i1, i2 = [ctx.int('ident', 1, 120 if exact else (1 << 63) - 1) for _ in range(2)]

    def sid():
        return TransactionManager(None).current().get_session_id()
    with Host(h1, p1, i1):
        a = A.call(sid)
    with Host(h2, p2, i2):
        b = B.call(sid)
    # texts of different lengths are different texts
    same = ctx.land(ctx.eq(h1, h2) if len(h1) == len(h2) else False, p1 == p2, i1 == i2)
    ctx.check(ctx.implies(a == b, same), 'the id stands for host, process and thread', lambda: repr((a, b)))
    with Host(h2, p2, i2):
        ctx.check(ctx.eq(B.call(sid), b), 'and does not change')
    ctx.cover('same' if ctx.possible(ctx.eq(a, b)) else 'different')
    if ctx.possible(ctx.lnot(same)):
        ctx.cover('different')


def processes(ctx):
    """Forked processes start as copies of the same thread: each is a session of its own, for good."""
    from cache_dependencies.transaction import TransactionManager
    w = ctx.make_world(frozen=True)
    s = w.session('main')
    sid = lambda: TransactionManager(None).current().get_session_id()
    seen = {}
    for i in range(4):
        pid = [100, 200, 100 + 65536, 100 + (1 << 20)][ctx.choose('pid', 4)]
        with Host(pid=pid):
            x = s.call(sid)
            ctx.check(s.call(sid) == x, 'the id of a session does not change')
        for p, y in seen.items():
            ctx.check((x == y) == (p == pid), 'processes have ids of their own', lambda: repr((x, y)))
            ctx.cover('same' if p == pid else 'different')
        seen[pid] = x


def locks(ctx):
    """Sibling processes respect the tag locks of each other; a process does not respect its own."""
    w = ctx.make_world()
    level = [REPEATABLE_READ, SERIALIZABLE][ctx.choose('level', 2)]
    when = ctx.choose('when', 3)
    s = w.session('main')
    a, b = s.call(Env, w, level=level), s.call(Env, w, level=level)
    if ctx.flag('used before'):
        with Host(pid=1):
            s.call(a.cache.set, 'before', 1, tags_dep('x'))
    same = ctx.flag('same')

    def child(f, *args):
        with Host(pid=3 if same else 2):
            return s.call(f, *args)

    def parent(f, *args):
        with Host(pid=3):
            return s.call(f, *args)
    child(b.transaction.begin)
    parent(a.transaction.begin)
    parent(a.cache.invalidate_dependency, tags_dep('t'))
    if when == 1:
        parent(a.transaction.finish)
    elif when == 2:
        parent(a.cache.close)
    child(b.cache.set, 'k', 1, tags_dep('t'))
    served = child(read, b.cache, 'get', 'k') != MISS
    ctx.check(served == same, 'a lock holds against all sessions but its own', lambda: repr((served, same)))
    ctx.cover('free' if served else 'locked')


def versions(ctx):
    """Cache versions are worlds apart: entries, tag versions, locks; version None is the default version."""
    w = ctx.make_world()
    A, B = Party(w, 'A', level=REPEATABLE_READ), Party(w, 'B', level=REPEATABLE_READ)
    vs = [None, 1, 0, 2]
    va, vb = vs[ctx.choose('va', 3)], vs[ctx.choose('vb', 3)]
    n = lambda v: 1 if v is None else v
    same = n(va) == n(vb)
    B.do(B.cache.set, 'k', 'old', tags_dep('t'), None, vb)
    B.do(B.cache.transaction.begin)
    A.do(A.cache.transaction.begin)
    A.do(A.cache.invalidate_dependency, tags_dep('t'), va)
    ctx.check((B.do(read, B.cache, 'get', 'k', vb) == MISS) == same, 'invalidation concerns its cache version')
    if ctx.flag('finish'):
        A.do(A.cache.transaction.finish)
    B.do(B.cache.set, 'k', 'new', tags_dep('t'), None, vb)
    r = B.do(read, B.cache, 'get', 'k', vb)
    ctx.check(r == (MISS if same else 'new'), 'locks concern their cache version', lambda: repr(r))
    ctx.cover('together' if same else 'apart')


BOUNDS = ('tag names of up to 2 (thorough 3) arbitrary characters, host names of up to 3 (thorough 4) characters, any process and thread '
          'ids; up to 4 processes')
ASSUMPTIONS = ('digests are injective', 'host names differ between hosts', 'keys given by the user do not imitate the library\'s own')
