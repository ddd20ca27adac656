"""The settings of an alias decide where its entries are kept, which transactions it respects, and what is repeated."""
from harness.common import shards, MISS, LEVELS
PROPERTY = 'C23'
RU, RC, RR, SER = LEVELS


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    job([5, 5], 'options', ['configured'])
    job([3], 'stores', ['kept'])
    job([], 'wrong', ['refused'])
    job([], 'mixed', ['configured'])
    job([6], 'beside', ['locked', 'free'])
    job([2], 'proxy', ['same'])
    return out


def options(ctx):
    """Level, delay and backend of an alias, each given or not, against what other sessions experience."""
    from django.test.utils import override_settings
    from django_cache_dependencies import caches
    level = ctx.choose_of('level', [None] + list(LEVELS))
    delay_kind = ctx.choose('delay kind', 5)
    backend = ctx.choose_of('backend', [None, 'third'])
    delay = {0: None, 1: None, 2: 0, 3: ctx.int('delay', 1, 20), 4: 2.5}[delay_kind]
    o = {}
    if level is not None:
        o['ISOLATION_LEVEL'] = level
    if delay_kind:
        o['DELAY'] = delay
    if backend:
        o['BACKEND'] = backend
    effective, wait = level or RC, delay or 0
    w = ctx.make_world()
    A, B, O = w.session('A'), w.session('B'), w.session('O')
    c = lambda: caches['other']
    conf = {'other': o} if o or ctx.flag('empty') else {}
    if backend and ctx.flag('settings of the backend'):     # concern the alias of that name only
        conf[backend] = {'ISOLATION_LEVEL': RU if effective != RU else SER, 'DELAY': 5}
    if ctx.flag('settings of the default'):     # are not inherited
        conf['default'] = {'ISOLATION_LEVEL': RU if effective != RU else SER, 'DELAY': 7}
    with override_settings(CACHE_TAGGING=conf):
        w.now()
        O.call(lambda: c().set('before', 1, ['T']))
        ctx.check([str(e.key) for e in w.stores[backend or 'other'].all if str(e.key) == 'before'] == ['before'], 'kept in the configured backend')
        early = ctx.flag('early')       # A's transaction begins before B's ends
        A.call(lambda: c().transaction.begin())
        B.call(lambda: c().transaction.begin())
        B.call(lambda: c().invalidate_tags('T'))
        O.call(lambda: c().set('during', 2, ['T']))
        r = O.call(lambda: c().get('during', abort=True))
        ctx.check((r is None) == (effective in (RR, SER)), 'the level decides whether the save is refused')
        if not early:
            A.call(lambda: c().transaction.finish())
        started = B.call(lambda: c().transaction.current().get_start_time())
        ctx.assume(w.now() > started)
        B.call(lambda: c().transaction.finish())
        ended = w.now()
        r = O.call(lambda: c().get('during', abort=True))
        ctx.check((r is None) == (effective != RU), 'and what the end of the transaction takes out of service')
        if not early:
            A.call(lambda: c().transaction.begin())
        A.call(lambda: c().set('after', 3, ['T']))
        r = O.call(lambda: c().get('after', abort=True))
        if effective in (RU, RC):
            ctx.check(r == 3, 'no lock at this level')
        elif early:
            ctx.check(r is None, 'a snapshot from before is refused')
        elif delay_kind >= 3:
            if r is None:
                # begun at most the delay after the end
                ctx.check(A.call(lambda: c().transaction.current().get_start_time()) <= ended + wait, 'refused for the delay only')
            else:
                ctx.cover("saved")
        timers = w.pending_timers()
        ctx.check(len(timers) == (1 if effective in (RU, RC) and delay_kind >= 3 else 0), 'repeated once if there is a delay')
        for t in timers:
            ctx.check(ctx.eq(t.interval, delay), 'after the delay')
            w.fire(t)
            ctx.check(O.call(lambda: c().get('after', abort=True)) is None, 'and then it is out of service')
    ctx.cover('configured')


def stores(ctx):
    """Entries of an alias are kept in its own backend; aliases of one backend share entries, tags and locks."""
    from django_cache_dependencies import caches
    w = ctx.make_world()
    A, B = w.session('A'), w.session('B')
    names = ['third', 'alias', 'alias2', 'default', 'other']
    store = {'third': 'third', 'alias': 'third', 'alias2': 'third', 'default': 'default', 'other': 'other'}
    x, y = names[ctx.choose('x', 3)], names[ctx.choose('y', 5)]
    A.call(lambda: caches[x].set('k', 1, ['T']))
    same = store[x] == store[y]
    ctx.check((B.call(lambda: caches[y].get('k', abort=True)) == 1) == same, 'entries are shared exactly within a backend')
    ctx.check(('k' in [str(e.key) for e in w.stores[store[x]].all]), 'kept in its backend')
    B.call(lambda: caches[y].invalidate_tags('T'))
    ctx.check((A.call(lambda: caches[x].get('k', abort=True)) is None) == same, 'and so are tags')
    ctx.cover('kept')


def wrong(ctx):
    """An unknown level is refused when the cache is asked for, before anything is kept or lost by it."""
    from django_cache_dependencies import caches
    from django.test.utils import override_settings
    w = ctx.make_world(frozen=True)
    A = w.session('A')
    level = ctx.choose_of('level', ['SNAPSHOT', 'read committed', 'READ_COMMITTED', ''])
    with override_settings(CACHE_TAGGING={'other': {'ISOLATION_LEVEL': level}}):
        for i in range(2):
            try:
                A.call(lambda: caches['other'])
                ctx.check(False, 'refused')
            except ValueError:
                pass
    ctx.check(A.call(lambda: caches['other']) is not None, 'nothing of it remains')
    ctx.cover('refused')


def mixed(ctx):
    """Two aliases over one backend with different levels: each obeys its own when saving and invalidating."""
    from django_cache_dependencies import caches
    w = ctx.make_world()
    A, B = w.session('A'), w.session('B')
    x = ctx.choose_of('writer', ['alias', 'alias2'])
    y = ctx.choose_of('saver', ['alias', 'alias2'])
    w.now()
    B.call(lambda: caches[x].transaction.begin())
    B.call(lambda: caches[x].invalidate_tags('T'))
    A.call(lambda: caches[y].set('k', 1, ['T']))
    r = A.call(lambda: caches[y].get('k', abort=True))
    if x == 'alias2':
        ctx.check(r == 1, 'a transaction of a lower level locks nobody')
    elif y == 'alias':
        ctx.check(r is None, 'refused')
    B.call(lambda: caches[x].transaction.finish())
    ctx.check(A.call(lambda: caches[y].get('k', abort=True)) is None, 'settled')
    ctx.cover('configured')


def beside(ctx):
    """Aliases used side by side in one thread: each keeps its own level, delay, transactions and creations, in whatever order they were first used."""
    from django_cache_dependencies import caches
    w = ctx.make_world()
    A, B, O = w.session('A'), w.session('B'), w.session('O')
    level = {'third': RC, 'alias': RR, 'alias2': RC, 'ser': SER, 'ru': RU, 'delayed': RC}
    delay = {'ser': 7, 'delayed': 9}
    store = {'third': 'third', 'alias': 'third', 'alias2': 'third', 'ser': 'ser', 'ru': 'ru', 'delayed': 'delayed'}
    names = sorted(level)
    x = names[ctx.choose('x', 6)]
    y = names[ctx.choose('y', 6)]
    for s in (A, B):
        for n in ([y, x] if ctx.flag('first') else [x]):
            s.call(lambda: caches[n].get('nothing', abort=True))
    ctx.check(A.call(lambda: (caches[x] is caches[y]) == (x == y)), 'an instance each')
    w.now()
    B.call(lambda: caches[x].transaction.begin())
    started = B.call(lambda: caches[x].transaction.current().get_start_time())
    ctx.check(B.call(lambda: bool(caches[y].transaction.current()) == (x == y)), 'a transaction of its own')
    B.call(lambda: caches[x].invalidate_tags('T'))
    B.call(lambda: caches[y].get('page'))
    ctx.check(B.call(lambda: bool(caches[x].relation_manager.current()) == (x == y)), 'creations of its own')
    A.call(lambda: caches[x].set('k', 1, ['T']))
    r = A.call(lambda: caches[x].get('k', abort=True))
    ctx.check((r is None) == (level[x] in (RR, SER)), 'refused by its own level only')
    ctx.cover('locked' if r is None else 'free')
    B.call(lambda: caches[y].transaction.flush())
    ctx.check(B.call(lambda: bool(caches[x].transaction.current()) == (x != y)), 'ended on its own')
    ctx.assume(w.now() > started)
    B.call(lambda: caches[x].transaction.flush())
    r = A.call(lambda: caches[x].get('k', abort=True))
    ctx.check((r is None) == (level[x] != RU), 'settled by its own level')
    timers = w.pending_timers()
    ctx.check([t.interval for t in timers] == ([delay[x]] if x in delay and level[x] in (RU, RC) else []), 'repeated by its own delay')
    A.call(lambda: caches[x].set('k', 2, ['T']))
    for t in timers:
        w.fire(t)
        ctx.check(A.call(lambda: caches[x].get('k', abort=True)) is None, 'and in its own backend')


def proxy(ctx):
    """`cache` stands for the default cache of the current thread, in everything."""
    from django_cache_dependencies import cache, caches, get_cache
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    v = ctx.int('value', 0, 9)
    A.call(lambda: cache.set('k', v, ['T']))
    for s in (A, B):
        ctx.check(s.call(lambda: cache == caches['default']), 'equal to the default cache')
        ctx.check(not s.call(lambda: cache != caches['default']), 'and not different')
        ctx.check(not s.call(lambda: cache == caches['other']), 'nor another')
        ctx.check(s.call(lambda: caches['default'] is caches['default'] and get_cache('default') is caches['default'] and get_cache() is caches['default']),
                  'one instance per thread')
        ctx.check(ctx.eq(s.call(lambda: cache.get('k', abort=True)), v), 'the entry')
        ctx.check(s.call(lambda: 'k' in cache) and not s.call(lambda: 'x' in cache), 'membership')
    ctx.check(A.call(lambda: caches['default']) is not B.call(lambda: caches['default']), 'threads have their own')

    def switch():
        cache.ignore_descendants = True
    A.call(switch)
    ctx.check(A.call(lambda: caches['default'].ignore_descendants) is True, 'attributes are set in the cache')
    ctx.check(B.call(lambda: caches['default'].ignore_descendants) is False, 'of the own thread')
    A.call(lambda: cache.transaction.begin())
    ctx.check(A.call(lambda: bool(caches['default'].transaction.current())) and not B.call(lambda: bool(cache.transaction.current())), 'transactions')
    if ctx.flag('extra'):
        def add():
            cache.note = 5
            ok = caches['default'].note == 5
            del cache.note
            return ok and not hasattr(caches['default'].__dict__, 'note') and 'note' not in caches['default'].__dict__
        ctx.check(A.call(add), 'attributes can be added and removed')
    A.call(lambda: caches['default'].invalidate_tags('T'))
    ctx.check(B.call(lambda: cache.get('k', abort=True)) is None, 'invalidated for all')
    ctx.cover('same')


BOUNDS = ('each combination of level (or none), delay (none, 0, symbolic 1-20) and backend of an alias, with one transaction against two '
          'other sessions under every timing; 5 aliases over 3 backends; each pair of 6 aliases side by side in each thread; 4 unknown levels')
ASSUMPTIONS = ('a transaction takes some time', 'no transaction outlives the tag-state timeout', 'settings do not change while caches are in use')
