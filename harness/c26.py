"""A backend which fails, or a session which dies, at any operation of any call: nothing stale, nothing lost, nothing pending."""
from harness.common import Party, MISS, HOWS, read, shards, overlap, LEVELS
from harness.flat import names, dep
PROPERTY = 'C26'
RU, RC, RR, SER = LEVELS


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        dj = p.pop('django', False)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=dj))
    for level, depth in ((RC, 0), (SER, 1), (RC, 2)):
        job([5], 'calls', ['failed', 'missed', 'hit'], level=level, depth=depth)
    job([2, 4], 'tracking', ['dead', 'alive'])
    for level in (RC, RR, SER):
        job([2], 'ending', ['settled'], level=level, invs=2 if thorough else 1)
    job([2], 'ending', ['settled'], level=RC, invs=1, delay=3)
    job([2], 'death', ['dead', 'alive'], level=RC)
    job([2], 'death', ['dead', 'alive'], level=RR)
    job([], 'requests', ['closed'], django=True)
    if thorough:
        for level in LEVELS:
            for depth in (0, 1, 2):
                job([5], 'calls', ['failed', 'missed', 'hit'], level=level, depth=depth, hows=3, wide=True)
        for level in (RC, RR):
            job([5, 2], 'calls', ['failed', 'missed', 'hit'], level=level, depth=1, more=1)
        job([2], 'ending', ['settled'], level=RC, invs=2, delay=3)
    return out


class Down(Exception):
    """The failure of the backend."""


def faulty(ctx, world):
    from sx.backend import Backend

    class Faulty(Backend):
        armed = down = False
        failed = 0

        def arm(self, outage=False):
            self.armed, self.outage, self.failed = True, outage, 0

        def _run(self, name, keys, f, part):
            if self.down:
                self.failed += 1
                raise Down()
            if self.armed:
                k = ctx.choose('fault', 4 if part is not None and len(keys) > 1 else 3)
                if k:
                    self.armed, self.failed, self.down = False, self.failed + 1, self.outage
                    if k == 2:                  # done, but the answer is lost
                        f()
                    elif k == 3:                # done in part
                        part(list(keys)[:1])
                    raise Down()
            return f()

        def get(self, key, default=None, version=None):
            return self._run('get', [key], lambda: super(Faulty, self).get(key, default, version), None)

        def set(self, key, value, *a, **k):
            return self._run('set', [key], lambda: super(Faulty, self).set(key, value, *a, **k), None)

        def delete(self, key, version=None):
            return self._run('delete', [key], lambda: super(Faulty, self).delete(key, version), None)

        def get_many(self, keys, version=None):
            keys = list(keys)
            return self._run('get_many', keys, lambda: super(Faulty, self).get_many(keys, version), None)

        def set_many(self, data, *a, **k):
            return self._run('set_many', data, lambda: super(Faulty, self).set_many(data, *a, **k),
                             lambda ks: super(Faulty, self).set_many({x: data[x] for x in ks}, *a, **k))

        def delete_many(self, keys, *a, **k):
            keys = list(keys)
            return self._run('delete_many', keys, lambda: super(Faulty, self).delete_many(keys, *a, **k),
                             lambda ks: super(Faulty, self).delete_many(ks, *a, **k))
    return Faulty(world)


def attempt(ctx, party, f, *a, **k):
    """-> (result, failed); a failure of the backend comes out as it is, and nothing else does."""
    b = party.env.backend
    try:
        r = party.do(f, *a, **k)
    except Down:
        ctx.check(b.failed, 'no failure out of nothing')
        ctx.cover('failed')
        return None, True
    finally:
        b.armed = False
    ctx.check(not b.failed, 'a failure of the backend comes out')
    return r, False


class Model(object):
    """What may be served, and what must be."""

    def __init__(self, ctx):
        self.ctx, self.entries, self.n = ctx, {}, 0

    def value(self):
        self.n += 1
        return 'v%d' % self.n

    def put(self, key, v, tags, certain=True, replaced=True):
        e = dict(value=v, tags=tags, may=True, must=True)
        old = self.entries.get(key, ([], False))
        self.entries[key] = ([e], True) if certain and replaced else (old[0] + [e], certain or old[1])

    def kill(self, tags, certain=True):
        for es, _ in self.entries.values():
            for e in es:
                alive = self.ctx.lnot(overlap(self.ctx, tags, e['tags']))
                e['must'] = self.ctx.land(e['must'], alive)
                if certain:
                    e['may'] = self.ctx.land(e['may'], alive)

    def verify(self, key, r, what):
        es, certain = self.entries.get(key, ([], False))
        if r == MISS:
            if certain:
                self.ctx.check(self.ctx.lnot(self.ctx.land(*[e['must'] for e in es])), what + ': lost although nothing could have invalidated it')
            self.ctx.cover('missed')
        else:
            match = [e for e in es if e['value'] == r]
            self.ctx.check(bool(match), what + ': nobody stored that')
            self.ctx.check(match[0]['may'], what + ': served although invalidated', lambda: repr((key, es)))
            self.ctx.cover('hit')


def calls(ctx):
    """One failing call of any kind, in a transaction or not, among calls of another session."""
    level, depth = ctx.p('level'), ctx.p('depth')
    kinds = ['set0', 'inv', 'compute', 'get', 'many']
    w = ctx.make_world(frozen=True)
    A = Party(w, 'A', level=level, backend=faulty(ctx, w))
    B = Party(w, 'B', level=level)
    O = Party(w, 'O', level=level)
    m = Model(ctx)
    pend = []
    locks = level in (RR, SER) and depth

    def put(party, key, n=1):
        tags, v = names(ctx, n), m.value()
        r, failed = attempt(ctx, party, party.cache.set, key, v, dep(ctx, 0, tags)) if party is A else (party.do(party.cache.set, key, v, dep(ctx, 0, tags)), False)
        m.put(key, v, tags, not failed and not (locks and party is B), True)

    def fail(k):
        outage = ctx.flag('outage')
        A.env.backend.arm(outage)
        if k == 'set0':
            put(A, 'k0', 2 if ctx.p('wide') else 1)
        elif k == 'inv':
            tags = names(ctx, 2 if level != RU and ctx.p('wide') else 1)
            r, failed = attempt(ctx, A, A.cache.invalidate_dependency, dep(ctx, 0, tags))
            m.kill(tags, not failed)
            if depth:
                pend.append(tags)
        elif k == 'compute':
            tags, v = names(ctx, 1), m.value()
            key = 'k1'
            before = m.entries.get(key)
            r, failed = attempt(ctx, A, A.cache.get_or_set_callback, key, lambda: v, dep(ctx, 0, tags))
            if failed:
                m.put(key, v, tags, False)
            elif r == v:
                m.put(key, v, tags)
            else:
                m.verify(key, r, 'compute')
        elif k == 'get':
            r, failed = attempt(ctx, A, A.cache.get, 'k0', MISS)
            if not failed:
                m.verify('k0', r, 'get')
        else:
            r, failed = attempt(ctx, A, A.cache.get_many, ['k0', 'k1'])
            if not failed:
                m.verify('k0', r.get('k0', MISS), 'get_many')
        A.env.backend.down = False
        if k in ('get', 'many') and not failed:
            A.do(A.env.relations.clear)         # a creation may be pending as it should
        else:
            ctx.check(not A.do(A.env.relations.current), 'nothing stays pending')

    put(B, 'k0', 2)
    for i in range(depth):
        A.do(A.cache.transaction.begin)
    for i in range(1 + ctx.p('more', 0)):
        k = ctx.choose_of('call', kinds)
        fail(k)
    if ctx.flag('another'):
        if ctx.flag('invalidates'):
            tags = names(ctx, 1)
            B.do(B.cache.invalidate_dependency, dep(ctx, 0, tags))
            m.kill(tags)
        else:
            put(B, 'k0')
    for i in range(depth):
        A.do(A.cache.transaction.finish)
    ctx.check(not A.do(A.cache.transaction.current), 'the transaction is over')
    if depth:
        for tags in pend:
            m.kill(tags, level != RU)
    for key in ('k0', 'k1'):
        r = O.do(read, O.cache, HOWS[ctx.choose('how', ctx.p('hows', 1))] if key == 'k0' else 'get', key)
        m.verify(key, r, 'at the end')
    # the session works as before
    tags, v = names(ctx, 1), m.value()
    A.do(A.cache.set, 'k2', v, dep(ctx, 0, tags))
    ctx.check(O.do(read, O.cache, 'get', 'k2') == v, 'the session goes on')


def tracking(ctx):
    """A failing call inside of a creation: the creation depends on what it is made of, and on nothing else."""
    w = ctx.make_world(frozen=True)
    A = Party(w, 'A', backend=faulty(ctx, w))
    c = A.cache
    d = lambda *t: dep(ctx, 0, list(t))
    A.do(c.get, 'outer')
    ready = ctx.flag('ready')
    if ready:
        B = Party(w, 'B')
        B.do(B.cache.set, 'inner', 'ready', d('r'))
    kind = ctx.choose_of('kind', ['get', 'many', 'compute', 'set'])
    A.env.backend.arm(ctx.flag('outage'))
    if kind == 'get':
        r, failed = attempt(ctx, A, c.get, 'inner')
    elif kind == 'many':
        r, failed = attempt(ctx, A, c.get_many, ['inner', 'inner2'])
    elif kind == 'compute':
        r, failed = attempt(ctx, A, c.get_or_set_callback, 'inner', lambda: 'made', d('m'))
    else:
        r, failed = attempt(ctx, A, c.set, 'inner', 'made', d('m'))
    A.env.backend.down = False
    if not failed:
        ctx.done()
    A.do(c.set, 'other', 1, d('t'))
    A.do(c.set, 'outer', 2, d('o'))
    second = ctx.flag('second')
    if second:                          # is made of what could not be made then
        A.do(c.get, 'second')
        A.do(c.set, 'inner2', 4, d('j'))
    A.do(c.set, 'inner', 3, d('i'))
    if second:
        A.do(c.set, 'second', 5, d('s'))
    tag = ctx.str('tag', 1)
    A.do(c.invalidate_dependency, d(tag))
    r = A.do(c.get_many, ['other', 'outer', 'inner', 'second'], abort=True)
    if second:
        ctx.check(ctx.eq('second' not in r, overlap(ctx, [tag], ['i', 'j', 's'])), 'the next one depends on what it is made of, and on nothing else')
    ctx.check(ctx.eq('inner' not in r, ctx.eq(tag, 'i')), 'what was not created then does not inherit')
    ctx.check(ctx.eq('other' not in r, ctx.eq(tag, 't')), 'nor does another')
    may = ['o', 't'] + (['m', 'r'] if kind in ('compute', 'set') else [])
    ctx.check(ctx.implies('outer' not in r, overlap(ctx, [tag], may)), 'the outer one depends on what it is made of')
    ctx.check(ctx.implies(overlap(ctx, [tag], ['o', 't']), 'outer' not in r), 'on all of it')
    ctx.cover('alive' if 'outer' in r else 'dead')


def ending(ctx):
    """The end of a transaction fails at any operation; ended again, in any way, it settles everything."""
    level, delay = ctx.p('level'), ctx.p('delay', 0)
    w = ctx.make_world()
    A = Party(w, 'A', level=level, backend=faulty(ctx, w), delay=delay)
    B = Party(w, 'B', level=level, delay=delay)
    depth = 1 + ctx.choose('depth', 2)
    for i in range(depth):
        A.do(A.cache.transaction.begin)
    tags = []
    for i in range(ctx.p('invs')):
        t = names(ctx, 1)
        v = [None, 7][ctx.choose('version', 2)]
        tags.append((t, v))
        A.do(A.cache.invalidate_dependency, dep(ctx, 0, t), v)
    entries = []
    for v in (None, 7):
        t = names(ctx, 1)
        B.do(B.cache.set, 'k', 1, dep(ctx, 0, t), version=v)
        entries.append((t, v))
    A.env.backend.arm(ctx.flag('outage'))
    if ctx.flag('all'):
        r, failed = attempt(ctx, A, A.cache.transaction.flush)
    else:
        for i in range(depth):
            r, failed = attempt(ctx, A, A.cache.transaction.finish)
            A.env.backend.armed = True
        A.env.backend.armed = False
    A.env.backend.down = False
    if failed:
        ctx.check(bool(A.do(A.cache.transaction.current)), 'a transaction whose end failed stays open')
        again = ctx.choose_of('again', ['finish', 'flush', 'close'])
        A.do(A.cache.close if again == 'close' else getattr(A.cache.transaction, again))
    ctx.check(not A.do(A.cache.transaction.current), 'over')
    for t, v in entries:
        r = B.do(B.cache.get, 'k', MISS, v, True)
        for t2, v2 in tags:
            if v == v2:
                ctx.check(ctx.implies(overlap(ctx, t, t2), r == MISS), 'settled')
        if level == RC:
            ctx.check(ctx.implies(ctx.land(*[ctx.lnot(overlap(ctx, t, t2)) for t2, v2 in tags if v == v2]), r == 1), 'and nothing else is')
    timers = w.pending_timers()
    if delay and level == RC and not failed:
        ctx.check(len(timers) == len(set(v for _, v in tags)), 'repeated after the delay')
    ctx.cover('settled')


def death(ctx):
    """A session dies in the midst of a call: what it has left is invalidated by others as any entry is."""
    level = ctx.p('level')
    w = ctx.make_world(frozen=True)
    A = Party(w, 'A', level=level, backend=faulty(ctx, w))
    B = Party(w, 'B', level=level)
    m = Model(ctx)
    tx = ctx.flag('transaction')
    if ctx.flag('before'):
        tags, v = names(ctx, 1), m.value()
        B.do(B.cache.set, 'k', v, dep(ctx, 0, tags))
        m.put('k', v, tags)
    if tx:
        A.do(A.cache.transaction.begin)
    A.env.backend.arm(True)
    kind = ctx.choose_of('kind', ['set', 'invalidate', 'nested', 'end'])
    if kind == 'set':
        tags, v = names(ctx, 2), m.value()
        r, failed = attempt(ctx, A, A.cache.set, 'k', v, dep(ctx, 0, tags))
        m.put('k', v, tags, not failed)
    elif kind == 'nested':
        tags, inner, v = names(ctx, 1), names(ctx, 1), m.value()

        def outer():
            A.cache.set('inner', 'i', dep(ctx, 0, inner))
            return v
        r, failed = attempt(ctx, A, A.cache.get_or_set_callback, 'k', outer, dep(ctx, 0, tags))
        m.put('k', v, tags + inner, not failed, False)
    else:
        tags = names(ctx, 2)
        if kind == 'end':
            A.env.backend.armed = False
            A.do(A.cache.invalidate_dependency, dep(ctx, 0, tags))
            A.env.backend.arm(True)
            r, failed = attempt(ctx, A, A.cache.transaction.flush)
            m.kill(tags)
        else:
            r, failed = attempt(ctx, A, A.cache.invalidate_dependency, dep(ctx, 0, tags))
            m.kill(tags, not failed)
    tags = names(ctx, 1)
    if ctx.flag('in a transaction'):
        B.do(B.cache.transaction.begin)
        B.do(B.cache.invalidate_dependency, dep(ctx, 0, tags))
        B.do(B.cache.transaction.finish)
    else:
        B.do(B.cache.invalidate_dependency, dep(ctx, 0, tags))
    m.kill(tags)
    r = B.do(B.cache.get, 'k', MISS, None, True)
    m.verify('k', r, 'after the death')
    ctx.cover('dead' if r == MISS else 'alive')


def requests(ctx):
    """The end of a request while the backends of some caches fail: the others are closed, and later all are."""
    from django_cache_dependencies import caches
    from django.core import signals
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    aliases = ['default', 'other', 'third']
    order = [['default', 'other', 'third'], ['third', 'other', 'default'], ['other', 'third', 'default']][ctx.choose('order', 3)]
    broken = {a: ctx.flag('broken') for a in aliases}
    down = [True]

    def faults(op):
        if down[0]:
            raise Down()
    for a in order:
        A.call(lambda: caches[a].transaction.begin())
        A.call(lambda: caches[a].invalidate_tags('T'))
        B.call(lambda: caches[a].set('k', 1, ['T']))
        A.call(lambda: caches[a].get('pending'))
    for a in order:
        if broken[a]:
            A.call(lambda: setattr(caches[a].cache.cache.real, 'faults', faults))
    try:
        A.call(lambda: signals.request_finished.send(sender=None))
        ctx.check(not any(broken.values()), 'a failure comes out')
    except Down:
        ctx.check(any(broken.values()), 'no failure out of nothing')
    for a in aliases:
        ctx.check(bool(A.call(lambda: caches[a].transaction.current())) == broken[a], 'those which work are closed')
        ctx.check(not A.call(lambda: caches[a].relation_manager.current()), 'nothing stays pending')
        if not broken[a]:
            ctx.check(B.call(lambda: caches[a].get('k', MISS, abort=True)) == MISS, 'settled')
    down[0] = False
    if ctx.flag('another request'):
        for a in aliases:
            A.call(lambda: caches[a].transaction.begin())
    A.call(lambda: signals.request_finished.send(sender=None))
    for a in aliases:
        ctx.check(not A.call(lambda: caches[a].transaction.current()), 'then all are closed')
        ctx.check(B.call(lambda: caches[a].get('k', MISS, abort=True)) == MISS, 'and settled')
    ctx.cover('closed')


BOUNDS = ('one call of 5 kinds failing at any of its operations, before or after or halfway through its effect, once or from then on, in 0-2 nested scopes '
          'of a transaction, before any call of another session (thorough: 2 such calls); the end of a transaction failing at any operation, ended again '
          'in 3 ways; a session dying at any operation of 4 kinds of calls; 3 caches, each failing or not, at the end of a request')
ASSUMPTIONS = ('single operations of the backend are atomic, bulk operations may be done in part', 'a failing backend raises an exception',
               'what a session had read before it died is not our concern')
