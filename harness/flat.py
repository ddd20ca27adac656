"""Histories of plain operations by two sessions, against a reference model of what must still be served.

Every operation's tags are fresh symbolic names, so the solver ranges over every pattern of coincidences.
"""
from .common import Env, Party, of, tags_dep, MISS, HOWS, read, overlap


class Model(object):
    """Reference: an entry is a value with tags; an invalidation kills every present entry sharing a tag."""

    def __init__(self, ctx, refusals=False):
        self.ctx = ctx
        self.entries = {}           # (key, version) -> [[value, tags, alive-formula], ...], the last one current
        self.refusals = refusals    # storing may be refused (tag locks): then the previous entry stays
        self.n = 0

    def put(self, key, version, tags):
        self.n += 1
        e = ['v%d' % self.n, tags, True]
        old = self.entries.get((key, version), []) if self.refusals else []
        self.entries[key, version] = old + [e]
        return e[0]

    def kill(self, tags, version):
        for (k, v), es in self.entries.items():
            if v == version:
                for e in es:
                    e[2] = self.ctx.land(e[2], self.ctx.lnot(overlap(self.ctx, tags, e[1])))

    def verify(self, key, version, r, what, sound=True, precise=True):
        es = self.entries.get((key, version))
        if es is None:
            if sound:
                self.ctx.check(r == MISS, what + ': a value nobody stored was served')
            return
        if r == MISS:
            e = es[-1]
            if precise:
                self.ctx.check(self.ctx.lnot(e[2]), what + ': entry lost although none of its tags was invalidated',
                               lambda: repr(e))
            if e[2] is not True:
                self.ctx.cover('missed')
        else:
            match = [e for e in es if e[0] == r]
            if sound:
                self.ctx.check(bool(match), what + ': a value that is not the last one stored was served',
                               lambda: repr((r, es)))
                self.ctx.check(match[0][2], what + ': entry served although one of its tags was invalidated',
                               lambda: repr((r, es)))
            self.ctx.cover('hit')


def names(ctx, n):
    if ctx.p('lengths'):
        return [ctx.str('tag', ctx.choose('length', ctx.p('lengths')) + 1) for _ in range(n)]
    return [ctx.str('tag', 1) for _ in range(n)]


def dep(ctx, how, tags, root='cache_dependencies'):
    TagsDependency, CompositeDependency, DummyDependency = of(root, 'dependencies', 'TagsDependency', 'CompositeDependency', 'DummyDependency')
    if how == 0:
        return TagsDependency(*tags)
    if how == 1:
        return TagsDependency(list(tags))
    if how == 2:
        return CompositeDependency(DummyDependency(), *[TagsDependency(t) for t in tags])
    if how == 3:
        return CompositeDependency(CompositeDependency(*[TagsDependency(t) for t in tags[:1]]),
                                   *[TagsDependency(t) for t in tags[1:]])
    return TagsDependency([tuple, set, frozenset][how - 4](tags))


def history(ctx):
    """First an entry with two tags, then free operations by two sessions, with reads in between."""
    p = ctx.p
    w = ctx.make_world(frozen=not p('clock', False))
    kw = dict(level=p('level', 'READ COMMITTED'))
    roots = p('roots') or ['cache_dependencies'] * 2       # of the sessions A and B
    parties = [Party(w, n, root=r, **kw) for n, r in zip('AB', roots)][:p('parties', 2)]

    def depend(tags):
        # a session may name its dependencies either way
        root = 'cache_dependencies' if not p('roots') else ctx.choose_of('name', sorted(set(roots))) if p('free names') else roots[0]
        return dep(ctx, form, tags, root)
    m = Model(ctx, refusals=p('level', 'READ COMMITTED') in ('REPEATABLE READ', 'SERIALIZABLE'))
    sound, precise = p('sound', True), p('precise', True)
    kinds = p('kinds', ['set0', 'set1', 'inv1', 'inv2'])
    form = ctx.choose('form', 7) if p('forms') else 0
    how = p('how') or HOWS[ctx.choose('how', len(HOWS))]
    observer = Party(w, 'O', **kw)
    open_tx = {}

    def put(party, key, n):
        tags = names(ctx, n)
        value = m.put(key, None, tags)
        party.do(party.cache.set, key, value, depend(tags))

    def look(what):
        together = None
        if how in ('many', 'many+'):
            keys = ['k0', 'k1'] if how == 'many' else ['k1', 'no-such-key', 'k0']
            together = observer.do(observer.cache.get_many, keys, abort=True)
        for key in ('k0', 'k1'):
            r = together.get(key, MISS) if together is not None else observer.do(read, observer.cache, how, key)
            ctx.observe(key, r)
            m.verify(key, None, r, '%s after %s' % (how, what), sound, precise)

    for i in range(p('first_tx') or 0):
        parties[0].do(parties[0].cache.transaction.begin)
        open_tx.setdefault(parties[0], []).append([])
    put(parties[0], 'k0', p('ntags0', 2))
    for n in range(p('steps', 3)):
        party = ctx.choose_of('party', parties)
        k = ctx.choose_of('op', kinds)
        if k.startswith('set'):
            put(party, 'k' + k[3], p('ntags', 1))
        elif k.startswith('inv'):
            tags = names(ctx, int(k[3]))
            m.kill(tags, None)
            party.do(party.cache.invalidate_dependency, depend(tags))
            if open_tx.get(party):
                open_tx[party][-1].append(tags)
        elif k == 'evict':
            es = parties[0].env.backend.entries
            if es:
                parties[0].env.backend.evict_entry(es[ctx.choose('victim', len(es))])
        elif k == 'begin':
            if len(open_tx.get(party, ())) >= p('depth', 1):
                ctx.done()
            party.do(party.cache.transaction.begin)
            open_tx.setdefault(party, []).append([])
        elif k == 'finish':
            if not open_tx.get(party):
                ctx.done()
            party.do(party.cache.transaction.finish)
            ended = open_tx[party].pop()
            if open_tx[party]:      # an inner transaction: its invalidations are repeated at the end of the outer one
                open_tx[party][-1].extend(ended)
            else:
                for tags in ended:
                    m.kill(tags, None)
        if p('every', True):
            look(k)
    look('the end')


def beside(ctx):
    """While one session invalidates, others save and read, step by step in any order: the entries there were before are
    dead exactly if they carry an invalidated tag, and remain so."""
    w = ctx.make_world()
    W = Party(w, 'W')
    S = [Party(w, 'S%d' % i) for i in range(ctx.p('savers', 1))]
    m = Model(ctx)
    sound, precise = ctx.p('sound', True), ctx.p('precise', True)
    for key in ('k0', 'k1')[:ctx.p('before', 2)]:
        tags = names(ctx, 1)
        W.do(W.cache.set, key, m.put(key, None, tags), tags_dep(*tags))
    gone = names(ctx, ctx.p('gone', 1))
    saved = [names(ctx, 2) for s in S]
    reading = ctx.flag('reads too')

    def writer():
        w.mark('w', 'order', 'inv')
        W.cache.invalidate_dependency(tags_dep(*gone))

    def saver(i):
        c = S[i].cache
        c.set('new%d' % i, i, tags_dep(*saved[i]))
        w.mark('r', 'order', i)
        if reading:
            c.get_many(['k0', 'k1'], abort=True)
            c.get('k0', abort=True)
    w.interleave([(S[i].session, lambda i=i: saver(i)) for i in range(len(S))] + [(W.session, writer)])
    m.kill(gone, None)
    for again in range(2):
        for key in ('k0', 'k1')[:ctx.p('before', 2)]:
            m.verify(key, None, W.do(read, W.cache, 'get', key), 'after the invalidation', sound, precise)
        for i in range(len(S)):
            r = W.do(read, W.cache, 'get', 'new%d' % i)
            hit = overlap(ctx, saved[i], gone)
            if sound and w.marks.index(i) < w.marks.index('inv'):
                ctx.check(ctx.implies(hit, r == MISS), 'what was saved before the invalidation is dead')
            if precise:
                ctx.check(ctx.lor(hit, r == i), 'what carries no invalidated tag is served')
        if not again:       # all of the tags are in use again
            W.do(W.cache.set, 'later', 1, tags_dep(*(gone + [t for s in saved for t in s])))


def victim(ctx, n):
    """Any of n, or one of those around usual sizes of batches."""
    if ctx.p('few'):
        return ctx.choose_of('victim', [i for i in sorted(set([0, 49, 50, 63, 64, 99, 100, 101, 127, 128, n - 1])) if i < n])
    return ctx.choose('victim', n)


def wide(ctx):
    """Entries with many tags: invalidating any single one of them kills exactly the entries that carry it."""
    n = ctx.p('n', 70)
    w = ctx.make_world(frozen=True, plain=n > 50)
    e = Env(w)
    c = e.cache
    tags = ['tag-%d' % i for i in range(n)]
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency
    form = ctx.choose('form', 3)
    if form == 0:
        d = TagsDependency(tags)
    elif form == 1:
        d = TagsDependency(*tags)
    else:
        d = CompositeDependency(*[TagsDependency(t) for t in tags])
    c.set('all', 1, d)
    i = victim(ctx, n)
    c.set('one', 2, TagsDependency(tags[i]))
    c.set('other', 3, TagsDependency(tags[(i + 1) % n]))
    if ctx.flag('bulk'):
        seen = lambda: c.get_many(['all', 'one', 'other'], abort=True)
    else:
        seen = lambda: {k: v for k, v in ((k, c.get(k, abort=True)) for k in ('all', 'one', 'other')) if v is not None}
    ctx.check(seen() == {'all': 1, 'one': 2, 'other': 3}, 'served while valid')
    how = ctx.choose('how', 3)
    if how == 0:
        c.invalidate_dependency(TagsDependency(['unrelated-%d' % j for j in range(n)] + [tags[i]]))
    else:
        c.invalidate_dependency(TagsDependency(tags[i]))
    if how == 2:        # the tag is in use again
        c.set('new', 4, TagsDependency(tags[i]))
    r = seen()
    ctx.observe('r', sorted(r))
    if ctx.p('sound', True):
        ctx.check('all' not in r, 'an entry with many tags dies with any one of them')
        ctx.check('one' not in r, 'an entry with the tag dies')
    if ctx.p('precise', True):
        ctx.check(r.get('other') == 3, 'an entry without the tag survives')
    ctx.cover('wide')


def many_keys(ctx):
    """Bulk reads over many keys: exactly the valid ones come back."""
    n = ctx.p('n', 40)
    w = ctx.make_world(frozen=True, plain=n > 50)
    e = Env(w)
    c = e.cache
    from cache_dependencies.dependencies import TagsDependency
    for i in range(n):
        c.set('key-%d' % i, i, TagsDependency('t%d' % i, 'shared-%d' % (i % 3)))
    j = ctx.choose('shared', 6)     # one of the shared tags, none, all, all and the victim is saved anew
    i = victim(ctx, n)
    c.invalidate_dependency(TagsDependency('t%d' % i))
    if j < 3:
        c.invalidate_dependency(TagsDependency('shared-%d' % j))
    elif j > 3:
        c.invalidate_dependency(TagsDependency('shared-0', 'shared-1', 'shared-2'))
    if j == 5:
        c.set('key-%d' % i, i, TagsDependency('t%d' % i, 'shared-%d' % (i % 3)))
    r = c.get_many(['key-%d' % x for x in range(n)] + ['absent'], abort=True)
    ctx.observe('r', sorted(r))
    for x in range(n):
        dead = x != i if j == 5 else j == 4 or x == i or x % 3 == j
        if dead and ctx.p('sound', True):
            ctx.check('key-%d' % x not in r, 'invalidated entries are left out of a bulk read')
        if not dead and ctx.p('precise', True):
            ctx.check(r.get('key-%d' % x) == x, 'valid entries are all in a bulk read')
    ctx.cover('bulk')
