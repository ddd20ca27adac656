"""Transactions: sequential programs against a reference, and interleaved ones."""
from .common import Env, Party, tags_dep, dummy, MISS, read, READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE
from .flat import Model, names, dep


class Boom(Exception):
    pass


def Own():
    """A dependency of the user's own, which extends nothing."""
    from cache_dependencies.dependencies import DummyDependency

    class OwnDependency(DummyDependency):
        def extend(self, other):
            return False
    return OwnDependency()


def txprogram(ctx):
    """One session's transactions with savepoints, failures and invalidations; another session saves in between."""
    p = ctx.p
    level = p('level', READ_COMMITTED)
    w = ctx.make_world(frozen=level == READ_COMMITTED)
    locking = level in (REPEATABLE_READ, SERIALIZABLE)
    roots = p('roots') or ['cache_dependencies'] * 2
    A, B = (Party(w, n, level=level, delay=p('delay', 0), root=r) for n, r in zip('AB', roots))

    def tags_dep(*tags):
        root = roots[0] if roots[0] == roots[1] else ctx.choose_of('name', roots)
        return dep(ctx, 0, tags, root)
    m = Model(ctx, refusals=locking)
    sound, precise = p('sound', True), p('precise', True) and not locking
    c = A.cache
    pend, depth = [], [0]
    n = [0]

    def end():
        depth[0] -= 1
        if depth[0] == 0:
            for t, v in pend:
                m.kill(t, v)
            del pend[:]

    def inv(tags=None, version=None):
        tags = tags or names(ctx, p('wide', 1))
        kw = {} if version is None else dict(version=version)
        A.do(lambda: c.invalidate_dependency(tags_dep(*tags), **kw))
        m.kill(tags, version)
        if depth[0]:
            pend.append((tags, version))

    def save(party, key, version=None):
        tags = names(ctx, 1)
        v = m.put(key, version, tags)
        kw = {} if version is None else dict(version=version)
        party.do(lambda: party.cache.set(key, v, tags_dep(*tags), **kw))

    def block(kind, fail):
        """An invalidation inside a with block or a decorated function, which may fail."""
        t1 = names(ctx, 1)
        t2 = names(ctx, 1) if p('apart') else t1
        v = []

        def body():
            # everything happens in A's thread, except the other session's save
            c.invalidate_dependency(tags_dep(*t1))
            m.kill(t1, None)
            pend.append((t1, None))
            if p('self'):
                v.append(m.put('k1', None, t2))
                c.set('k1', v[0], tags_dep(*t2))
            else:
                v.append(m.put('k1', None, t2))
                B.do(B.cache.set, 'k1', v[0], tags_dep(*t2))
            if fail:
                raise fail()
            return 'result'

        def run():
            if kind == 'with':
                with c.transaction:
                    body()
            elif kind == 'deco':
                return c.transaction(body)()
            else:
                return c.transaction()(body)()
        depth[0] += 1
        try:
            r = A.do(run)
            ctx.check(not fail, 'a failure is not swallowed')
            ctx.check(kind == 'with' or r == 'result', 'the result is passed through')
        except (Boom, GeneratorExit, KeyboardInterrupt, StopIteration) as e:
            ctx.check(fail and type(e) is fail, 'no failure of its own')
        end()

    def failure():
        return ctx.choose_of('failure', [Boom, GeneratorExit, KeyboardInterrupt, StopIteration]) if p('failures') else Boom

    save(B, 'k0')
    prefix = p('prefix') or []
    for i in range(len(prefix) + p('steps', 3)):
        op = prefix[i] if i < len(prefix) else ctx.choose_of('op', p('ops') or ['begin', 'finish', 'flush', 'inv', 'save', 'with', 'fail'])
        if op == 'begin':
            if depth[0] >= p('depth', 3):
                ctx.done()
            A.do(c.transaction.begin)
            depth[0] += 1
        elif op == 'finish':
            if not depth[0]:
                ctx.done()
            A.do(c.transaction.finish)
            end()
        elif op == 'flush':
            A.do(c.transaction.flush)
            while depth[0]:
                end()
        elif op == 'close':
            A.do(c.close)
            while depth[0]:
                end()
        elif op == 'inv':
            inv()
        elif op == 'inv2':          # in another cache version
            inv(version=2)
        elif op == 'save2':
            save(B, 'k1', 2)
        elif op == 'nothing':       # an invalidation of nothing, or of something of the user's own
            A.do(c.invalidate_dependency, dummy())
        elif op == 'own':
            A.do(c.invalidate_dependency, Own())
        elif op == 'save':
            save(B, 'k1')
        elif op == 'save0':
            save(A, 'k0')
        elif op == 'saveA':
            save(A, 'k1')
        elif op in ('with', 'deco', 'deco()'):
            block(op, None)
        elif op == 'fail':
            block('with', failure())
        elif op == 'deco-fail':
            block('deco', failure())
        if p('every'):
            for k in ('k0', 'k1'):
                m.verify(k, None, B.do(read, B.cache, 'get', k), 'after ' + op, sound, precise)
    if ctx.p('end', True):
        A.do(c.transaction.flush)
        while depth[0]:
            end()
    for k in ('k0', 'k1'):
        r = B.do(read, B.cache, 'get', k)
        ctx.observe(k, r)
        m.verify(k, None, r, 'at the end', sound, precise)
    r = B.do(lambda: B.cache.get('k1', MISS, 2, abort=True)) if ('k1', 2) in m.entries else MISS
    m.verify('k1', 2, r, 'at the end', sound, precise)
    ctx.check(not A.do(c.transaction.current).__bool__() == (depth[0] == 0), 'a transaction is current exactly inside one')


def concurrent(ctx):
    """A transaction invalidates a tag while other sessions save entries under it, every interleaving: an entry whose
    save ended before an invalidation, or the end of the transaction, began is never served after that."""
    p = ctx.p
    level = p('level', READ_COMMITTED)
    w = ctx.make_world()
    nsavers = p('savers', 1)
    W = Party(w, 'W', level=level)
    S = [Party(w, 'S%d' % i, level=level) for i in range(nsavers)]
    exists = ctx.flag('tag exists')
    if exists:
        W.do(W.cache.set, 'old', 'old', tags_dep('T', 'U'))
    shape = p('shape', 'tx')

    def writer():
        c = W.cache
        if shape != 'plain':
            c.transaction.begin()
        if shape == 'savepoint':
            c.transaction.begin()
        w.mark('w', 'order', 'inv')
        c.invalidate_dependency(tags_dep('T'))
        w.marks.append('inv done')
        if shape == 'savepoint':
            c.transaction.finish()
        if shape != 'plain':
            w.mark('w', 'order', 'finish')
            c.transaction.finish()

    def saver(i):
        c = S[i].cache
        key = 'K%d' % i
        if p('tx readers'):
            c.transaction.begin()
        c.set(key, 'v%d' % i, tags_dep('T', 'U') if i % 2 == 0 else tags_dep('T'))
        w.mark('r', 'order', i)
        if p('tx readers'):
            c.transaction.finish()
    w.interleave([(S[i].session, lambda i=i: saver(i)) for i in range(nsavers)] + [(W.session, writer)])
    last = max(n for n, x in enumerate(w.marks) if x in ('inv', 'finish'))
    for i in range(nsavers):
        r = S[0].do(read, S[0].cache, 'get', 'K%d' % i)
        ctx.observe('K%d' % i, r)
        ctx.check(r == MISS or r == 'v%d' % i, 'nothing made up')
        if w.marks.index(i) < last:
            ctx.check(r == MISS, 'saved before the transaction ended: never served afterwards', lambda: repr(w.marks))
            ctx.cover('dead')
        elif r != MISS:
            ctx.cover('alive')
    if exists:
        ctx.check(S[0].do(read, S[0].cache, 'get', 'old') == MISS, 'the old entry is dead')


def readers(ctx):
    """A reader next to the invalidation: once it has returned, the old entry is served to nobody."""
    p = ctx.p
    w = ctx.make_world()
    level = p('level', READ_COMMITTED)
    W, R, S = Party(w, 'W', level=level), Party(w, 'R', level=level), Party(w, 'S', level=level)
    W.do(W.cache.set, 'K', 'old', tags_dep('T'))
    got = []

    def writer():
        c = W.cache
        c.transaction.begin()
        c.invalidate_dependency(tags_dep('T'))
        w.mark('w', 'order', 'done')
        c.transaction.finish()

    def reader():
        w.mark('r', 'order', 'reads')
        got.append(read(R.cache, p('how', 'get'), 'K'))

    def saver():
        S.cache.set('L', 'other', tags_dep('T'))
    w.interleave([(R.session, reader), (W.session, writer)] + ([(S.session, saver)] if p('saver') else []))
    r = got[0]
    ctx.observe('r', r)
    if w.marks.index('reads') > w.marks.index('done'):
        ctx.check(r == MISS, 'invalidated before the read began', lambda: repr((w.marks, r)))
        ctx.cover('dead')
    else:
        ctx.check(r == MISS or r == 'old', 'the old value or nothing')
        if r == 'old':
            ctx.cover('alive')
