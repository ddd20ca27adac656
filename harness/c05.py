"""Dependency tracking is confined to the creation it belongs to: nothing leaks to siblings, later work or other threads."""
from harness.common import Env, Party, tags_dep, dummy, MISS, shards
from harness.nest import program, chain, wide, refused, Program, Boom
from harness.c04 import plan, BOTH
PROPERTY = 'C05'


def jobs(tier):
    thorough = tier == 'thorough'
    side = dict(sound=False)
    out = []

    def job(sizes, fn='program', covers=BOTH, **p):
        p.update(side)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    job([9], steps=3, depth=4, inside=False, legacy=True)
    job([5], steps=4, depth=4, inside=False, ops=['begin', 'set', 'hit', 'fail', 'abort'])
    job([], steps=2, depth=3, prefix=['begin', 'hit'], ops=['close', 'set', 'set-plain', 'hit', 'begin', 'abort'])
    job([], steps=3, depth=3, inside=False, ops=['close', 'set-plain', 'begin', 'hit'])
    job([], steps=3, depth=3, prefix=['begin', 'begin'], inside=False, ops=['set-outer', 'abort-outer', 'hit', 'set'])
    job([], steps=2, depth=3, prefix=['begin', 'begin', 'hit', 'set-outer'], inside=False, ops=['hit', 'hit-last', 'begin', 'set'])
    job([], fn='chain', chain=6)
    job([4, 3], fn='untracked')
    job([3, 3], fn='closing', covers=['clean'])
    job([], fn='threads', covers=['clean'])
    job([2], fn='bulk')
    job([5], fn='tree', covers=['nested'], steps=5 if thorough else 4)
    if thorough:
        out.extend(plan(tier, side))
    return out


def untracked(ctx):
    """Reads made with tracking switched off neither start a creation nor contribute to one."""
    w = ctx.make_world(frozen=True)
    way = ctx.choose('way', 4)
    how = ctx.choose('how', 3)
    legacy = ctx.flag('legacy')
    c = Env(w, legacy=legacy).cache
    p = Program(ctx, c)
    p.save('pre', p.tag())
    p.save('gone', p.tag())
    c.invalidate_dependency(tags_dep('b'))
    kw = {}
    if way in (0, 1):
        p.begin()                               # a tracked creation is going on; then reads that are not tracked
    if way in (0, 2):
        kw = dict(abort=True)
    else:
        c.ignore_descendants = True
    if how == 0:
        ctx.check(c.get('pre', MISS, **kw) == 'pre', 'served')
        ctx.check(c.get('gone', MISS, **kw) == MISS, 'invalid')
        ctx.check(c.get('never', MISS, **kw) == MISS, 'absent')
    elif how == 1:
        ctx.check(c.get_many(['pre', 'gone', 'never'], **kw) == {'pre': 'pre'}, 'served')
    else:
        for i in range(3):
            ctx.check(c.get('pre', MISS, **kw) == 'pre', 'served')
    c.ignore_descendants = False
    if way in (0, 1):
        # only what is tracked counts
        if ctx.flag('nested'):
            p.begin()
            p.set()
        p.set()
    # an entry made afterwards is no descendant of the abandoned reads, nor the reverse
    p.begin()
    p.set()
    del p.entries['gone']
    p.verdict(ctx.p('sound', True), True)


def bulk(ctx):
    """Missing keys of one bulk read are made one after another: siblings, whatever the order."""
    w = ctx.make_world(frozen=True)
    c = Env(w, legacy=ctx.flag('legacy')).cache
    p = Program(ctx, c)
    p.save('pre', p.tag(), p.tag())
    if ctx.flag('inside'):
        p.begin()
    keys = ['x', 'y', 'z']
    ctx.check(c.get_many(['x', 'pre', 'y', 'z']) == {'pre': 'pre'}, 'one is there')
    p.contribute(p.entries['pre'])
    while keys:
        key = keys.pop(ctx.choose('which', len(keys)))
        if ctx.flag('aborted'):
            c.abort(key)
            continue
        own = set([p.tag()])
        c.set(key, key, tags_dep(*own))
        p.entries[key] = own
        p.contribute(own)
    if p.open:
        p.set()
    p.begin()
    p.set()
    p.verdict(ctx.p('sound', True), True)


def closing(ctx):
    """close(), abort and failing computations leave the session clean."""
    w = ctx.make_world(frozen=True)
    e = Env(w, legacy=ctx.flag('legacy'))
    c = e.cache
    p = Program(ctx, c)
    p.save('pre', p.tag())
    way = ctx.choose('way', 3)
    depth = 1 + ctx.choose('depth', 3)
    given_up = [p.begin() for i in range(depth)]
    if ctx.flag('read'):
        p.hit('pre', 0)
    if way == 0:
        c.close()
        p.open = []
    elif way == 1:
        while p.open:
            p.abort()
    else:
        while p.open:
            p.set()
    # reads and saves of the next unit of work
    k = p.begin()
    if ctx.flag('again'):
        p.begin()
        p.set()
    p.set()
    p.compute()
    if way < 2 and ctx.flag('made after all'):
        for key in given_up:
            p.begin(key=key)
        while p.open:
            p.set()
    p.verdict(False, True)
    ctx.cover('clean')


def threads(ctx):
    """Creations of one thread know nothing of another thread's, whatever their interleaving."""
    w = ctx.make_world()
    A, B = Party(w, 'A'), Party(w, 'B')
    A.do(A.cache.set, 'pre', 'pre', tags_dep('p'))

    def one():
        c = A.cache
        c.get('a')
        c.get('pre')
        c.set('a', 'a', tags_dep('a'))

    def two():
        c = B.cache
        c.get('b')
        c.set('b', 'b', tags_dep('b'))
    w.interleave([(A.session, one), (B.session, two)])
    x = ctx.str('x', 1, lo=97, hi=122)
    A.do(A.cache.invalidate_dependency, tags_dep(x))
    ra = B.do(B.cache.get, 'a', MISS, None, True)
    rb = A.do(A.cache.get, 'b', MISS, None, True)
    ctx.check(ra == (MISS if x == 'a' or x == 'p' else 'a'), 'own tags and those of what this thread read')
    ctx.check(rb == (MISS if x == 'b' else 'b'), 'nothing of what the other thread did')
    ctx.cover('clean')


def tree(ctx):
    """The relation manager alone: well-nested programs over symbolic keys, against a stack."""
    from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
    ctx.make_world(frozen=True)
    m = RelationManager()
    if ctx.flag('safe'):
        m = ThreadSafeRelationManagerDecorator(m)
    ctx.check(not m.current().__bool__(), 'nothing is being created at first')
    stack = []          # [key, node, tags]
    used = []

    def tags_of(node):
        d = node.get_dependency(None)
        out = set()
        for x in getattr(d, 'delegates', [d]):
            out |= set(getattr(x, 'tags', ()))
        return out

    def verify():
        cur = m.current()
        if not stack:
            ctx.check(not cur.__bool__(), 'nothing is being created')
            ctx.check(not tags_of(cur), 'nothing is collected by nobody')
            return
        ctx.check(cur.__bool__(), 'a creation is going on')
        ctx.check(cur is stack[-1][1], 'the innermost creation is current')
        for i, (k, n, t) in enumerate(stack):
            ctx.check(tags_of(n) == t, 'collected exactly what it was made of', lambda: repr((i, tags_of(n), t)))
            ctx.check((n.parent() is stack[i - 1][1]) if i else not n.parent().__bool__(), 'the enclosing creation')
            ctx.check(m.get(k) is n, 'found by its key')
    n = 0
    for i in range(ctx.p('steps')):
        op = ctx.choose('op', 5)
        if op == 0:
            k = ctx.str('key', 1)
            for o in used:
                ctx.assume(o != k)
            used.append(k)
            m.current(k)
            ctx.check(ctx.eq(m.current().key(), k), 'its key')
            stack.append((k, m.current(), set()))
            if len(stack) > 1:
                ctx.cover('nested')
        elif op == 1:
            if not stack:
                ctx.done()
            k, node, t = stack.pop()
            ctx.check(m.pop(k) is node, 'the creation popped is the one begun')
            used.remove(k)
        elif op == 2:
            n += 1
            k = ctx.str('key', 1)
            for o in used:
                ctx.assume(o != k)
            # a leaf saved without having been begun belongs to the current creation
            leaf = m.get(k)
            tag = 't%d' % n
            m.pop(k).add_dependency(tags_dep(tag), None)
            for o in stack:
                o[2].add(tag)
        elif op == 3:
            if not stack:
                ctx.done()
            n += 1
            stack[-1][1].add_dependency(tags_dep('t%d' % n), None)
            for o in stack:
                o[2].add('t%d' % n)
        else:
            if ctx.flag('unknown'):
                k = ctx.str('key', 1)
                for o in used:
                    ctx.assume(o != k)
                ctx.check(not m.pop(k).__bool__(), 'popping what was never begun')
            else:
                m.clear()
                stack, used = [], []
        verify()


BOUNDS = ('well-nested programs of up to 4 (thorough 5) operations of 9 kinds around one creation, depth up to 4 (chains of 6), '
          'followed by the invalidation of any one tag; relation-manager programs of 4 (thorough 5) steps over symbolic keys; '
          'two threads, every interleaving of one nested and one plain creation')
ASSUMPTIONS = ('backend operations honour the cache API (stub)',
               'every missed tracked read is followed by a save or an abort of that key (documented usage)')
