"""Dependencies combine: a composite is as valid, as locked and as comprehensive as all its parts, however nested."""
import copy
from harness.common import Env, Party, tags_dep, dummy, MISS, read, shards, overlap, REPEATABLE_READ
PROPERTY = 'C14'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    job([4, 4], 'verdicts', ['valid', 'invalid', 'unlocked', 'locked'], n=3)
    job([4, 4], 'operations', ['reached'], n=3)
    job([3], 'merge', ['merged', 'shared', 'separate'])
    for more in (2, 14):
        job([3], 'merge', ['merged', 'shared', 'separate'], more=more)
    job([4], 'reuse', ['reused'])
    job([2], 'custom', ['served', 'refused', 'stale'])
    if thorough:
        job([4, 4, 4], 'verdicts', ['valid', 'invalid', 'unlocked', 'locked'], n=4)
        job([4, 4, 4], 'operations', ['reached'], n=4)
    return out


class Scripted(object):
    """A dependency of the user's own: says what it is told to, and records what it is asked."""

    def __init__(self, name, valid=True, locked=False, log=None):
        self.name, self.valid, self.locked, self.log = name, valid, locked, log

    def evaluate(self, cache, transaction, version):
        from cache_dependencies import exceptions
        self.log.append(('evaluate', self.name, cache, transaction, version))
        if self.locked:
            raise exceptions.DependencyLocked(self, [self.name])

    def validate(self, cache, version):
        from cache_dependencies import exceptions, defer
        self.log.append(('validate', self.name, cache, version))
        d = defer.Deferred(None, defer.NoneDeferredIterator)

        def answer(node, caches):
            if not self.valid:
                raise exceptions.DependencyInvalid(self, [self.name])
        d.add_callback(answer)
        return d

    def invalidate(self, cache, version):
        self.log.append(('invalidate', self.name, cache, version))
        return self.name        # nobody asked

    def acquire(self, cache, transaction, version):
        self.log.append(('acquire', self.name, cache, transaction, version))
        return self.name

    def release(self, cache, transaction, delay, version):
        self.log.append(('release', self.name, cache, transaction, delay, version))
        return self.name

    def extend(self, other):
        return False

    def __copy__(self):
        return type(self)(self.name, self.valid, self.locked, self.log)


def scripted_class():
    from cache_dependencies import interfaces
    if interfaces.IDependency not in Scripted.__mro__:
        cls = type('ScriptedDependency', (Scripted, interfaces.IDependency), {})
        return cls
    return Scripted


def tree(ctx, parts):
    """A composite over the parts, in any nesting."""
    from cache_dependencies.dependencies import CompositeDependency, DummyDependency
    shape = ctx.choose('shape', 5)
    if shape == 0:
        return CompositeDependency(*parts)
    if shape == 1:
        return CompositeDependency(CompositeDependency(*parts[:1]), *parts[1:])
    if shape == 2:
        return CompositeDependency(DummyDependency(), *(parts[:1] + [CompositeDependency(*parts[1:])]))
    if shape == 3:
        return CompositeDependency(CompositeDependency(CompositeDependency(*parts[:2]), CompositeDependency()), *parts[2:])
    return CompositeDependency(CompositeDependency(*parts[:1]), CompositeDependency(*parts[1:]), CompositeDependency())


def verdicts(ctx):
    from cache_dependencies import exceptions
    from cache_dependencies.dependencies import TagsDependency
    w = ctx.make_world()
    S = scripted_class()
    env = Env(w, level=REPEATABLE_READ)
    other = Party(w, 'other', level=REPEATABLE_READ)
    t = env.transaction
    t.begin()
    log, parts, names, bad, locked = [], [], [], [], []
    doomed = []
    for i in range(ctx.p('n')):
        kind = ctx.choose('kind', 4)
        name = 'p%d' % i
        if kind == 0:                       # tags, of which some will be invalidated or locked
            p = TagsDependency(name, name + 'x')
            names.append(name)
        elif kind == 1:
            p = TagsDependency()
        else:
            p = S(name, valid=kind == 2, locked=ctx.flag('locked'), log=log)
            if p.locked:
                locked.append(name)
            if not p.valid:
                bad.append(name)
        parts.append(p)
    d = tree(ctx, parts)
    if ctx.flag('lock them'):
        for name in names:
            if ctx.flag('lock'):
                other.do(other.cache.transaction.begin)
                other.do(other.cache.invalidate_dependency, tags_dep(name))
                locked.append(name)
    try:
        d.evaluate(env.backend, t.current(), None)
        ctx.check(not locked, 'locked if any part is')
        ctx.cover('unlocked')
    except exceptions.DependencyLocked as e:
        ctx.check(bool(locked), 'not locked unless a part is')
        ctx.check(e.dependency is d, 'the error names the dependency')
        ctx.check(sorted(e.items) == sorted(locked), 'and exactly what is locked in its parts', lambda: repr((list(e.items), locked)))
        ctx.cover('locked')
        ctx.done()
    for name in names:
        if ctx.flag('invalidate'):
            tags_dep(name).invalidate(env.backend, None)
            bad.append(name)
    deferred = d.validate(env.backend, None)
    try:
        deferred.get()
        ctx.check(not bad, 'invalid if any part is')
        ctx.cover('valid')
    except exceptions.DependencyInvalid as e:
        ctx.check(bool(bad), 'not invalid unless a part is')
        ctx.check(e.dependency is d, 'the error names the dependency')
        ctx.check(sorted(e.errors) == sorted(bad), 'and exactly what is invalid in its parts', lambda: repr((list(e.errors), bad)))
        ctx.cover('invalid')


def operations(ctx):
    """Invalidation and locking reach every part, with the cache, transaction, delay and version given."""
    from cache_dependencies import exceptions
    from cache_dependencies.dependencies import TagsDependency
    w = ctx.make_world(frozen=True)
    S = scripted_class()
    env = Env(w)
    log, parts, tags = [], [], []
    for i in range(ctx.p('n')):
        kind = ctx.choose('kind', 4)
        if kind == 0:
            tags.append(ctx.str('tag', 1))
            parts.append(TagsDependency(tags[-1]))
        elif kind == 1:
            parts.append(TagsDependency())
        else:
            parts.append(S('p%d' % i, log=log))
    d = tree(ctx, parts)
    scripted = [p.name for p in parts if isinstance(p, S)]
    version = ctx.pick('version', [0, 1, 2])
    delay = ctx.int('delay', 0, 100)
    transaction = object()
    c = env.cache
    for t in tags:
        c.set('entry', 1, TagsDependency(t), version=version)
    op = ctx.choose('op', 3)
    if op == 0:
        d.invalidate(env.backend, version)
        ctx.check([x for x in log] == [('invalidate', n, env.backend, version) for n in scripted], 'every part is invalidated, once')
        if tags:
            ctx.check(c.get('entry', None, version, abort=True) is None, 'and so are all tags')
    else:
        class Tx(object):
            def get_session_id(self):
                return 's'

            def get_start_time(self):
                return 5.0

            def get_end_time(self):
                return 6.0
        transaction = Tx()
        del w.ops[:]
        if op == 1:
            d.acquire(env.backend, transaction, version)
            ctx.check(log == [('acquire', n, env.backend, transaction, version) for n in scripted], 'every part is acquired, once')
        else:
            d.release(env.backend, transaction, delay, version)
            ctx.check(log == [('release', n, env.backend, transaction, delay, version) for n in scripted], 'every part is released, once')
        ctx.check(all(o[2] == version for o in w.ops), 'of the given version')

        class Reader(Tx):
            def get_session_id(self):
                return 'reader'
        for t in tags:
            try:
                TagsDependency(t).evaluate(env.backend, Reader(), version)
                ctx.check(False, 'and so are all tags')
            except exceptions.DependencyLocked:
                pass
    ctx.cover('reached')


def merge(ctx):
    """Extending covers both; copies and originals stay independent of each other."""
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency, DummyDependency
    w = ctx.make_world(frozen=True)
    c = Env(w).cache

    def make(tags, form):
        if form == 0:
            return TagsDependency(*tags)
        if form == 1:
            return CompositeDependency(*[TagsDependency(t) for t in tags])
        return CompositeDependency(DummyDependency(), CompositeDependency(TagsDependency(*tags)))
    more = ctx.p('more', 0)
    a_tags, b_tags = [ctx.str('a', 1)], [ctx.str('b', 1), ctx.str('b', 1)]
    a_tags += ['a%d' % i for i in range(more)]
    b_tags += ['b%d' % i for i in range(more)]
    fa, fb = ctx.choose('fa', 3), ctx.choose('fb', 3)
    a, b = make(a_tags, fa), make(b_tags, fb)
    how = ctx.choose('how', 3)
    if how == 0:
        # a copy is extended: the original is not
        x = copy.copy(a)
    elif how == 1:
        x = a
    else:
        x = CompositeDependency()
        x.extend(a)
    if fa == 0 and fb and how != 2:
        ctx.check(x.extend(b) is False, 'tags take in only tags')
        expected = a_tags
    else:
        ctx.check(x.extend(b) is True, 'taken in')
        expected = a_tags + b_tags
    if how != 1:
        c.set('a', 1, a)
    c.set('b', 2, b)
    c.set('x', 3, x)
    tag = ctx.str('invalidated', 1)
    c.invalidate_dependency(TagsDependency(tag))
    r = c.get_many(['a', 'b', 'x'], abort=True)
    if how != 1:
        ctx.check(ctx.eq('a' not in r, overlap(ctx, [tag], a_tags)), 'the original is what it was')
    ctx.check(ctx.eq('b' not in r, overlap(ctx, [tag], b_tags)), 'what was taken in is what it was')
    ctx.check(ctx.eq('x' not in r, overlap(ctx, [tag], expected)), 'the extended one covers both')
    ctx.cover('shared' if 'x' not in r else 'separate')
    ctx.cover('merged')


def reuse(ctx):
    """A dependency object given to several operations is not changed by them."""
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency
    w = ctx.make_world(frozen=True)
    c = Env(w).cache
    form = ctx.choose('form', 4)
    own = ctx.str('own', 1)
    d = [lambda: TagsDependency(own), lambda: CompositeDependency(TagsDependency(own)), lambda: CompositeDependency(CompositeDependency(TagsDependency(own))),
         lambda: TagsDependency([own])][form]()
    inner = [ctx.str('inner', 1) for _ in range(2)]
    way = ctx.choose('way', 4)
    if way == 0:            # saved with descendants first
        c.begin('first')
        c.set('in', 0, TagsDependency(inner[0]))
        c.set('first', 1, d)
    elif way == 1:          # inherited by an ancestor which has other tags
        c.begin('first')
        c.set('in', 0, d)
        c.set('in2', 0, TagsDependency(inner[0]))
        c.set('first', 1, TagsDependency(inner[1]))
    elif way == 2:          # invalidated in a transaction with other tags
        c.transaction.begin()
        c.invalidate_dependency(d)
        c.invalidate_dependency(TagsDependency(inner[0]))
        c.transaction.finish()
    else:                   # saved twice
        c.set('first', 1, d)
        c.invalidate_dependency(d)
    c.set('second', 2, d)
    tag = ctx.str('invalidated', 1)
    c.invalidate_dependency(TagsDependency(tag))
    served = c.get('second', MISS, abort=True) != MISS
    ctx.check(ctx.eq(served, ctx.lnot(tag == own)), 'it stands for its own tag only', lambda: repr((way, form, served)))
    ctx.cover('reused')


def custom(ctx):
    """Dependencies of the user's own work like tags: served while valid, saved unless locked, alone and mixed with tags."""
    from cache_dependencies import interfaces, exceptions, defer
    w = ctx.make_world(frozen=True)
    c = Env(w, legacy=ctx.flag('legacy')).cache
    from harness import c14
    if getattr(c14, 'Own', None) is None:
        def evaluate(self, cache, transaction, version):
            if c14.STATE['locked']:
                raise exceptions.DependencyLocked(self, ['own'])

        def validate(self, cache, version):
            d = defer.Deferred(None, defer.NoneDeferredIterator)

            def answer(node, caches):
                if not c14.STATE['valid']:
                    raise exceptions.DependencyInvalid(self, ['own'])
            d.add_callback(answer)
            return d
        c14.Own = type('Own', (interfaces.IDependency,), dict(
            evaluate=evaluate, validate=validate, invalidate=lambda self, cache, version: c14.STATE.update(valid=False),
            acquire=lambda *a: None, release=lambda *a: None, extend=lambda self, other: isinstance(other, c14.Own),
            __copy__=lambda self: c14.Own(), __module__='harness.c14'))
    c14.STATE.update(valid=True, locked=ctx.flag('locked'))
    form = ctx.choose('form', 3)
    from cache_dependencies.dependencies import TagsDependency, CompositeDependency
    d = [lambda: c14.Own(), lambda: CompositeDependency(c14.Own(), TagsDependency('t')), lambda: CompositeDependency(TagsDependency('t'), CompositeDependency(c14.Own()))][form]()
    nested = ctx.flag('nested')
    if nested:
        c.get('outer')
    c.set('k', 'v', d)
    if nested:
        c.set('outer', 'o', None if not ctx.p('legacy') else ())
    c.set('plain', 'p', TagsDependency('t'))
    keys = ['k', 'outer', 'plain'] if nested else ['k', 'plain']

    def seen():
        if bulk:
            return set(c.get_many(keys, abort=True))
        return set(k for k in keys if c.get(k, abort=True) is not None)
    bulk = ctx.flag('bulk')
    if c14.STATE['locked']:
        ctx.check(seen() == set(['plain']), 'what depends on something locked is not saved')
        ctx.cover('refused')
        ctx.done()
    ctx.check(seen() == set(keys), 'served while valid')
    ctx.cover('served')
    if ctx.flag('direct'):
        c14.STATE['valid'] = False
    else:
        (c.invalidate_tags if hasattr(c, 'invalidate_tags') else c.invalidate_dependency)(c14.Own())
    ctx.check(seen() == set(['plain']), 'not served when invalid', lambda: repr(seen()))
    ctx.cover('stale')


Own = None
STATE = {}

BOUNDS = ('composites of 3 (thorough 4) parts in 5 nestings, each part with tags, without tags or scripted; every subset of invalid and '
          'locked parts; merges of 1 and 2 symbolic tags in all forms')
ASSUMPTIONS = ('parts keep the interface contract: an answer per validation, extend() only taking in its own kind',)
