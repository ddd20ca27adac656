"""Shared pieces of the harnesses. The code under test is imported inside the functions: the worker decides first
whether it is loaded instrumented (exploration) or plain (replay)."""

READ_UNCOMMITTED = 'READ UNCOMMITTED'
READ_COMMITTED = 'READ COMMITTED'
REPEATABLE_READ = 'REPEATABLE READ'
SERIALIZABLE = 'SERIALIZABLE'
LEVELS = (READ_UNCOMMITTED, READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE)


def of(root, module, *names):
    import importlib
    m = importlib.import_module(root + '.' + module)
    return [getattr(m, n) for n in names]


class Env(object):
    """One process/thread's view of a wrapped cache, put together as django_cache_dependencies does."""

    def __init__(self, world, level=READ_COMMITTED, delay=0, store='default', legacy=False, safe=False, backend=None,
                 accessor=None, root='cache_dependencies'):
        # the package under test also goes by a deprecated name, see c28
        RelationManager, ThreadSafeRelationManagerDecorator = of(root, 'relations', 'RelationManager', 'ThreadSafeRelationManagerDecorator')
        TransactionManager, ThreadSafeTransactionManagerDecorator = of(
            root, 'transaction', 'TransactionManager', 'ThreadSafeTransactionManagerDecorator')
        DependencyLock, = of(root, 'locks', 'DependencyLock')
        CacheWrapper, = of(root, 'cache', 'CacheWrapper')
        CacheTagging, = of(root, 'tagging', 'CacheTagging')
        from sx.backend import Backend
        self.world = world
        self.backend = backend if backend is not None else Backend(world, store)
        lock = DependencyLock.make(level, accessor or (lambda: self.backend), delay)
        self.lock = lock
        tm, rm = TransactionManager(lock), RelationManager()
        if safe:
            tm, rm = ThreadSafeTransactionManagerDecorator(tm), ThreadSafeRelationManagerDecorator(rm)
        self.transaction = tm
        self.relations = rm
        self.cache = (CacheTagging if legacy else CacheWrapper)(self.backend, rm, tm)


class Party(object):
    """A session (thread) with its own wrapper over the shared store; .do(f) runs f in that thread."""

    def __init__(self, world, name, **kw):
        self.session = world.session(name)
        self.env = self.session.call(lambda: Env(world, **kw))
        self.cache = self.env.cache
        self.root = kw.get('root', 'cache_dependencies')

    def tags(self, *tags):
        """A dependency on tags, by the name of the package this session uses."""
        return of(self.root, 'dependencies', 'TagsDependency')[0](*tags)

    def do(self, f, *a, **kw):
        return self.session.call(f, *a, **kw)


def root(p, i):
    roots = p('roots')
    return dict(root=roots[i]) if roots else {}


def tags_dep(*tags):
    from cache_dependencies.dependencies import TagsDependency
    return TagsDependency(*tags)


MISS = '<miss>'


def read(cache, how, key, version=None):
    """The value a reader gets, or MISS, by one of the reading operations; leaves no creation pending."""
    if how == 'get':
        return cache.get(key, MISS, version, abort=True)
    if how == 'many':
        return cache.get_many([key], version, abort=True).get(key, MISS)
    if how == 'many+':
        return cache.get_many(['no-such-key', key], version, abort=True).get(key, MISS)
    if how == 'compute':
        r = cache.get_or_set_callback(key, lambda: MISS, dummy(), None, version)
        if r == MISS:
            cache.cache.delete(key, version)
        return r
    raise ValueError(how)


HOWS = ('get', 'many', 'many+', 'compute')


def dummy():
    from cache_dependencies.dependencies import DummyDependency
    return DummyDependency()


def overlap(ctx, xs, ys):
    """Formula: the two lists of names have one in common."""
    return ctx.lor(*[ctx.eq(x, y) for x in xs for y in ys]) if xs and ys else False


def shards(sizes):
    """All combinations of the first choices, as `force` prefixes."""
    out = [[]]
    for n in sizes:
        out = [p + [i] for p in out for i in range(n)]
    return out
