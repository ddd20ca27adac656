"""The deprecated package names stand for the same caches: code using either works together with code using the other."""
from harness.common import shards, MISS, overlap, READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE
from harness.flat import history
from harness.tx import txprogram
from harness.c08 import one as snapshot, program as snapshots
from harness.c09 import program as refusals
from harness.web import Site
PROPERTY = 'C28'
OLD, NEW = 'cache_tagging', 'cache_dependencies'
DJANGO = ('cache_tagging.django_cache_tagging', 'django_cache_dependencies')


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, django=False, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, **(dict(django=True) if django else {})))
    seen = ['hit', 'missed']
    for roots in ([OLD, NEW], [NEW, OLD]):
        job([], 'history', seen, steps=2, how='get', roots=roots, kinds=['set0', 'inv1'], ntags0=1)
        job([], 'history', seen, steps=2, how='many', roots=roots, kinds=['set0', 'inv1', 'begin', 'finish'], every=False, first_tx=1, ntags0=1)
        job([], 'txprogram', seen, steps=2, prefix=['begin', 'inv'], ops=['inv', 'save', 'finish'], roots=roots)
        job([3], 'txprogram', seen, steps=2, prefix=['begin', 'inv'], ops=['inv', 'save', 'finish'], level=REPEATABLE_READ, roots=roots, precise=False)
        job([], 'snapshot', ['refused'], roots=roots)
        job([2], 'snapshots', ['fresh', 'refused'], steps=5, level=REPEATABLE_READ, delay=2, roots=roots)
        job([4, 5], 'refusals', ['refused', 'saved'], steps=4, level=SERIALIZABLE, delay=2, roots=roots)
    job([], 'history', seen, steps=1, how='get', roots=[OLD, NEW], kinds=['set0', 'inv1'], **{'free names': True})
    job([2, 2], 'handles', ['shared'], True)
    job([2, 2], 'pages', ['made', 'served'], True)
    job([2, 2], 'fragments', ['rendered', 'served'], True)
    job([2, 2], 'code', ['executed', 'kept'], True)
    job([2], 'registered', ['dead', 'alive'], True)
    job([2, 2], 'decorators', ['settled'], True)
    job([2], 'requests', ['closed'], True)
    if thorough:
        for roots in ([OLD, NEW], [NEW, OLD]):
            job([2, 2, 2], 'history', seen, steps=3, how='get', roots=roots, kinds=['set0', 'inv1'])
            job([3, 3], 'txprogram', seen, steps=4, prefix=['begin', 'inv'], ops=['inv', 'save', 'finish'], roots=roots)
            job([3, 3], 'txprogram', seen, steps=3, prefix=['begin', 'inv'], ops=['inv', 'save', 'finish'], level=SERIALIZABLE, roots=roots,
                precise=False)
    return out


def mod(i, name=''):
    import importlib
    return importlib.import_module(DJANGO[i] + ('.' + name if name else ''))


def which(ctx, what):
    return ctx.choose(what, 2)


def tags_of(ctx, tags):
    """Tags as given to a cache: plain, or a dependency of either name."""
    import importlib
    form = ctx.choose('form', 3)
    if form == 0:
        return tags
    return importlib.import_module((OLD, NEW)[form - 1] + '.dependencies').TagsDependency(tags)


def handles(ctx):
    """Every handle of either name is the same cache: values, tags, transactions, creations."""
    site = Site(ctx)
    a, b = mod(which(ctx, 'saved by')), mod(which(ctx, 'invalidated by'))

    def run():
        ctx.check(a.caches['default'] is b.caches['default'], 'one instance per thread and alias')
        ctx.check(a.get_cache('other') is b.caches['other'], 'one instance per thread and alias')
        t1, t2 = ctx.str('tag', 1), ctx.str('tag', 1)
        inner, outer = ctx.flag('inner'), ctx.flag('in tx')
        if outer:
            b.cache.transaction.begin()
        if inner:
            ctx.check(b.cache.get('outer', MISS) == MISS, 'nothing yet')
        a.cache.set('k', 'v', tags_of(ctx, [t1]))
        if inner:
            b.cache.set('outer', 'o', tags_of(ctx, ['x']))
        ctx.check(b.caches['default'].get('k', MISS, abort=True) == 'v', 'stored by one, read by the other')
        b.cache.invalidate_tags(tags_of(ctx, [t2]))
        for key in ['k'] + ['outer'] * inner:
            r = a.cache.get(key, MISS, abort=True)
            dead = overlap(ctx, [t2], [t1] + ['x'] * (key == 'outer'))
            ctx.check(ctx.eq(r == MISS, dead), 'dies with its tags', lambda: repr((key, r, t1, t2)))
        if outer:
            ctx.check(a.cache.transaction.current().__bool__(), 'the transaction is the same')
            a.cache.set('m', 'm', tags_of(ctx, [t2]))
            a.cache.transaction.finish()
            ctx.check(not b.cache.transaction.current().__bool__(), 'it is ended')
            ctx.check(b.cache.get('m', MISS, abort=True) == MISS, 'and took out what was saved meanwhile')
    site.call(run)
    ctx.cover('shared')


def pages(ctx):
    """Pages kept by the middleware of one name die with invalidations by the other, and with fragments of the other."""
    i, j = which(ctx, 'page by'), which(ctx, 'invalidated by')
    site = Site(ctx)
    deco, middleware, pkg = mod(i, 'decorators'), mod(i, 'middleware'), mod(j)
    frag = template(j, '{% cache_tagging "f" "frag" %}-{% end_cache_tagging %}') if ctx.flag('fragment') else None
    late = ctx.flag('tags of request')
    page = site.page(body=lambda r, n: 'page %d%s' % (n, frag.render({'request': r} if late else {}) if frag else ''))
    way = ctx.choose('way', 3)
    if way == 0:
        f = deco.cache_page(60, tags=lambda request: ['page'])(page.view)
    elif way == 1:
        f = middleware.CacheMiddleware(page.view, tags=lambda request: ['page'])
    else:
        f = middleware.UpdateCacheMiddleware(middleware.FetchFromCacheMiddleware(page.view))
        f.tags = lambda request: ['page']
    g = lambda: f
    site.request(g)
    site.request(g)
    ctx.check(page.calls == 1, 'served from cache')
    tag = ctx.str('tag', 4)
    site.call(lambda: pkg.cache.invalidate_tags(tag))
    site.request(g)
    dead = ctx.lor(tag == 'page', ctx.land(tag == 'frag', frag is not None))
    ctx.check(ctx.eq(page.calls == 2, dead), 'made anew exactly when its tags were invalidated', lambda: repr((tag, page.calls)))
    ctx.cover('made' if page.calls == 2 else 'served')


TEMPLATES = {}


def template(i, src):
    from django.template import Context
    from django.template.engine import Engine
    t = TEMPLATES.get((i, src))
    if t is None:
        e = Engine(libraries={'one': DJANGO[i] + '.templatetags.cache_tagging_tags', 'two': DJANGO[1 - i] + '.templatetags.cache_tagging_tags'})
        t = TEMPLATES[i, src] = e.from_string('{% load one %}' + src)

    class T(object):
        def render(self, data):
            return t.render(Context(data))
    return T()


def fragments(ctx):
    """Fragments of one library inside of fragments of the other: exactly as with one."""
    i, j = which(ctx, 'library'), which(ctx, 'invalidated by')
    site = Site(ctx)
    prevent = ctx.flag('prevent')
    t = template(i, '{% cache_tagging "outer" "o" %}{{ a }}{% load two %}{% cache_tagging "inner" "i" %}{{ b }}{% cache_add_tags "more" %}'
                    + ('{% cache_tagging_prevent %}' if prevent else '') + '{% end_cache_tagging %}{% load one %}{% end_cache_tagging %}')
    n = [0]

    def show():
        n[0] += 1
        return site.call(t.render, {'a': 'a%d' % n[0], 'b': 'b%d' % n[0]})
    ctx.check(show() == 'a1b1', 'rendered')
    second = show()
    if prevent:
        ctx.check(second == 'a2b2', 'neither is kept')
        ctx.cover('rendered')
        ctx.done()
    ctx.check(second == 'a1b1', 'served')
    tag = ctx.str('tag', 1)
    if ctx.flag('added'):
        tag = 'more'
    site.call(lambda: mod(j).cache.invalidate_tags(tag))
    r = show()
    inner = ctx.lor(tag == 'i', tag == 'more')
    ctx.check(ctx.eq(r != 'a1b1', ctx.lor(inner, tag == 'o')), 'the outer one is rendered anew exactly with its tags', lambda: repr((tag, r)))
    ctx.check(ctx.eq(r == 'a3b3', inner), 'and the inner one with its own', lambda: repr((tag, r)))
    ctx.cover('rendered' if r != 'a1b1' else 'served')


def code(ctx):
    """Uncached code marked by the tags of one library is executed by fragments of the other, in the same cache."""
    i, j = which(ctx, 'library'), which(ctx, 'shown by')
    site = Site(ctx)
    one = template(i, '{% cache_tagging "f" "t" nocache=1 %}{% nocache y="5" %}echo(x, y){% endnocache %}!{% end_cache_tagging %}')
    two = template(j, '{% cache_tagging "f" "t" nocache=1 %}other{% end_cache_tagging %}')
    ctx.check(site.call(one.render, {'x': 1}) == '15!', 'executed')
    tag = ctx.str('tag', 1)
    site.call(lambda: mod(j).cache.invalidate_tags(tag))
    r = site.call(two.render, {'x': 7})
    if tag == 't':
        ctx.check(r == 'other', 'made anew')
        ctx.cover('executed')
    else:
        ctx.check(r == '75!', 'kept, and executed again')
        ctx.cover('kept')
    h1, h2 = mod(i).nocache, mod(j).nocache
    ctx.check(h2.handle(h1.start(a=1) + 'echo(a)' + h1.end()) == '1', 'the secret is the same')


def registered(ctx):
    """Models registered through either name."""
    from harness.c25 import Signals, Thing, send
    i = which(ctx, 'registered by')
    site = Site(ctx)
    tags = [ctx.str('tag', 1)]
    with Signals():
        mod(i).registry.register([(Thing, lambda o: o.tags)] if ctx.flag('default') else [(Thing, lambda o: o.tags, mod(1 - i).cache)])
        of = ctx.str('of entry', 1)
        site.call(lambda: mod(1 - i).cache.set('k', 'v', [of]))
        site.call(send, ctx.choose('event', 3), Thing(*tags))
        r = site.call(lambda: mod(i).cache.get('k', MISS, abort=True))
        ctx.check(ctx.eq(r == MISS, overlap(ctx, [of], tags)), 'exactly its tags are invalidated')
        ctx.cover('dead' if r == MISS else 'alive')


def decorators(ctx):
    """The transaction decorators and middleware of one name, around code using the other."""
    i, j = which(ctx, 'decorator by'), which(ctx, 'used by')
    site = Site(ctx)
    pkg = mod(j)
    all_, fail = ctx.flag('all'), ctx.flag('fail')
    d = getattr(mod(i, 'decorators'), 'cache_transaction_all' if all_ else 'cache_transaction')

    class Boom(Exception):
        pass
    tag = ctx.str('tag', 1)

    def body(*a):
        ctx.check(pkg.cache.transaction.current().__bool__(), 'inside a transaction')
        if all_:
            pkg.cache.transaction.begin()
        pkg.cache.invalidate_tags('t')
        pkg.cache.set('k', 'v', [tag])
        if fail:
            raise Boom()
        return 'result'
    spelling = ctx.choose('spelling', 4)
    f = [lambda: d(body), lambda: d(cache=pkg.caches['default'])(body), lambda: d(body, cache=pkg.cache),
         lambda: d(pkg.caches['default'])(body)][spelling]

    def run():
        try:
            ctx.check(f()() == 'result' and not fail, 'the result is passed through')
        except Boom:
            ctx.check(fail, 'a failure too')
        ctx.check(not pkg.cache.transaction.current().__bool__(), 'nothing is left open')
        r = mod(i).cache.get('k', MISS, abort=True)
        ctx.check(ctx.eq(r == MISS, tag == 't'), 'what was invalidated is out of service')
    site.call(run)
    ctx.cover('settled')


def requests(ctx):
    """The end of a request closes what was left open through either name."""
    i = which(ctx, 'used by')
    site = Site(ctx)
    pkg = mod(i)
    from django.core import signals
    middleware = mod(1 - i, 'middleware')
    tag = ctx.str('tag', 1)

    def view(request):
        pkg.cache.get('pending')
        pkg.cache.invalidate_tags('t')
        pkg.cache.set('k', 'v', [tag])
        return request
    def run():
        if ctx.flag('middleware'):
            m = middleware.TransactionMiddleware(view)
            ctx.check(m('request') == 'request', 'answered')
        else:
            pkg.cache.transaction.begin()
            view(None)
        if ctx.flag('signal'):
            signals.request_finished.send(sender=None)
        else:
            pkg.close_caches()
        ctx.check(not mod(1 - i).cache.transaction.current().__bool__(), 'no transaction is left open')
        r = mod(1 - i).cache.get('k', MISS, abort=True)
        ctx.check(ctx.eq(r == MISS, tag == 't'), 'what was invalidated is out of service')
        pkg.cache.set('new', 1, ['n'])
        pkg.cache.invalidate_tags(tag)
        ctx.check(ctx.eq(pkg.cache.get('new', MISS, abort=True) == MISS, tag == 'n'), 'nothing was pending')
        pkg.cache.set('pending', 1, ['p'])
        pkg.cache.invalidate_tags('n')
        ctx.check(pkg.cache.get('pending', MISS, abort=True) == 1, 'nothing was pending')
    site.call(run)
    ctx.cover('closed')


BOUNDS = ('sessions of either package name over one store: histories of 2 (thorough 3) operations and transactions of 3-4 (thorough 5-6), every '
          'coincidence of tags; every pairing of the two names in one thread for handles, pages installed in 3 ways, fragments in fragments, uncached '
          'code, registered models, transaction decorators and ends of requests, each against one symbolic tag')
ASSUMPTIONS = ('backend operations honour the cache API (stub)',
               "classes of the two names are different ones: a user's own dependency derives from cache_dependencies.interfaces",)
