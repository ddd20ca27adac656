"""Cached pages die with everything they are made of: their own tags, added tags, fragments made for them or taken from cache."""
from harness.common import shards, overlap
from harness.web import Site
PROPERTY = 'C20'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    job([3, 4], 'tags', ['alive', 'dead'])
    job([3, 5], 'fresh', ['served', 'called'], steps=5 if thorough else 4)
    job([3, 5], 'fresh', ['served', 'called'], steps=5 if thorough else 4, vary=True)
    job([3], 'templates', ['served', 'called'], steps=5 if thorough else 4, two=thorough)
    if not thorough:
        job([3], 'templates', ['served', 'called'], steps=3, two=True)
    job([3, 2, 2], 'sources', ['alive', 'dead'])
    job([3, 5], 'fresh', ['served', 'called'], steps=4, head=True)
    job([3], 'vary', ['shared', 'own'])
    job([3], 'outside', ['alive', 'dead'])
    job([2], 'locked', ['refused', 'kept'])
    job([3], 'versions', ['alive', 'dead'])
    return out


def tags(ctx):
    """Tags from four sources, any of them coinciding: the page is made anew exactly if one of them was invalidated."""
    site = Site(ctx, way=ctx.choose('way', 3))
    kind = ctx.choose('kind', 4)
    own, added, hit, made = [[ctx.str(n, 1)] for n in ('own', 'added', 'hit', 'made')]
    if kind == 0:
        hit, made = [], []
    elif kind == 1:
        added, made = [], []
    elif kind == 2:
        added, hit = [], []
    else:
        own = []
    form = ctx.choose('form', 3)
    if hit:
        site.call(lambda: site.caches('default').set('ready', 'r', hit))

    def extra(request, n):
        c = site.caches('default')
        if added:
            if not hasattr(request, 'cache_tagging'):
                request.cache_tagging = set()
            request.cache_tagging.update(added)
        if hit and c.get('ready') is None:
            c.set('ready', 'r', hit)
        if made and c.get('part') is None:
            c.set('part', 'p', made)
    page = site.page(extra=extra)
    conv = [list, tuple, set][form]
    kw = dict(tags=lambda request: conv(own)) if own or ctx.flag('none') else {}
    site.get(page, **kw)
    site.get(page, **kw)
    ctx.check(page.calls == 1, 'cached')
    tag = ctx.str('invalidated', 1)
    site.call(lambda: site.caches('default').invalidate_tags(tag))
    r = site.get(page, **kw)
    dead = overlap(ctx, [tag], own + added + hit + made)
    ctx.check(ctx.eq(page.calls == 2, dead), 'made anew exactly if something it is made of was invalidated',
              lambda: repr((page.calls, tag, own, added, hit, made)))
    ctx.check(r.content == b'page %d' % page.calls, 'the page')
    site.get(page, **kw)
    ctx.check(page.calls == (2 if r.content == b'page 2' else 1), 'cached again')
    ctx.cover('dead' if page.calls == 2 else 'alive')


def story(ctx, site, body, ops, extra_headers, **kw):
    """Requests and changes in any order; every answer shows the data as they are now; repeated requests are answered from cache."""
    data = {'T': 0, 'P': 0, 'U': 0}
    page = site.page(body=lambda request, n: body(request, data), **kw)
    since = {}
    for i in range(ctx.p('steps')):
        op = ctx.choose_of('op', ops)
        if op in data:
            data[op] += 1
            site.call(lambda: site.caches('default').invalidate_tags(op))
            since = {}
        elif op == 'drop':
            site.call(lambda: site.caches('default').cache.delete('frag'))
        else:
            before = page.calls
            method, op = ('HEAD', 'a') if op == 'HEAD' else ('GET', op)
            r = site.get(page, method=method, headers=extra_headers(op), tags=lambda request: ['P'])
            want = expected(op, data)
            ctx.check(r.content.decode() == want, 'the page shows the data as they are', lambda: repr((r.content, want)))
            if (op, method) in since or (op, 'GET') in since:       # a HEAD is answered by either
                ctx.check(page.calls == before, 'a page is made once while nothing it is made of changes')
                ctx.cover('served')
            else:
                ctx.cover('called')
            since[op, method] = True


def expected(op, data):
    return '%s T%d U%d P%d' % (op, data['T'], data['U'], data['P'])


def fresh(ctx):
    site = Site(ctx, way=ctx.choose('way', 3))

    def body(request, data):
        c = site.caches('default')
        frag = c.get('frag')
        if frag is None:
            inner = c.get('inner')
            if inner is None:
                inner = 'U%d' % data['U']
                c.set('inner', inner, ('U',))
            frag = 'T%d %s' % (data['T'], inner)
            c.set('frag', frag, ('T',))
        return '%s %s P%d' % (request.META.get('HTTP_X_A', 'a'), frag, data['P'])
    vary = ctx.p('vary')
    ops = ['a', 'b', 'T', 'U', 'P'] if vary else ['a', 'HEAD', 'T', 'U', 'P'] if ctx.p('head') else ['a', 'drop', 'T', 'U', 'P']
    story(ctx, site, body, ops, lambda op: {'HTTP_X_A': op} if vary else {}, vary='X-A' if vary else None)


def templates(ctx):
    """The same through templates, rendered in the view or afterwards."""
    from django.template import engines
    way = ctx.choose('way', 3)
    site = Site(ctx, way=way)
    late = ctx.flag('late')
    form = ctx.choose('form', 3)
    src = '{% load cache_tagging_tags %}{{ request.META.HTTP_X_A }} ' + [
        '{% cache_tagging "frag" "T" %}T{{ data.T }} {% cache_tagging "inner" "U" %}U{{ data.U }}{% end_cache_tagging %}{% end_cache_tagging %} P{{ data.P }}',
        '{% cache_tagging "frag" "T" %}T{{ data.T }}{% end_cache_tagging %} {% cache_tagging "inner" "U" %}U{{ data.U }}{% end_cache_tagging %} P{{ data.P }}',
        '{% cache_tagging "frag" timeout=60 %}{% cache_add_tags "T" "U" %}T{{ data.T }} U{{ data.U }}{% end_cache_tagging %} P{{ data.P }}',
    ][form]
    template = TEMPLATES.get(src)
    if template is None:
        template = TEMPLATES[src] = engines['django'].from_string(src)

    def body(request, data):
        if late:
            return dict(data)
        return template.render({'data': dict(data), 'request': request}, request)

    def respond(request, context):
        from django.template.response import TemplateResponse
        return TemplateResponse(request, template, {'data': context, 'request': request})
    ops = ['a', 'b', 'T', 'U'] if ctx.p('two') else ['a', 'T', 'U']
    story(ctx, site, body, ops, lambda op: {'HTTP_X_A': op}, vary='X-A', template=respond if late else None)


TEMPLATES = {}


def vary(ctx):
    """Requests share a page exactly if they agree in every header the page varies on, however the header is written."""
    site = Site(ctx, way=ctx.choose('way', 3))
    spelling = ctx.choose_of('spelling', ['X-A', 'x-a, X-B', 'X-B,X-A', 'X-C, x-a,X-B', 'Accept-Language', 'Accept-Language, x-a', 'Cookie'])
    names = [h.strip().upper() for h in spelling.split(',')]
    i18n = ctx.flag('i18n')
    site.settings['USE_I18N'] = i18n
    page = site.page(vary=spelling)
    header = ctx.choose_of('header', ['HTTP_X_A', 'HTTP_X_B', 'HTTP_X_C', 'HTTP_ACCEPT_LANGUAGE', 'HTTP_COOKIE'])
    values = [None, '1', '2']
    seen = {}
    matters = header[5:].replace('_', '-') in names and not (header == 'HTTP_ACCEPT_LANGUAGE' and i18n)
    for i in range(3):
        v = values[ctx.choose('value', 3)]
        before = page.calls
        r = site.get(page, headers={header: v} if v is not None else {})
        k = v if matters else None
        if matters and v is None:
            k = 'absent'
        ctx.check((page.calls > before) == (k not in seen), 'the view is called once per variant', lambda: repr((spelling, header, i18n, v)))
        if k in seen:
            ctx.check(r.content == seen[k], 'the page of the variant')
            ctx.cover('shared')
        else:
            seen[k] = r.content
            ctx.cover('own')


def sources(ctx):
    """One cache, two pages: each depends on the tags of its own request, whoever gave them, and on no tags of the other."""
    way = ctx.choose('way', 3)
    late, varied = ctx.flag('late'), ctx.flag('vary')
    site = Site(ctx, way=way)
    form = ctx.choose('form', 4)
    paths = ['/one/', '/two/']
    own = dict((p, [ctx.str('own', 1)]) for p in paths)
    added = dict((p, [ctx.str('added', 1)]) for p in paths)
    if form == 3:       # the tags function hands out one set again and again
        own[paths[1]] = own[paths[0]]
        same = set(own[paths[0]])
        given = lambda request: same
    else:
        given = lambda request: [list, set, frozenset][form](own[request.path])

    def extra(request, n):
        if not hasattr(request, 'cache_tagging'):
            request.cache_tagging = set()
        request.cache_tagging.update(added[request.path])

    def respond(request, text):
        from django.template import engines
        from django.template.response import TemplateResponse
        return TemplateResponse(request, engines['django'].from_string('{{ text }}'), {'text': text})
    page = site.page(extra=extra, vary='X-A' if varied else None, template=respond if late else None)
    for p in paths:
        site.get(page, path=p, tags=given)
    ctx.check(page.calls == 2, 'made')
    tag = ctx.str('invalidated', 1)
    site.call(lambda: site.caches('default').invalidate_tags(tag))
    for p in paths:
        if varied:      # another variant is made anew meanwhile
            site.get(page, path=p, headers={'HTTP_X_A': 'b'}, tags=given)
        before = page.calls
        site.get(page, path=p, tags=given)
        dead = overlap(ctx, [tag], own[p] + added[p])
        ctx.check(ctx.eq(page.calls > before, dead), 'made anew exactly if a tag of this page was invalidated',
                  lambda: repr((p, page.calls, tag, own, added)))
        ctx.cover('dead' if page.calls > before else 'alive')


def outside(ctx):
    """A page depends only on what it is made of: not on what the thread reads before and after, nor on pages that were not cached."""
    site = Site(ctx, way=ctx.choose('way', 3))
    where = ctx.choose('where', 4)
    site.call(lambda: site.caches('default').set('foreign', 'f', ('F',)))
    touch = lambda: site.caches('default').get('foreign')
    page = site.page(extra=(lambda request, n: touch()) if where == 0 else None)
    if where == 1:
        site.call(touch)
    if where == 2:      # another page, not cacheable, made of it
        site.get(site.page(extra=lambda request, n: touch(), status=404), path='/other/')
    site.get(page, tags=lambda request: ['P'])
    if where == 3:
        site.call(touch)
    site.call(lambda: site.caches('default').invalidate_tags('F'))
    site.get(page, tags=lambda request: ['P'])
    ctx.check(page.calls == (2 if where == 0 else 1), 'exactly what the page is made of counts')
    ctx.cover('dead' if page.calls == 2 else 'alive')


def locked(ctx):
    """A page made in a snapshot that another transaction makes obsolete is answered, but not kept."""
    site = Site(ctx, way=1 + ctx.choose('way', 2), world=ctx.make_world())
    site.configure(alias='rr')
    other = site.world.session('other')
    source = ctx.choose('source', 3)

    def extra(request, n):
        c = site.caches('rr')
        if source == 1:
            if c.get('part') is None:
                c.set('part', 'p', ('T',))
        elif source == 2:
            request.cache_tagging = set(['T'])
    page = site.page(extra=extra)
    kw = dict(tags=lambda request: ['T']) if source == 0 else {}
    locking = ctx.flag('locking')
    if locking:
        c2 = other.call(site.caches, 'rr')
        other.call(c2.transaction.begin)
        other.call(c2.invalidate_tags, 'T')
    r = site.get(page, **kw)
    ctx.check(r.content == b'page 1', 'answered')
    if locking:
        other.call(c2.transaction.finish)
    site.get(page, **kw)
    ctx.check(page.calls == (2 if locking else 1), 'kept unless locked')
    ctx.cover('refused' if locking else 'kept')


def versions(ctx):
    """Pages and fragments in other caches and other prefixes do not interfere."""
    site = Site(ctx, way=ctx.choose('way', 3))
    site.configure(alias='other', prefix='x')
    page = site.page()
    kw = dict(tags=lambda request: ['T'])
    site.get(page, **kw)
    alias = ctx.choose_of('alias', ['default', 'other', 'third'])
    site.call(lambda: site.caches(alias).invalidate_tags('T'))
    site.get(page, **kw)
    ctx.check(page.calls == (2 if alias == 'other' else 1), 'invalidation concerns its own cache')
    ctx.cover('dead' if page.calls == 2 else 'alive')


BOUNDS = ('pages with symbolic tags from 4 sources; stories of 4 (thorough 5) requests for 1 or 2 variants, changes of 3 tags and lost '
          'fragments, in 3 ways of installing; 7 spellings of Vary')
ASSUMPTIONS = ('page and fragments are kept in the same cache', 'fragments and pages are made by one thread; caches are closed when a request ends',
               'Django\'s own request, response and key functions are trusted')
