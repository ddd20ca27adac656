"""Which pages are cached: exactly the cacheable ones, for the right time, and served instead of calling the view."""
from harness.common import shards
from harness.web import Site
PROPERTY = 'C19'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    job([3, 4], 'decide', ['cached', 'not cached'])
    job([3, 6], 'users', ['cached', 'not cached'])
    job([3], 'timeouts', ['cached', 'not cached'])
    job([3, 2], 'methods', ['served', 'called'], steps=4 if thorough else 3)
    job([8], 'spellings', ['served'])
    job([3], 'addresses', ['served', 'called'])
    job([3], 'headers', ['left alone'])
    job([3], 'prevention', ['prevented', 'cached'])
    job([], 'aliases', ['stored'])
    return out


def decide(ctx):
    """Method, status, streaming, max-age, configured time: a second request calls the view again exactly if any forbids caching."""
    site = Site(ctx, way=ctx.choose('way', 3))
    method = ctx.choose_of('method', ['GET', 'HEAD', 'POST', 'PUT'])
    status = ctx.choose_of('status', [200, 201, 404, 301, 304, 500])
    streaming = ctx.flag('streaming')
    max_age = ctx.choose_of('max-age', [None, 0, 5])
    timeout = ctx.choose_of('timeout', [600, 0, 7])
    site.configure(timeout=timeout)
    page = site.page(status=status, streaming=streaming, max_age=max_age)
    r1 = site.get(page, method=method)
    n = len(site.stored())
    r2 = site.get(page, method=method)
    effective = timeout if max_age is None else max_age
    cacheable = method in ('GET', 'HEAD') and status == 200 and not streaming and effective != 0
    ctx.check(page.calls == (1 if cacheable else 2), 'the view is called again exactly if its page may not be cached',
              lambda: repr((method, status, streaming, max_age, timeout, page.calls)))
    ctx.check((n > 0) == cacheable, 'nothing is stored of other pages')
    ctx.check(r1.status_code == status and r2.status_code == status, 'the answer is the view\'s')
    if not streaming and method != 'HEAD':
        ctx.check(r1.content == b'page 1', 'the answer is the view\'s')
        ctx.check(r2.content == (b'page 1' if cacheable else b'page 2'), 'the cached page or a new one')
    if cacheable:
        ctx.check(all(t == effective for t in site.timeouts()), 'for the time the page or the settings say', lambda: repr(site.timeouts()))
        ctx.cover('cached')
    else:
        ctx.cover('not cached')


def users(ctx):
    """With anonymous-only caching, pages for logged-in users are not cached if the session was used."""
    site = Site(ctx, way=ctx.choose('way', 3))
    case = ctx.choose('case', 6)
    anonymous_only = case < 4
    accessed = case in (0, 1, 4)
    authenticated = case in (0, 2, 4)
    session = not ctx.flag('no session')
    kw = {}
    if site.way == 1 and ctx.flag('given'):      # to the middleware itself, which comes before the settings
        kw = dict(cache_anonymous_only=anonymous_only)
        site.configure(anonymous_only=not anonymous_only)
    else:
        site.configure(anonymous_only=anonymous_only)
    page = site.page(session=session, accessed=accessed, authenticated=authenticated)
    site.get(page, **kw)
    site.get(page, **kw)
    cacheable = not (anonymous_only and session and accessed and authenticated)
    ctx.check(page.calls == (1 if cacheable else 2), 'not cached exactly for logged-in users of used sessions')
    ctx.cover('cached' if cacheable else 'not cached')


def timeouts(ctx):
    """Any configured time and any max-age: stored for exactly that long; max-age wins, and 0 means not at all."""
    site = Site(ctx, way=ctx.choose('way', 3))
    timeout = ctx.int('timeout', -1, 10 ** 6)
    site.configure(timeout=timeout)
    late = {}
    if ctx.flag('late'):        # rendered after the view
        from django.template import engines
        from django.template.response import TemplateResponse
        late = dict(template=lambda request, text: TemplateResponse(request, engines['django'].from_string('{{ text }}'), {'text': text}))
    if ctx.flag('max-age'):
        n = ctx.choose('n', 40)
        value = [0, 1, 59, 3600][n] if n < 4 else n
        page = site.page(cache_control=ctx.choose_of('form', ['max-age=%d', 'public, max-age=%d', 'Max-Age=%d,must-revalidate', 'private,max-age=%d'])
                         % value, **late)
        effective = value
    else:
        form = ctx.choose_of('form', [None, 'public', 'max-age=abc', 's-maxage=9'])
        page = site.page(cache_control=form, **late)
        effective = timeout
    site.get(page)
    stored = site.timeouts()
    if not stored:
        ctx.check(ctx.eq(effective, 0), 'stored unless the time is 0')
        ctx.cover('not cached')
    else:
        ctx.check(ctx.land(*[ctx.eq(t, effective) for t in stored]), 'for the time said', lambda: repr((stored, effective)))
        ctx.check(ctx.lnot(ctx.eq(effective, 0)), 'not stored if the time is 0')
        ctx.cover('cached')


def methods(ctx):
    """Sequences of GET, HEAD and POST requests: a GET is never answered by what was made for a HEAD, nor anything by a POST."""
    site = Site(ctx, way=ctx.choose('way', 3))
    if ctx.flag('prefix'):
        site.configure(prefix='site')
    page = site.page()
    made = set()
    for i in range(ctx.p('steps')):
        m = ctx.choose_of('method', ['GET', 'HEAD', 'POST'] if i else ['GET', 'HEAD'])
        before, kept = page.calls, site._entries('default')
        r = site.get(page, method=m)
        called = page.calls > before
        ctx.check((m != 'POST' and called) or site._entries('default') == kept, 'only what a view has answered is stored')
        if m == 'GET':
            ctx.check(called == ('GET' not in made), 'a GET is answered by a page made for GET')
        elif m == 'HEAD':
            ctx.check(called == (not made), 'a HEAD is answered by any')
        else:
            ctx.check(called, 'a POST is always let through')
        if called:
            if m != 'POST':
                made.add(m)
            ctx.check(r.content == b'page %d' % page.calls, 'the new answer')
            ctx.cover('called')
        else:
            ctx.check(r.method_made in made, 'an earlier answer')
            ctx.cover('served')


def spellings(ctx):
    """All documented ways of writing the decorator."""
    site = Site(ctx, way=0)
    from django_cache_dependencies.decorators import cache_page
    spelling = ctx.choose('spelling', 8)
    alias = ctx.choose_of('alias', [None, 'other'])
    prefix = ctx.choose_of('prefix', [None, 'pre', ''])
    tags = ctx.flag('tags')
    page = site.page()
    kw = {}
    if ctx.flag('elsewhere'):       # the settings are for the middleware, not for the decorator
        site.configure(prefix='site', alias='rr')
    if alias:
        kw['cache'] = alias
    if prefix is not None:
        kw['key_prefix'] = prefix
    if tags:
        kw['tags'] = lambda request: ['T']
    timeout = 33
    view = page.view
    from django.test.utils import override_settings
    with override_settings(**site.settings):
        if spelling == 0:
            f = cache_page(33, **kw)(view)
        elif spelling == 1:
            f = cache_page(view, 33, **kw)
        elif spelling == 2:
            f = cache_page(33, view, **kw)
        elif spelling == 3:
            f, timeout = cache_page(view, **kw), 600
        elif spelling == 4:
            f, timeout = cache_page(**kw)(view), 600
        elif spelling == 5:
            f, timeout = cache_page(**dict(kw, tags=lambda request: [] if not tags else ['T']))(view), 600
        elif spelling == 6:
            f = cache_page(33, **dict(kw, tags=lambda request: ('T',) if tags else ()))(view)
        else:
            f, timeout = cache_page(0, **kw)(view), 0
    r1 = site.request(f)
    r2 = site.request(f)
    if timeout == 0:
        ctx.check(page.calls == 2, 'no time, no caching')
        return
    ctx.check(page.calls == 1 and r2.content == r1.content == b'page 1', 'cached')
    ctx.check(site.timeouts(alias or 'default') and all(t == timeout for t in site.timeouts(alias or 'default')), 'for the given time, in the given cache')
    ctx.check(not site.timeouts('other' if not alias else 'default') and not site.timeouts('rr'), 'in the given cache only')
    ctx.check(not any('site' in k.split('testserver')[0] for k in site.stored(alias or 'default')), 'under the given prefix')
    if prefix:
        ctx.check(all(prefix in k for k in site.stored(alias or 'default')), 'under the given prefix')
    site.call(lambda: site.caches(alias or 'default').invalidate_tags('T'))
    site.request(f)
    ctx.check(page.calls == (2 if tags else 1), 'with the given tags')
    ctx.cover('served')


def addresses(ctx):
    """Pages of different addresses are different pages, queries included."""
    site = Site(ctx, way=ctx.choose('way', 3))
    urls = ['/a/', '/b/', '/a/?x=1', '/a/?x=2', '/a/?x=1&y=2', '/A/']
    page = site.page()
    seen = {}
    for i in range(3):
        u = ctx.choose_of('url', urls)
        host = ctx.choose_of('host', ['testserver', 'other.example.com']) if i < 2 else 'testserver'
        before = page.calls
        r = site.get(page, path=u, host=host)
        ctx.check((page.calls > before) == ((u, host) not in seen), 'the view is called once per address')
        if (u, host) in seen:
            ctx.check(r.content == seen[u, host], 'every address has its own page')
            ctx.cover('served')
        else:
            seen[u, host] = r.content
            ctx.cover('called')


def headers(ctx):
    """Caching tells nobody downstream to keep the page: tags may be invalidated any time."""
    site = Site(ctx, way=ctx.choose('way', 3))
    etags = ctx.flag('etags')
    site.configure(etags=etags)
    own = ctx.choose_of('own', [{}, {'ETag': '"mine"'}, {'Expires': 'never', 'Cache-Control': 'max-age=9'}, {'Last-Modified': 'once'}])
    page = site.page(headers=own)
    r1 = site.get(page)
    r2 = site.get(page)
    ctx.check(page.calls == 1, 'cached')
    for r in (r1, r2):
        for h in ('Expires', 'Last-Modified', 'Cache-Control'):
            ctx.check(r.get(h) == own.get(h), 'no header about keeping the page is added or changed', lambda: repr((h, r.get(h))))
        if 'ETag' in own:
            ctx.check(r['ETag'] == '"mine"', 'the page\'s own tag stays')
        else:
            ctx.check(r.has_header('ETag') == etags, 'an entity tag exactly if configured')
    ctx.check(r1.get('ETag') == r2.get('ETag'), 'the same for the cached page')
    ctx.cover('left alone')


def prevention(ctx):
    """A view may prevent the caching of its page; that concerns this request only."""
    site = Site(ctx, way=ctx.choose('way', 3))
    how = ctx.choose('how', 2)
    tagged = ctx.flag('tagged')         # the view has added tags, too
    from django_cache_dependencies.utils import prevent_cache_page
    when = [ctx.flag('prevent') for _ in range(3)]

    def extra(request, n):
        if tagged:
            request.cache_tagging = set(['T'])
        if when[n - 1]:
            if how:
                prevent_cache_page(request)
            else:
                request._cache_update_cache = False
    page = site.page(extra=extra)
    for i in range(3):
        before = page.calls
        site.get(page)
        was_cached = any(not when[j] for j in range(min(before, 3)))
        ctx.check((page.calls > before) == (not was_cached), 'cached by the first request that does not prevent it')
    ctx.cover('prevented' if when[0] else 'cached')


def aliases(ctx):
    """Pages are kept in the configured cache, under the configured prefix."""
    way = ctx.choose('way', 2) + 1
    site = Site(ctx, way=way)
    alias = ctx.choose_of('alias', ['default', 'other', 'rr'])
    prefix = ctx.choose_of('prefix', ['', 'site-1', 'site-2'])
    site.configure(alias=alias, prefix=prefix)
    page = site.page()
    site.get(page)
    site.get(page)
    ctx.check(page.calls == 1, 'cached')
    ctx.check(site.stored(alias) and all(prefix in k for k in site.stored(alias)), 'in the configured cache, with the prefix')
    ctx.check(all(not site.stored(a) for a in ('default', 'other', 'rr') if a != alias), 'and no other')
    site.configure(alias=alias, prefix='site-2' if prefix != 'site-2' else 'site-1')
    site.get(page)
    ctx.check(page.calls == 2, 'prefixes keep sites apart')
    ctx.cover('stored')


BOUNDS = ('every combination of 4 methods, 6 statuses, streaming, 3 max-ages, 3 configured times and 3 ways of installing; any configured '
          'time; sequences of 3 (thorough 4) requests; 6 addresses on 2 hosts')
ASSUMPTIONS = ('Django\'s own request, response and key functions are trusted', 'one request at a time per thread')
