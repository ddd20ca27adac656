"""A request is a transaction: however it ends, everything is settled and nothing is left open or pending."""
from harness.common import shards, MISS
from harness.flat import Model, names
PROPERTY = 'C22'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    seen = ['missed', 'hit']
    job([3, 6], 'requests', seen, steps=2)
    job([6], 'requests', seen, steps=4 if thorough else 2, alias='other')
    job([4], 'wrapped', ['answered', 'failed'])
    job([2], 'finished', ['closed'])
    job([], 'threads', ['separate'])
    if thorough:
        job([3, 6, 6], 'requests', seen, steps=4)
    return out


class Boom(Exception):
    """A failure that carries a response, as some frameworks have them."""
    status_code = 403

    def __init__(self):
        from django.http import HttpResponse
        self.response = HttpResponse('failed', status=403)

    def render(self):
        return self.response


def requests(ctx):
    """Requests of one thread, with another one saving meanwhile: the end of the request, however it comes, settles all."""
    from django_cache_dependencies import caches, close_caches
    from django_cache_dependencies.middleware import TransactionMiddleware
    from django.core import signals
    from django.test import RequestFactory
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    alias = ctx.p('alias', 'default')
    m = Model(ctx)
    if alias == 'default':
        mw = A.call(TransactionMiddleware) if ctx.p('plain') else A.call(lambda: TransactionMiddleware(cache_alias=ctx.choose_of('given', [None, 'default'])))
    else:
        mw = A.call(lambda: TransactionMiddleware(cache_alias=alias))
    request = RequestFactory().get('/')
    pend = []
    c = lambda: caches[alias]

    def save(session, key):
        tags = names(ctx, 1)
        v = m.put(key, None, tags)
        session.call(lambda: c().set(key, v, tags))
    save(B, 'k0')
    ctx.check(A.call(mw.process_request, request) is None, 'the view is called')
    ctx.check(bool(A.call(lambda: c().transaction.current())), 'in a transaction')
    ctx.check(not A.call(lambda: caches['third'].transaction.current()), 'of its own cache')
    for i in range(ctx.p('steps')):
        op = ctx.choose_of('op', ['inv', 'save', 'saveA', 'begin', 'block', 'pending'])
        if op == 'inv':
            tags = names(ctx, 1)
            A.call(lambda: c().invalidate_tags(*tags))
            m.kill(tags, None)
            pend.append(tags)
        elif op == 'save':
            save(B, 'k1')
        elif op == 'saveA':
            save(A, 'k1')
        elif op == 'begin':                 # and never finished
            A.call(lambda: c().transaction.begin())
        elif op == 'block':
            tags = names(ctx, 1)

            def block():
                with c().transaction:
                    c().invalidate_tags(*tags)
            A.call(block)
            m.kill(tags, None)
            pend.append(tags)
        else:                               # a creation that is given up
            A.call(lambda: c().get('never'))
    end = ctx.choose_of('end', ['response', 'exception', 'both', 'finished', 'closed'])
    response = object()
    if end in ('exception', 'both'):
        ctx.check(A.call(mw.process_exception, request, Boom()) is None, 'the failure is left to others')
    if end in ('response', 'both'):
        ctx.check(A.call(mw.process_response, request, response) is response, 'the response is passed on')
    if end == 'finished':
        A.call(lambda: signals.request_finished.send(sender=None))
    elif end == 'closed':
        A.call(close_caches)
    for tags in pend:
        m.kill(tags, None)
    ctx.check(not A.call(lambda: c().transaction.current()), 'no transaction is left open')
    A.call(close_caches)
    ctx.check(not A.call(lambda: c().relation_manager.current()), 'nothing is left pending')
    for k in ('k0', 'k1'):
        r = B.call(lambda: c().get(k, MISS, abort=True))
        m.verify(k, None, r, 'after the request')


def wrapped(ctx):
    """The middleware around a view, answers and failures, in requests one after another."""
    from django_cache_dependencies import caches
    from django_cache_dependencies.middleware import TransactionMiddleware
    from django.core.handlers.exception import convert_exception_to_response
    from django.http import HttpResponse, Http404, StreamingHttpResponse
    from django.test import RequestFactory
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    c = lambda: caches['default']

    def view(request):
        c().invalidate_tags('T')
        B.call(lambda: c().set('stale', 1, ['T']))
        if nested:
            c().transaction.begin()
        if kind == 1:
            raise Http404()
        if kind == 2:
            return HttpResponse('error', status=500)
        if kind == 3:
            return StreamingHttpResponse(iter(['fi', 'ne']))
        return HttpResponse('fine')
    handler = A.call(lambda: TransactionMiddleware(convert_exception_to_response(view)))
    for i in range(2):
        kind, nested = ctx.choose('kind', 4), ctx.flag('nested')
        r = A.call(handler, RequestFactory().get('/'))
        ctx.check(r.status_code == (200, 404, 500, 200)[kind], 'the response is passed on')
        ctx.check(not A.call(lambda: c().transaction.current()), 'no transaction is left open')
        ctx.check(B.call(lambda: c().get('stale', abort=True)) is None, 'settled')
        ctx.cover('failed' if kind in (1, 2) else 'answered')


def finished(ctx):
    """The end of a request closes all caches of its thread, and of no other."""
    from django_cache_dependencies import caches
    from django.core import signals
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    used = [a for a in ('default', 'other', 'rr') if ctx.flag('use')]
    if ctx.flag('many'):
        used += ['third', 'ru', 'rc', 'ser', 'fourth']
    pending = ctx.flag('pending')
    for s in (A, B):
        for a in used:
            s.call(lambda: caches[a].transaction.begin())
            s.call(lambda: caches[a].invalidate_tags('T'))
            if pending:
                s.call(lambda: caches[a].get('key-of-%s' % a))
    A.call(lambda: signals.request_finished.send(sender=None))
    for a in used:
        ctx.check(not A.call(lambda: caches[a].transaction.current()), 'closed')
        ctx.check(not A.call(lambda: caches[a].relation_manager.current()), 'closed')
        ctx.check(bool(B.call(lambda: caches[a].transaction.current())), 'the other thread goes on')
        ctx.check(bool(B.call(lambda: caches[a].relation_manager.current())) == pending, 'the other thread goes on')
        B.call(lambda: caches[a].transaction.flush())
    ctx.cover('closed')


def threads(ctx):
    """Requests in two threads at once, each step in any order."""
    from django_cache_dependencies import caches
    from django_cache_dependencies.middleware import TransactionMiddleware
    from django.test import RequestFactory
    w = ctx.make_world(frozen=True)
    S = [w.session('A'), w.session('B')]
    mw = TransactionMiddleware()            # one object for all threads, as in Django
    request = RequestFactory().get('/')
    c = lambda: caches['default']
    steps = [0, 0]
    alive = {}
    while min(steps) < 4:
        i = ctx.pick('who', [x for x in (0, 1) if steps[x] < 4])
        s, n = S[i], steps[i]
        if n == 0:
            s.call(mw.process_request, request)
        elif n == 1:
            s.call(lambda: c().invalidate_tags('t%d' % i))
            alive.pop(1 - i, None)
        elif n == 2:
            s.call(lambda: c().set('k%d' % i, i, ['t%d' % (1 - i)]))
            alive[i] = True
        else:
            s.call(mw.process_response, request, None)
            alive.pop(1 - i, None)
        steps[i] += 1
        for j in (0, 1):
            ctx.check(bool(S[j].call(lambda: c().transaction.current())) == (0 < steps[j] < 4), 'each thread has its own transaction')
            r = S[j].call(lambda: c().get('k%d' % j, MISS, abort=True))
            ctx.check((r == j) == (j in alive), 'each settles its own, at its end', lambda: repr((steps, j, r)))
    ctx.cover('separate')


BOUNDS = ('requests of 2 (thorough 4) operations of 6 kinds ended in 5 ways; 2 wrapped requests; every order of the steps of 2 requests in 2 threads')
ASSUMPTIONS = ("Django's handlers turn failures of the view into responses", 'backend operations honour the cache API (stub)')
