"""The file-based backend: what was stored is read back, in whole or not at all, whatever fails, dies or happens at the same time."""
from harness.common import MISS, Party, shards
PROPERTY = 'C27'
DIR = '/sx-virtual/cache'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    job([2, 5, 7], 'history', ['hit', 'missed'], n=1)
    for pair in ('set-get', 'set-set', 'set-set-get', 'set-delete-get', 'add-set-get', 'set-cull-get'):
        job([], 'schedule', ['hit'], pair=pair)
    job([3], 'lost', ['hit'])
    job([5], 'failure', ['hit', 'failed'])
    job([5], 'crash', ['hit', 'crashed'])
    job([], 'unserialisable', ['refused'])
    job([3], 'tagged', ['hit', 'missed'], n=3)
    if thorough:
        job([2, 5, 7, 2], 'history', ['hit', 'missed'], n=3)
        for pair in ('set-set-get-get', 'set-set-delete-get', 'set-add-cull-get'):
            job([], 'schedule', ['hit'], pair=pair)
        job([5], 'failure', ['hit', 'failed'], more=1)
        job([5], 'crash', ['hit', 'crashed'], more=1)
        job([3, 2, 2], 'tagged', ['hit', 'missed'], n=4)
    return out


class Crash(BaseException):
    """The process dies."""


class Site(object):
    def __init__(self, ctx, before=None, exists=True, **options):
        from sx.fs import FS
        self.ctx = ctx
        self.w = ctx.make_world(ttl='fork')
        self.fs = FS(self.w, before)
        if exists:
            self.fs.dirs.add(DIR)
        self.options = options
        self.n = 0

    def cache(self):
        from django_cache_dependencies.backends import FileBasedCache
        return FileBasedCache(DIR, dict(self.options, OPTIONS=dict(MAX_ENTRIES=self.options.get('entries', 300))))

    def value(self):
        # of different lengths, and of several kinds
        self.n += 1
        return [dict(a=[self.n] * 3), 'v' * self.n, self.n][self.n % 3]

    def settled(self, what='nothing is left behind'):
        """No temporary files, no open descriptors."""
        self.ctx.check(not self.fs.fds, what + ': open files')
        left = [p for p in self.fs.files if not p.endswith('.djcache')]
        self.ctx.check(not left, what, repr(left))

    def threads(self):
        """The culling that was begun happens, in its own thread."""
        ts, self.w.threads = self.w.threads, []
        for t in ts:
            self.w.session('thread').call(t.run)


class Entry(object):
    def __init__(self, value, lo, hi):
        self.value, self.lo, self.hi = value, lo, hi        # expires in [lo, hi], None: never


def store(ctx, site, c, m, key, version, call='set'):
    kind = ctx.choose_of('timeout', ['default', 'none', 'given', 'positional', 'zero'])
    kw, dur = {}, site.options.get('TIMEOUT', 300)
    if kind == 'none':
        kw['timeout'] = None
    elif kind in ('given', 'positional'):
        kw['timeout'] = dur = ctx.int('timeout', -2, 9)
    elif kind == 'zero':
        kw['timeout'] = 0
        dur = -1
    v = site.value()
    a = ()
    if kind == 'positional':
        a = (kw.pop('timeout'),)
    if version is not None:
        kw['version'] = version
    t0 = site.w.now()
    r = getattr(c, call)(key, v, *a, **kw)
    t1 = site.w.now()
    if call == 'add' and r is False:
        return verify(ctx, m, (key, version or 1), True, t0, t1, MISS)
    if call == 'add' and (key, version or 1) in m:
        verify(ctx, m, (key, version or 1), False, t0, t1, MISS)
    if dur is None:
        m[key, version or 1] = Entry(v, None, None)
    else:
        if kind in ('given', 'positional'):
            lo = t0 + dur
            lo = lo if not ctx.possible(ctx.eq(dur, 0)) else lo - 1
            m[key, version or 1] = Entry(v, lo, t1 + dur)
        else:
            m[key, version or 1] = Entry(v, t0 + dur, t1 + dur)


def verify(ctx, m, k, found, t0, t1, value):
    e = m.get(k)
    if found:
        ctx.check(e is not None, 'nobody stored that')
        ctx.check(value == MISS or value == e.value, 'what was stored last is read', repr((value, e.value)))
        ctx.check(True if e.hi is None else t0 <= e.hi, 'expired')
        ctx.cover('hit')
    else:
        if e is not None:
            ctx.check(False if e.lo is None else t1 > e.lo, 'lost before its time')
        ctx.cover('missed')


def history(ctx):
    """Operations of two processes on two keys and versions while time passes."""
    site = Site(ctx, exists=False, TIMEOUT=[300, None][ctx.choose('forever', 2)])
    cs = [site.cache(), site.cache()]
    m = {}
    ops = ['set', 'add', 'delete', 'clear', 'has', 'many', 'set_many']
    # the first operation stores
    for i in range(ctx.p('n') + 1):
        op = 'set' if i == 0 else ops[ctx.choose('op', len(ops))]
        c = cs[0] if i == 0 else cs[ctx.choose('process', 2)]
        key, version = ('a', None) if i == 0 else [('a', None), ('a', 2), ('b', None)][ctx.choose('key', 3)]
        kw = {} if version is None else dict(version=version)
        if op in ('set', 'add'):
            store(ctx, site, c, m, key, version, op)
        elif op == 'delete':
            c.delete(key, **kw)
            m.pop((key, version or 1), None)
        elif op == 'clear':
            c.clear()
            m.clear()
        elif op == 'has':
            t0 = site.w.now()
            r = c.has_key(key, **kw)
            verify(ctx, m, (key, version or 1), r, t0, site.w.now(), MISS)
        elif op == 'many':
            t0 = site.w.now()
            r = c.get_many(['a', 'b'], **kw)
            t1 = site.w.now()
            for k in ('a', 'b'):
                verify(ctx, m, (k, version or 1), k in r, t0, t1, r.get(k, MISS))
        else:
            t0 = site.w.now()
            data = {'a': site.value(), 'b': site.value()}
            c.set_many(data, **kw)
            t1 = site.w.now()
            dur = site.options['TIMEOUT']
            for k in data:
                m[k, version or 1] = Entry(data[k], dur and t0 + dur, dur and t1 + dur)
        site.threads()
        site.settled()
    for k, version in (('a', None), ('a', 2), ('b', None)):
        t0 = site.w.now()
        r = cs[1].get(k, MISS) if version is None else cs[1].get(k, MISS, version)
        verify(ctx, m, (k, version or 1), r != MISS, t0, site.w.now(), r)
    site.settled()


def schedule(ctx):
    """Processes at the same time: whoever reads gets a whole value somebody stored, not older than what it knows of."""
    site = Site(ctx, TIMEOUT=None, entries=1 if 'cull' in ctx.p('pair') else 300)
    c = site.cache()
    old = None
    if ctx.flag('before'):
        old = site.value()
        c.set('a', old)
        site.threads()
    jobs, stored, got = [], [], []

    def writer(call):
        v = site.value()
        stored.append(v)

        def run():
            own = site.cache()
            r = getattr(own, call)('a', v)
            if call == 'set' and len(names) == 2 and not {'delete', 'cull'} & set(names):
                x = own.get('a', MISS)
                ctx.check(x in stored, 'after its own set, a process reads that or newer', repr(x))
        return run

    def reader():
        x = site.cache().get('a', MISS)
        got.append(x)
        ctx.check(x == MISS or x == old or x in stored, 'a whole value', repr(x))
        if x == MISS:
            ctx.check(old is None or 'delete' in names or 'cull' in names, 'the old one is there until the new one is')

    def deleter():
        site.cache().delete('a')

    def culler():
        site.cache()._cull()
    names = ctx.p('pair').split('-')
    for n in names:
        f = dict(set=lambda: writer('set'), add=lambda: writer('add'), get=lambda: reader, delete=lambda: deleter, cull=lambda: culler)[n]()
        jobs.append((site.w.session(n), f))
    site.w.interleave(jobs)
    x = c.get('a', MISS)
    if 'delete' in names or 'cull' in names:
        ctx.check(x == MISS or x == old or x in stored, 'a whole value')
    else:
        ctx.check(x in stored or ('set' not in names and x == old), 'the new one is there')
    site.settled()
    ctx.cover('hit')


def lost(ctx):
    """The directory has been removed under running processes: those which store at the same time both do."""
    site = Site(ctx, TIMEOUT=None)
    keys = [('a', 'a'), ('a', 'b'), ('b', 'a')][ctx.choose('keys', 3)]
    cs = [site.cache(), site.cache()]
    site.fs.dirs.discard(DIR)
    values = [site.value(), site.value()]

    def read(i, c):
        x = c.get(keys[i], MISS)
        ctx.check(x == values[i] or keys[0] == keys[1] and x in values, 'after its own set, a process reads that or newer', repr(x))

    def storing(i):
        def run():
            cs[i].set(keys[i], values[i])
            read(i, cs[i])
        return run
    site.w.interleave([(site.w.session(str(i)), storing(i)) for i in range(2)])
    for i in range(2):
        read(i, cs[1 - i])
    site.threads()
    site.settled()
    ctx.cover('hit')


KINDS = ['set', 'set_many', 'add', 'get', 'delete']


def one(c, kind, v):
    if kind == 'set':
        c.set('a', v)
    elif kind == 'set_many':
        c.set_many({'a': v})
    elif kind == 'add':
        c.add('a', v)
    elif kind == 'get':
        c.get('a', MISS)
    else:
        c.delete('a')


def broken(ctx, crash):
    """-> the hook that lets any operation on files fail, or the process die at it."""
    state = dict(armed=False, down=False, failed=0, once=True)

    def before(op, path):
        if op == 'exists' and not crash:
            return                              # os.path.exists() has no failures
        if state['down']:
            raise Crash() if crash else OSError(28, 'No space left on device')
        if state['armed'] and ctx.flag('fault'):
            state['armed'], state['failed'] = False, 1
            state['down'] = crash or not state['once']
            raise Crash() if crash else OSError(28, 'No space left on device')
    return state, before


def failure(ctx):
    """Any operation on files fails in a set: no exception, the old or the new value stays, nothing is left behind."""
    kind = ctx.choose_of('kind', KINDS)
    state, before = broken(ctx, False)
    site = Site(ctx, before, TIMEOUT=None)
    c = site.cache()
    old = None
    if ctx.flag('before'):
        old = site.value()
        c.set('a', old)
        site.w.threads = []
    v = site.value()
    state['once'] = ctx.flag('once')
    if old is None and ctx.flag('directory lost'):
        site.fs.dirs.discard(DIR)
    state['armed'] = True
    try:
        one(c, kind, v)
    except OSError:
        # Django's own reading and deleting let failures out; storing does not
        ctx.check(state['failed'], 'no failure out of nothing')
        ctx.check(kind not in ('set', 'set_many'), 'a failing set is not the problem of the caller')
    state['armed'] = state['down'] = False
    site.threads()
    if state['failed']:
        ctx.cover('failed')
    if state['once']:
        site.settled()
    x = c.get('a', MISS)
    ctx.check(x == MISS or x == old or x == v, 'a whole value', repr(x))
    if not state['failed'] and kind in ('set', 'set_many'):
        ctx.check(x == v, 'stored')
    if kind != 'delete':
        ctx.check(x != MISS or old is None, 'a failure does not lose the old value')
    w = site.value()
    c.set('a', w)
    ctx.check(c.get('a', MISS) == w, 'afterwards it works')
    ctx.cover('hit')


def crash(ctx):
    """The process dies at any operation on files: others read the old or the new value, and go on."""
    kind = ctx.choose_of('kind', KINDS)
    state, before = broken(ctx, True)
    site = Site(ctx, before, TIMEOUT=None)
    c = site.cache()
    old = None
    if ctx.flag('before'):
        old = site.value()
        c.set('a', old)
        site.w.threads = []
    v = site.value()
    state['armed'] = True
    try:
        one(c, kind, v)
    except Crash:
        ctx.cover('crashed')
    state['armed'] = state['down'] = False
    site.w.threads = []
    site.fs.fds.clear()                         # descriptors die with their process
    c2 = site.cache()
    x = c2.get('a', MISS)
    ctx.check(x == MISS or x == old or x == v, 'a whole value', repr(x))
    if kind != 'delete':
        ctx.check(x != MISS or old is None, 'a crash does not lose the old value')
    if not state['failed'] and kind in ('set', 'set_many'):
        ctx.check(x == v, 'stored')
    w = site.value()
    c2.set('a', w)
    ctx.check(c2.get('a', MISS) == w, 'others go on')
    ctx.cover('hit')


class Unserialisable(Exception):
    pass


class Bad(object):
    def __reduce_ex__(self, proto):
        raise self.__class__.error()


def unserialisable(ctx):
    """A value that cannot be serialised: its failure comes out, the old value stays, nothing is left behind."""
    site = Site(ctx, TIMEOUT=None)
    c = site.cache()
    old = None
    if ctx.flag('before'):
        old = site.value()
        c.set('a', old)
        site.w.threads = []
    Bad.error = [Unserialisable, TypeError, KeyboardInterrupt, OSError][ctx.choose('error', 4)]
    v = [Bad(), [1, Bad()], {'a' * 10: Bad()}][ctx.choose('where', 3)]
    try:
        c.set('a', v)
        ctx.check(Bad.error is OSError, 'the failure comes out')
    except (Unserialisable, TypeError, KeyboardInterrupt) as e:
        ctx.check(type(e) is Bad.error, 'as it is')
    site.threads()
    site.settled()
    x = c.get('a', MISS)
    ctx.check(x == (MISS if old is None else old), 'the old value stays')
    w = site.value()
    c.set('a', w)
    ctx.check(c.get('a', MISS) == w, 'afterwards it works')
    ctx.cover('refused')


def tagged(ctx):
    """The whole of it: tagged entries in files."""
    site = Site(ctx)
    site.w.frozen = True
    cs = []
    for name in 'AB':
        cs.append(Party(site.w, name, legacy=True, backend=site.cache()).cache)
    m = {}
    n = 0
    for i in range(ctx.p('n')):
        c = cs[ctx.choose('process', 2)] if i else cs[0]
        key = 'k%d' % ctx.choose('key', 2) if i else 'k0'
        op = ctx.choose_of('op', ['set', 'inv', 'get'] if i else ['set'])
        if op == 'set':
            tags = [['x'], ['y'], ['x', 'y']][ctx.choose('tags', 3)]
            n += 1
            c.set(key, n, tags)
            m[key] = n, tags
        elif op == 'inv':
            t = 'xy'[ctx.choose('tag', 2)]
            c.invalidate_tags(t)
            m = {k: (v, ts) for k, (v, ts) in m.items() if t not in ts}
        else:
            r = c.get(key, MISS, abort=True)
            if r != MISS:
                ctx.check(key in m and m[key][0] == r, 'not what was invalidated')
        site.threads()
        site.settled()
    for key in ('k0', 'k1'):
        r = cs[1].get(key, MISS, abort=True)
        if r != MISS:
            ctx.check(key in m and m[key][0] == r, 'not what was invalidated, at the end')
            ctx.cover('hit')
        else:
            ctx.cover('missed')


BOUNDS = ('histories of a set and 1 further operation (thorough: 2-3) of set, add, set_many, delete, clear, has_key, get_many on two keys and two versions by two '
          'instances, with default, no, zero and symbolic timeouts in -2..9 while the clock advances; every schedule of the file operations of 2-3 (thorough: 4) '
          'concurrent sets, adds, gets, deletes and cullings of a key; two sets over a directory which is missing; a failure (once or lasting) or crash at every file operation of every kind of call; '
          'tagged entries over it: 3 (thorough: 4) operations of two sessions')
ASSUMPTIONS = ('files are virtual, with POSIX semantics (rename replaces at once, an open file outlives its name)',
               'temporary names are unique and unknown to others',
               'the rest of the backend is the installed Django 1.10, executed on symbolic values as it is; the draw that begins a culling is symbolic in [0,1)',
               'timeout None means the default timeout, as in the signature of set()')
