#!/usr/bin/env python3
"""The properties and how they are decided, in one place: writes properties.jsonl and MANIFEST.json.
The manifest claims every property whose harness exists; the others are listed as not applicable with their reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'cache_dependencies/'
DJ = 'django_cache_dependencies/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, note=None, na=None, state=(), observe=()):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=anchors), note, na))


TAGSTATE = ('tag state', 'acquired/released marks of a tag with session, time and delay', CORE + 'dependencies.py AcquiredTagState, ReleasedTagState')
TAGVER = ('tag versions', 'random version of every tag, in the cache backend', CORE + 'dependencies.py TagsDependency')
NODES = ('pending creations', 'stack of the entries being created by this thread', CORE + 'relations.py RelationManager')

prop('C01', 'An invalidated tag takes every entry carrying it out of service',
     'After a tag has been invalidated, no entry saved with that tag before is served by any reading operation (single, bulk or '
     'get-or-compute), to any session of the store. It stays out of service whatever is invalidated, saved or evicted afterwards, '
     'until it is saved anew. The tags may have been given as arguments, as a collection, or inside composite dependencies.',
     ['inputs', 'histories'], 'every pattern of coincidences of tag names, every sequence of saves, invalidations, evictions and '
     'transaction boundaries up to the bound, by one or two sessions, for every reading operation',
     'The tests invalidate one of a handful of fixed tags right after one save; they cannot cover all tag coincidences, forms of '
     'dependencies and histories.',
     [CORE + 'cache.py', CORE + 'dependencies.py', CORE + 'defer.py', CORE + 'utils.py'],
     [('validation of recorded tag versions on read', CORE + 'dependencies.py TagsDependency.validate'),
      ('deletion of tag versions', CORE + 'dependencies.py TagsDependency.invalidate'),
      ('filtering of bulk reads', CORE + 'cache.py CacheWrapper.get_many')], state=[TAGVER])

prop('C02', 'Invalidation is precise: other entries stay served',
     'An entry that was saved stays served with its last saved value until one of its own tags is invalidated, it is overwritten, '
     'deleted, expired or dropped by the backend. Invalidations of other tags, and saves and reads of other entries which share '
     'some or none of its tags, never turn it into a miss.',
     ['inputs', 'histories'], 'every pattern of coincidences of tag names and every sequence of operations up to the bound, for every '
     'reading operation', 'The tests check a few fixed pairs of tags; a needless miss shows only for particular sequences and bulk sizes.',
     [CORE + 'cache.py', CORE + 'dependencies.py', CORE + 'defer.py', CORE + 'utils.py'],
     [('tag versions are created once and shared', CORE + 'dependencies.py TagsDependency.evaluate'),
      ('comparison of exactly the recorded versions', CORE + 'dependencies.py TagsDependency.validate')], state=[TAGVER])

prop('C03', 'Values come back as stored; computing happens exactly on a miss',
     'Every reading operation returns exactly the last value stored under that key, whatever the value is (false, empty or looking like '
     'the library\'s own packing included), and the given default on a miss; a bulk read returns exactly what single reads would. '
     'Get-or-compute calls the function, with the given arguments, exactly when the entry is missing and stores what it returned under '
     'the given dependency, timeout and version. Values put into the backend by native operations are served unchanged.',
     ['inputs'], 'all values of 14 shapes with symbolic leaves, all keys up to the bound, all timeouts, every mix of present, invalid, '
     'missing and native entries in a bulk read', 'Tests use a few fixed values and keys.',
     [CORE + 'cache.py', CORE + 'tagging.py'],
     [('packing of value and dependency', CORE + 'cache.py CacheWrapper._pack_data, _unpack_data'),
      ('get-or-compute', CORE + 'cache.py CacheWrapper.get_or_set_callback'), ('bulk read', CORE + 'cache.py CacheWrapper.get_many')])

prop('C04', 'An entry depends on everything it was made of, at any depth',
     'An entry carries, besides its own tags, the tags of every entry that was served from cache or saved while it was being created, '
     'at any depth of nesting, also through entries whose saving failed or was refused. Invalidating any of those tags takes it out of '
     'service, although it was never saved with that tag itself.',
     ['programs', 'inputs'], 'every well-nested program of reads, saves, computations, bulk reads, failures and aborts up to the bound, and '
     'every tag invalidated afterwards', 'Tests run two or three fixed nestings of depth two or three.',
     [CORE + 'relations.py', CORE + 'cache.py', CORE + 'dependencies.py'],
     [('propagation to all ancestors', CORE + 'relations.py CacheNode.add_dependency'),
      ('combination of own and inherited dependencies', CORE + 'cache.py CacheWrapper.set'),
      ('merging', CORE + 'dependencies.py CompositeDependency.extend')], state=[NODES])

prop('C05', 'Dependency tracking does not leak beyond the creation it belongs to',
     'An entry inherits nothing from what was read or saved before its creation began, after it was saved, in creations that were aborted '
     'or failed, by reads made with tracking switched off, or by other threads. When the outermost creation is over, aborted or the '
     'session is closed, nothing stays pending, so later entries are unaffected.',
     ['programs', 'schedules'], 'every well-nested program up to the bound, failures of computing functions at any place, every interleaving '
     'of two threads\' creations', 'Tests look at fixed nestings; a leak shows only in entries created later or beside.',
     [CORE + 'relations.py', CORE + 'cache.py', CORE + 'tagging.py'],
     [('stack discipline of pending creations', CORE + 'relations.py RelationManager.pop, current'),
      ('abort on failure', CORE + 'cache.py CacheWrapper.get_or_set_callback'), ('close', CORE + 'cache.py CacheWrapper.close')], state=[NODES])

prop('C06', 'Cache versions are separate worlds',
     'Every operation applies to the cache version it is given (or the default one) only: entries, tags, locks, inherited tags and '
     'the repeated invalidations at the end of a transaction of one version never serve, kill, refuse or tag an entry of another.',
     ['inputs', 'histories'], 'all values of up to four versions, all coincidences among them, omitted versions included',
     'Tests use one or two fixed versions and never mix them across locks, nesting and transactions.',
     [CORE + 'cache.py', CORE + 'dependencies.py', CORE + 'transaction.py', CORE + 'relations.py', CORE + 'tagging.py'],
     [('version passed to every backend operation', CORE + 'dependencies.py'), ('dependencies kept per version', CORE + 'relations.py CacheNode, ' + CORE + 'transaction.py Transaction')])

prop('C07', 'The end of a transaction takes everything saved meanwhile out of service',
     'For every tag invalidated inside a transaction, directly or in its savepoints, no entry under that tag whose save ended before the '
     'end of the outermost transaction began is served after that end, whichever session saved it and however the end comes about '
     '(finish, flush, close, leaving a block or decorated function, normally or by failure; READ COMMITTED and stricter levels). '
     'Entries under other tags stay served.',
     ['programs', 'schedules', 'inputs'], 'every program of transaction operations up to the bound with savepoints and failures, every '
     'interleaving with saving and reading sessions', 'Tests run fixed schedules with sleeps in two threads.',
     [CORE + 'transaction.py', CORE + 'locks.py', CORE + 'cache.py'],
     [('dependencies collected by the transaction', CORE + 'transaction.py Transaction.add_dependency, SavePoint.add_dependency'),
      ('repeated invalidation on release', CORE + 'locks.py ReadCommittedDependencyLock.release')])

prop('C08', 'Snapshot isolation: no entry made from a pre-commit snapshot survives the commit',
     'Under REPEATABLE READ and SERIALIZABLE, when a session computes an entry inside a transaction that began before another session '
     'committed a change and invalidated the entry\'s tag, that entry is not served after the other session\'s transaction has ended. '
     'This holds for every timing of the sessions, for inherited tags, for missing tag versions, and with a replica lagging by up to the '
     'configured delay.', ['schedules', 'inputs', 'programs'], 'every interleaving of the backend operations of a reader and one or two writers, '
     'all clock readings, all sequential programs up to the bound', 'Tests run a few fixed schedules with real sleeps.',
     [CORE + 'dependencies.py', CORE + 'locks.py', CORE + 'transaction.py'],
     [('tag locks', CORE + 'dependencies.py TagsDependency.acquire, release, _get_locked_tags'), ('order of tag version and lock reads', CORE + 'dependencies.py TagsDependency.evaluate')],
     state=[TAGSTATE, TAGVER])

prop('C09', 'Tag locks refuse a save only while they must',
     'A save is refused (silently, the value simply is not cached) only under REPEATABLE READ or SERIALIZABLE and only if another '
     'session\'s transaction invalidated one of its tags and is unfinished, or ended, plus the configured delay, not before the saving '
     'session\'s transaction began; and unless the saving session has invalidated something itself, it is refused then. '
     'A session is never locked by its own invalidations, and no lock outlives the tag state\'s timeout of '
     'seconds, even if its session died.', ['programs', 'schedules', 'inputs'], 'all programs of a writing and a saving session up to the bound, all timings and tag coincidences',
     'Tests check one refused and one allowed save with fixed times.', [CORE + 'dependencies.py', CORE + 'locks.py', CORE + 'transaction.py'],
     [('lock conditions', CORE + 'dependencies.py AcquiredTagState.is_locked, ReleasedTagState.is_locked, is_released'), ('timeouts of states', CORE + 'dependencies.py TagsDependency.acquire, release')],
     state=[TAGSTATE])

prop('C10', 'With a replication delay invalidations are repeated after it, and only then',
     'With a configured delay at READ UNCOMMITTED and READ COMMITTED, the end of the outermost transaction schedules exactly one further '
     'invalidation of everything invalidated in it, per cache version, after exactly that delay, so entries saved in between from a lagging replica die; entries '
     'saved afterwards live. It is done with a cache connection of the thread that does it. Without a delay, and at the stricter levels '
     '(which cover the delay by locking), nothing is scheduled.', ['inputs', 'configurations', 'programs'],
     'every delay, isolation level, way of ending and nesting up to the bound, saves before and after the repetition', 'Tests mock the timer for one delay.',
     [CORE + 'locks.py', DJ + '__init__.py'], [('timer', CORE + 'locks.py ReadUncommittedDependencyLock.release'), ('lock extended by the delay', CORE + 'dependencies.py ReleasedTagState')])

prop('C11', 'Transaction scopes nest; the outermost end settles everything, once',
     'Scopes opened and closed by any mixture of explicit calls, blocks, decorators and flushing nest: the end of an inner scope finishes '
     'nothing, and the outermost end (normal, failing, by flush or close) settles all invalidations made in any of them, also those of '
     'inner scopes that failed. Decorated functions pass arguments, results and failures through. Ending what was not begun is harmless.',
     ['programs', 'inputs'], 'every program of opening, closing, invalidating, saving and failing operations up to the bound, at every '
     'isolation level', 'Tests check a few fixed nestings.',
     [CORE + 'transaction.py', DJ + 'decorators.py', CORE + 'tagging.py'],
     [('stack of scopes', CORE + 'transaction.py TransactionManager'), ('invalidations go to the parent', CORE + 'transaction.py SavePoint.add_dependency'),
      ('decorators', DJ + 'decorators.py cache_transaction, cache_transaction_all')],
     state=[('current scope', 'innermost open transaction of this thread', CORE + 'transaction.py TransactionManager._current')])

prop('C12', 'Per-thread objects are refused to other threads; every thread has its own',
     'Transaction and relation managers of the Django integration, used by a thread other than the creating one, raise an error before '
     'anything was read, stored, invalidated or opened, and the owner goes on undisturbed. The cache collection gives every thread and '
     'alias one instance of its own, over its own backend connection. Transactions, pending creations and settings of one thread are '
     'invisible to the others.', ['schedules', 'programs'], 'every operation of every manager by any of two threads in any order up to the bound',
     'Tests call one method from one foreign thread.', [CORE + 'mixins.py', CORE + 'transaction.py', CORE + 'relations.py', DJ + '__init__.py'],
     [('check of the calling thread', CORE + 'mixins.py ThreadSafeDecoratorMixIn._validate_thread_sharing'),
      ('thread-local collection', DJ + '__init__.py CacheCollection')])

prop('C13', 'Combined requests are answered as if alone, in a fixed number of round trips',
     'Deferred requests put together in any order and nesting each get exactly the entries they asked for of their own query, in reverse '
     'order of addition, each callback called once, failures included; a query is made at most once for all requests with the same '
     'arguments. Reading, bulk reading, saving, invalidating and ending a transaction need a number of backend calls that does not depend '
     'on how many tags and keys are involved.', ['inputs', 'programs'], 'every bracketing of up to 5 requests to 5 queries, every '
     'coincidence of their keys', 'Tests combine two or three fixed requests in one order.',
     [CORE + 'defer.py', CORE + 'dependencies.py', CORE + 'cache.py', CORE + 'utils.py'],
     [('aggregation', CORE + 'defer.py Deferred.__iadd__, GetManyDeferredIterator'), ('aggregation criterion', CORE + 'utils.py to_hashable')])

prop('C14', 'A composite dependency is as valid, locked and comprehensive as all of its parts',
     'A composite dependency, however nested, is invalid (locked) exactly if one of its parts is, the error names exactly the failing '
     'tags, and invalidating, acquiring or releasing it reaches every part; parts may be dependencies of the user\'s own. Extending covers '
     'both dependencies. Copies are independent, and a dependency object given to the cache is not changed by what is done with it.',
     ['inputs', 'programs'], 'every composite of up to 4 parts in 5 nestings, every subset of invalid and locked parts, all coincidences of tags',
     'Tests check composites of two fixed parts.', [CORE + 'dependencies.py', CORE + 'exceptions.py', CORE + 'cache.py'],
     [('composite', CORE + 'dependencies.py CompositeDependency'), ('errors', CORE + 'exceptions.py CompositeDependencyInvalid, CompositeDependencyLocked'),
      ('merging', CORE + 'dependencies.py TagsDependency.extend')])

prop('C15', 'Tag versions are shared while present, created when missing, never used twice',
     'Saving with any set of tags keeps the tag versions which are present (so entries sharing them stay valid) and creates exactly the '
     'missing ones, in the entry\'s cache version. A new tag version differs from every earlier one, whichever session, thread or clock '
     'reading made it, so an entry that lost a tag version to invalidation, eviction or expiry is never served again. Tag versions live '
     'at least a day.', ['inputs', 'histories'], 'every subset of present tag versions, all histories of saves, invalidations and evictions up to the '
     'bound, all clock readings and random draws', 'Tests use real randomness and a handful of tags.',
     [CORE + 'dependencies.py', CORE + 'utils.py'],
     [('creation of missing versions', CORE + 'dependencies.py TagsDependency.evaluate, _make_tag_versions'),
      ('generation', CORE + 'utils.py generate_tag_version')], state=[TAGVER])

prop('C16', 'Tags, tag states, cache versions and sessions are never confused',
     'Two tags are the same exactly if their texts are equal, whatever characters they consist of; the version of a tag, its lock states '
     'and different cache versions are kept apart, under keys portable to memcached. Two sessions have the same id only if host, process '
     'and thread are the same, also in forked processes, so each respects the tag locks of all others and never its own.',
     ['inputs', 'configurations'], 'all tag names, host names, process and thread ids up to the bound', 'Tests use ASCII tags and one process.',
     [CORE + 'utils.py', CORE + 'dependencies.py', CORE + 'transaction.py'],
     [('tag keys', CORE + 'utils.py make_tag_key'), ('session id', CORE + 'utils.py get_thread_id')])

prop('C17', 'Adapters based on AbstractCache behave as documented',
     'For an adapter that provides get, set and delete, the derived operations act exactly as those would key by key: bulk operations, '
     'membership, counting (an absent counter is a ValueError) and moving between versions, for falsy values, any version including 0, and '
     'the given timeouts. Made keys differ exactly if prefix, version or key do. Validation of a key warns, and never raises, exactly if it '
     'is longer than 250 or has spaces or control characters.', ['inputs'], 'all keys, values, counters and versions up to the bound',
     'Tests exercise few of these operations, with fixed values.', [CORE + 'cache.py'], [('derived operations', CORE + 'cache.py AbstractCache')])


prop('C18', 'Uncached code is executed exactly where it is marked with the secret',
     'Handling a text executes the code of each block marked with the secret and the tag of the handler, once, in order, with the data of its start tag '
     'before those of the call, in a namespace of its own, and puts its output in its place, as it does for blocks written by such code. Everything else '
     'stays unchanged, whatever it is, and without the secret nothing in it is executed. In a cached fragment the source is kept and executed at each rendering.',
     ['inputs', 'programs'], 'all secrets, tag names and surrounding or forged texts up to the bound; all programs up to the bound', 'Tests handle one fixed text.',
     [CORE + 'nocache.py', DJ + 'templatetags/cache_tagging_tags.py'],
     [('blocks', CORE + 'nocache.py NoCache'), ('in fragments', DJ + 'templatetags/cache_tagging_tags.py CacheNode.render_fragment')])

prop('C19', 'A page is answered from cache exactly when headers, user and settings allow',
     'A page is kept exactly if the request is GET or HEAD, the response is an unstreamed 200 with a max-age other than 0, caching was not prevented, '
     'and the page is not of an authenticated user under anonymous-only. It is kept for the response\'s max-age, else for the configured time, '
     'under the configured alias and prefix, and answers later requests with equal URL and varying headers, and no others. A cached page equals '
     'the response of the view, headers included, and installing by decorator, by one middleware or by two gives the same decisions.',
     ['inputs', 'configurations'], 'all combinations of method, status, streaming, max-age, session and user state, prevention, settings and way of installing',
     'Tests cover a dozen fixed combinations.', [DJ + 'middleware.py', DJ + 'decorators.py', DJ + 'utils.py'],
     [('decision to keep', DJ + 'middleware.py UpdateCacheMiddleware._should_update_cache, process_response'),
      ('decision to answer', DJ + 'middleware.py FetchFromCacheMiddleware.process_request'), ('keys and varying headers', DJ + 'utils.py learn_cache_key'),
      ('decorator', DJ + 'decorators.py cache_page')])

prop('C20', 'A cached page dies with everything it is made of, and with nothing else',
     'A cached page is made anew exactly after the invalidation of one of: its own tags, tags the view or template added, and the tags of '
     'fragments made or taken from cache while it was made, for every variant of the page and every way of installing. What the thread did before '
     'or after the page, other pages, caches and prefixes do not matter. A page made from what another transaction has locked is answered, but not kept.',
     ['inputs', 'histories'], 'all coincidences of tags from four sources; every sequence of requests, changes and lost fragments up to the bound',
     'Tests cover one page with one tag.', [DJ + 'middleware.py', DJ + 'utils.py', DJ + 'templatetags/cache_tagging_tags.py', CORE + 'relations.py'],
     [('tags of the page', DJ + 'middleware.py UpdateCacheMiddleware.process_response'), ('variants', DJ + 'utils.py learn_cache_key'),
      ('tags of fragments', DJ + 'templatetags/cache_tagging_tags.py CacheNode.render_fragment')])


prop('C21', 'A template fragment is rendered exactly when it must be, and never stale',
     'However fragments, loops, blocks and tags are nested, what a template shows is always made of current data, and a fragment is rendered anew '
     'exactly after it was lost or one of its tags, including tags added inside it and those of fragments in it, was invalidated. Prevention keeps '
     'the fragments around it and the page out of the cache, and no others. Timeouts apply, what is no number is refused, and a failure inside '
     'of a fragment comes out, leaving nothing kept or pending.',
     ['programs', 'histories'], 'all templates up to the bound, with every sequence of invalidations and losses', 'Tests render three fixed templates.',
     [DJ + 'templatetags/cache_tagging_tags.py', CORE + 'relations.py', CORE + 'cache.py'],
     [('fragment', DJ + 'templatetags/cache_tagging_tags.py CacheNode'), ('tags inside', DJ + 'templatetags/cache_tagging_tags.py CacheAddTagsNode'),
      ('prevention', DJ + 'templatetags/cache_tagging_tags.py CacheTaggingPreventNode')])

prop('C22', 'A request is a transaction: its end settles everything and leaves nothing open',
     'TransactionMiddleware runs each request in a transaction of the cache it was given, and however the request ends (response, failure, both, or only '
     'the end-of-request signal), everything invalidated in it is out of service afterwards, with no transaction left open and no creation pending in '
     'any cache of its thread. Responses and failures pass unchanged. Requests in other threads are not concerned.',
     ['histories', 'schedules'], 'all operations in a request up to the bound, all ways to end it, all orders of the steps of two requests',
     'Tests cover one request that is answered and one that fails.', [DJ + 'middleware.py', DJ + '__init__.py', CORE + 'transaction.py'],
     [('request', DJ + 'middleware.py TransactionMiddleware'), ('end of request', DJ + '__init__.py close_caches')])

prop('C23', 'The settings of an alias decide its backend, isolation level and delay',
     'Entries of an alias are kept in the configured backend and shared exactly by aliases of that backend; its level decides which saves are refused and '
     'what the end of a transaction takes out of service, its delay for how long locks hold on or when invalidation is repeated, whatever subset of the '
     'options is given. An unknown level is refused. Each thread has one instance per alias, and `cache` stands for the default one in everything.',
     ['configurations', 'schedules'], 'every combination of options with every timing of the transactions concerned', 'Tests use two fixed configurations.',
     [DJ + '__init__.py', CORE + 'locks.py', CORE + 'cache.py'],
     [('building of caches', DJ + '__init__.py'), ('choice of level', CORE + 'locks.py DependencyLock.make')])

prop('C24', 'In the compatible interface every spelling of a call means what it says',
     'set, get_or_set_callback and invalidate_tags take tags as list, tuple, set or dependency, by position or by name, and without tags mean what the '
     'native calls mean, with the timeout and version given; native operations reach the backend with their arguments and results. The old '
     'transaction names and both decorators, in each spelling, begin and end exactly the scopes they say, also when the function fails.',
     ['inputs', 'programs'], 'all forms of arguments with symbolic tags, timeouts and versions', 'Tests use one spelling each.',
     [CORE + 'tagging.py', CORE + 'mixins.py', DJ + 'decorators.py'],
     [('compatible calls', CORE + 'tagging.py CacheTagging'), ('delegation', CORE + 'mixins.py'), ('decorators', DJ + 'decorators.py')])

prop('C25', 'Changing a registered object invalidates exactly its tags, in its cache',
     'When an object of a registered model is created, saved or deleted, exactly the tags its function returns for it (a string or a collection, possibly '
     'empty) are invalidated, in the cache the registration names, or the default one, and again at the end of the current transaction. '
     'Other models invalidate nothing, several registrations all apply, and a failure of the function comes out, invalidating nothing. '
     'autodiscover() loads the registrations of every installed app that has a caches module, however it is listed, and of no other; one which cannot be loaded is reported.',
     ['inputs', 'histories'], 'all forms of registration and results with symbolic tags; all sequences of events of three models', 'Tests use one model and one event.',
     [DJ + '__init__.py'], [('registration', DJ + '__init__.py CacheRegistry')])


prop('C26', 'A failing backend or a dying session leaves nothing stale and nothing pending',
     'If any operation of the backend fails, before, after or halfway through its effect, the failure comes out of the call, and from then on nothing that a '
     'completed invalidation took out is served, entries still die with their tags, and an invalidation which failed in a transaction is made up at its end. '
     'A transaction whose end failed stays open until it is ended again, which settles everything. Nothing stays pending, and the other caches of the thread '
     'are closed at the end of the request all the same.',
     ['fault_sequences', 'crash_points', 'histories'], 'a failure at every operation of every kind of call, in any of three forms, once or lasting, at every level and depth',
     'The test backend never fails.', [CORE + 'cache.py', CORE + 'transaction.py', CORE + 'dependencies.py', DJ + '__init__.py'],
     [('reads', CORE + 'cache.py CacheWrapper.get, get_many'), ('scopes', CORE + 'transaction.py SavePoint, Transaction'), ('closing', DJ + '__init__.py close_caches')])

prop('C27', 'The file-based backend stores values whole or not at all, and finds them again',
     'A value stored in FileBasedCache is read back, by any process, under its key and version until its timeout and not after. Whoever reads while others store, '
     'delete or cull, or after a process died or a file operation failed at any point of a set, gets a whole value somebody stored, the old one or the new one, '
     'and no error. A failed set leaves no temporary or open file behind and is not the problem of the caller, unless its value cannot be serialised.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'all schedules of the file operations of concurrent calls, a failure or crash at each, all timeouts and clocks up to the bound',
     'No test uses it.', [DJ + 'backends.py'],
     [('storing', DJ + 'backends.py FileBasedCache.set')])

prop('C28', 'The deprecated package names work with the same caches',
     'Code which imports from cache_tagging or cache_tagging.django_cache_tagging works together with code which imports from cache_dependencies and '
     'django_cache_dependencies, in one thread or in different processes: caches, transactions, registered models, pages, fragments, uncached code and the '
     'end of the request are the same, so what is saved, locked or kept through either name dies with what is invalidated through the other, and with nothing else.',
     ['inputs', 'histories'], 'all histories of sessions of either name with symbolic tags; every pairing of the names in the parts of one thread',
     'No test imports the deprecated names.', ['cache_tagging/__init__.py', 'cache_tagging/django_cache_tagging/__init__.py', CORE + 'dependencies.py'],
     [('old names', 'cache_tagging/__init__.py __path__'), ('handles', 'cache_tagging/django_cache_tagging/__init__.py')])

#MORE


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, note, na in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, nas = [], []
    for p, note, na in PROPS:
        pid = p['id']
        if na is None and not os.path.exists(os.path.join(HERE, 'harness', pid.lower() + '.py')):
            na = 'no check built yet'
        if na is not None:
            nas.append(dict(property=pid, reason=na))
            continue
        checks.append(dict(
            property=pid, quick_cmd='./check %s --tier quick' % pid, thorough_cmd='./check %s --tier thorough' % pid,
            technique='solver-based checking: path-exhaustive symbolic execution of the repository\'s Python source (reinstrumented '
                      'on every run) with z3 deciding branches and assertions; counterexamples replayed on the plain modules',
            level='model_checking',
            level_note=note or 'bounded: holds for all values, schedules and programs within the bounds printed in the evidence; backend, clock, '
                               'randomness and timers are stubs constrained by their contracts'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=nas), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
