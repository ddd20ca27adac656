#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, the bounds of the harnesses, and the planted bugs (tools/caught.json)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Deciding the properties of cache-dependencies by symbolic execution

This file is written by `tools/design.py` (prose there, bounds from `harness/c*.py`, planted bugs from `seeded/`).

## 1. The method
Every property is decided by one technique: path-exhaustive symbolic execution of the repository's own Python source, with z3
deciding each branch and each assertion over all values within the bounds. There is no Python-to-SMT tool which covers what this
code does (dynamic dispatch, closures, generators, thread-locals, `exec`, Django), so the machinery in `sx/` is a symbolic
interpreter in the "proxy value" style, with everything on top of it that a sound verdict needs:

* **Source, not copies.** On every run the modules are read from /repo's working tree, parsed, instrumented at the AST level
  (`sx/instrument.py`) and compiled: calls of builtins implemented in C, `%`, f-strings, `in`, `is`, indexing, comparisons go through
  `sx/runtime.py`, which knows how to do them on symbolic operands. Nothing about the code is transcribed, so refactorings
  need no change in the machinery, and an edit is seen by the next run.
* **Symbolic values** (`sx/values.py`, `sx/smt.py`): integers, booleans, fixed-point clock readings, strings as sequences of symbolic
  characters (each an integer term, lengths fixed per path by a choice that is itself explored exhaustively), digests (md5, sha,
  hash) as injective opaque blocks, random draws. Dictionaries, sets and lists over such keys compare by asking the solver,
  so "these two tags happen to be equal" is a branch, and both sides are explored. `sx/regex.py` matches Python's
  regular expressions (parsed by `sre_parse`) on symbolic strings; `sx/fs.py` is a virtual file system for C27.
* **Branches and assertions.** A branch on a symbolic condition asks z3 which sides are feasible and forks; the
  assertion at its place is put to z3 as *path condition and not assertion*: unsat means that it holds for every value that takes
  this path. A job is exhausted when every feasible path has been executed to its end. What the harness chooses
  (which operation comes next, which form a call takes, which schedule) is an integer variable branched on in the same way, so one
  job covers all programs, schedules and values within its bounds.
* **Replay.** A model of a failed assertion is replayed in a fresh process on the *uninstrumented* modules (`ConcCtx`); only
  a counterexample that fails there as well is printed as VIOLATION, with the replay file; one that does not is an engine error (exit 2).
* **Trace validation.** For a sample of the passing paths the model of the path is executed on the plain modules too, and must
  observe the same results. It is a standing test of the encoding (`traces_validated_against_impl` in the evidence).
* **Environment stubs, constrained by contract** (`sx/world.py`, `sx/backend.py`): the clock reading is a symbolic
  variable that is monotone along happens-before, a random draw lies in its range and large draws are distinct, a timer fires not before its
  interval, each operation of the cache backend is atomic and stores what pickling would (no sharing of objects), expiry
  follows the clock (`ttl='fork'`) or is switched off where it is not the subject. Threads are greenlet-like coroutines; with
  `interleave` every backend operation (C27: file operation) is a scheduling point and every schedule is explored, reduced
  by sleep sets over the conflict relation of the operations (`paths_pruned_by_partial_order`).
* **Evidence**: functions encoded (those of the repository which were entered symbolically), bounds, number of paths, queries, sat/unsat,
  solver time, assertion labels, cover points (a harness that never reaches its cover points is an error, so vacuous passes show).
  Jobs that fix the first choices of a harness to share its work among cores must together cover all of its choices; the runner
  checks it on every run, and `./check CXX --sketch` alone in seconds.

What remains trusted: z3, PyPy's interpreter, the
stub contracts, Django 1.10 where it is not the subject (it runs un-instrumented, or instrumented where symbolic values flow
through it: `sx/djsetup.py`).

Reading the results: `exhaustive: false` in the evidence says that a value had to be made concrete somewhere (`concretisations` lists
where); it is the case for few jobs, in which a C function of Django (integer formatting, `int()`) needs a value.

Seeds and tiers: the checks are deterministic; VERIF_SEED changes only the sample of traces for validation. Quick tiers take 3-50 s on 8
cores, thorough ones up to several minutes.

## 2. What is outside
* The bound of every job: programs longer, keys and texts longer, more threads, than stated. The bounds were chosen so that all of the
  planted bugs, and all defects found, need fewer.
* Wall-clock behaviour of real threads and real processes below the atomicity of a backend operation; the atomicity is the backend's
  contract (memcached, and every Django backend operation on its own, provide it).
* The management command `cache_tagging_bench` (a benchmark), `autodiscover()` (imports modules of installed apps), and the
  hooks for django-phased: they carry no guarantee of their own.
* Hash seeds: Python's own iteration order of sets of plain strings is that of one seed per run (orders of sets of symbolic strings are explored
  as insertion orders only).
'''

ENTRIES = {
'C01': ('flat', '''`harness/flat.py`, shared with C02: a store with two tags, then every program of the bound over set / invalidate / begin / finish / evict / by
two sessions, where each tag used is a fresh symbolic string, so that all patterns of equal and different names are covered by the
solver. The oracle is a model of what each entry was saved under: after the program, each entry is read by each reading operation (`get`,
`get_many`, `get_or_set_callback`), and an assertion says that an entry which lost a tag is missing. The spellings of tags
(arguments, collection, composite) are a choice. Tests sample a handful of fixed tags.'''),
'C02': ('flat', '''The same histories, with the other side of the oracle: no tag lost, not overwritten, not deleted, not evicted implies served with the last
value.'''),
'C03': ('values', '''Values of 14 shapes with symbolic leaves (falsy ones, dicts and tuples that look like the library's packing), native values put into
the backend directly, bulk reads over keys in four states each compared with single reads, get-or-compute with a recording
function. The assertion is equality of trees of terms.'''),
'C04': ('nest', '''`harness/nest.py`: well-nested programs inside of one creation (begin by a missed tracked read, end by set/abort; reads of hits; refused saves
by a lock of another session; failed functions), the oracle being the set of tags by recursion over the tree that the program denotes. Then any
one tag, symbolic again, is invalidated: the outer entry must be gone if the oracle contains it.'''),
'C05': ('nest', '''The same programs with the precise side of the oracle, plus jobs on untracked reads, bulk misses, closing, failing functions, two
threads under every interleaving, and the relation manager alone against a stack over symbolic keys.'''),
'C06': ('versions', '''Versions are symbolic integers or omitted; the effective versions are compared in the assertion, so every coincidence is a
case. Jobs on flat operations, locks, inherited tags and repeated invalidations at the end of a transaction.'''),
'C07': ('tx', '''Sequential programs of a session over every way to open, invalidate and end (`harness/tx.py`), and concurrent ones: one transaction
against one to three saving sessions under every schedule of the backend operations. Assertion at the end of each path: no
entry is served whose save ended (real clock of the model) before the end began, if it has a tag in the set. Stated for saves which ended
before the end began; one which straddles it may survive under READ COMMITTED (design limit of the library).'''),
'C08': ('tx', '''The database is a model with snapshots: a reader's value is the version its snapshot sees (or what a replica lagging by a symbolic
amount up to the delay sees). Writers commit and end their cache transaction; every interleaving of backend operations and every
timing (clock readings symbolic). Assertion: after the writer's end no served value is older than the commit. One known finding,
see section 4.'''),
'C09': ('tx', '''The precise side of locking: programs of a writer and a saver with one fresh tag per operation; the oracle says from
the intervals of the clock whether the save may be refused. Jobs on own locks, crashed sessions (expiry follows the clock),
inherited tags, one locked tag among many.'''),
'C10': ('tx', '''The delay is a symbolic integer; timers are recorded by a stub of `threading.Timer` and fired by the harness in any order, at a clock not earlier
than due. Counted: exactly one repetition per version, after exactly the delay, by a connection of the thread that fires; entries saved before
are gone, after live; nothing pending otherwise.'''),
'C11': ('tx', '''Programs of scopes opened and closed in every way; oracle: a counter of open scopes and the set of invalidated tags; asserts what an
entry saved meanwhile by another session does after each end. Decorators in each spelling with arguments, results, failures.'''),
'C12': ('threads', '''Each operation of each manager by a foreign thread in each state: refused before any backend operation (the stub counts them), and the owner's
state unchanged as observed by what the owner does next. The collection under any order of requests by threads.'''),
'C13': ('defer', '''Requests with symbolic keys put together in every bracketing; oracle: each callback gets what a query of its own would have returned.
Cost: the number of backend calls of each operation for 1 tag/key equals that for 40/20.'''),
'C14': ('composite', '''Parts are tags, empty, or scripted by the harness (any subset invalid or locked); the verdict and the tags in the error must be exactly
those of the failing parts, in every nesting. Merging, copying and re-use with symbolic tags.'''),
'C15': ('versions of tags', '''Any subset of present versions; after the save the present ones are unchanged and the missing ones new. Uniqueness: versions are
made by the repository's function from the stubbed clock, randomness and session id; two draws differ unless the stub's contract allows
them to coincide. Lifetimes with expiry following a symbolic clock.'''),
'C16': ('names', '''Tag names, host names of symbolic characters, process and thread ids symbolic integers: same id iff same triple. Keys made of any tag are checked
character by character for portability. Fork is modelled by a copy of the state under another process id.'''),
'C17': ('adapters', '''A minimal adapter (get, set, delete over cells) under the repository's AbstractCache; each derived operation is compared with what the three
would do key by key. Every character of a symbolic key in `validate_key`.'''),
'C18': ('nocache', '''Secrets, tag names, texts and forged tags are symbolic strings; the handler's regular expression is executed on them by `sx/regex.py`. The
oracle composes the expected text from the blocks the harness wrote. `exec` runs the code of the blocks for real, on instrumented
code. Jobs on nesting, data, failing code, forms of programs, and cached fragments through templates.'''),
'C19': ('web', '''`harness/web.py`: a site of one view with the page cache installed by decorator, one middleware, or two; requests through Django's
own request and response classes. What the view answers (method, status, headers, streaming, time) are choices and symbolic integers. The oracle
is the decision table of the statement; the stub backend shows the timeout and alias with which the page was kept.'''),
'C20': ('web', '''Stories of requests, changes and losses for pages made of fragments, with symbolic tags from four sources; every answer must
show the current data, and a request which nothing has invalidated must not call the view.'''),
'C21': ('templates', '''Templates are generated from programs (open, close, leaf, loop, block, prevention) and compiled by Django; leaves read versioned data and
count; the oracle computes from the tree which fragments an event concerns. Every rendering must show current data, and call exactly the leaves
that had to be made anew. Further jobs on shared collections of tags, timeouts, failures.'''),
'C22': ('web', '''Requests as programs, ended in five ways, against another session which saves; two threads with every order of steps.'''),
'C23': ('settings', '''Every combination of options, judged by what other sessions experience, under every timing.'''),
'C24': ('legacy', '''Every spelling of every call of the compatible interface against the corresponding native call on the model.'''),
'C25': ('signals', '''Django's real signals; every form of function and result; a transaction in each thread.'''),
'C26': ('faults', '''The stub backend fails at the n-th operation, n symbolic by choice, before, after or halfway through the effect (bulk operations are done for a
prefix), once or lasting. The model keeps what may be and what must be served. Death of a session: the generator of its thread is
dropped at an operation; what it left behind is what other sessions find.'''),
'C27': ('files', '''The file-based backend runs on `sx/fs.py`: files with POSIX semantics, where each operation is a scheduling point, may fail, or be the last
one of a dying process; values are pickled by handles, so they stay symbolic, and a torn file shows as one that cannot be unpickled.'''),
'C28': ('names', '''The histories of C01 and C07 again, the sessions being built from modules loaded under the two package names over one store; then each part of the Django
integration of one name is used around each part of the other in one thread, against symbolic tags.'''),
}

TAIL = '''
## 4. Findings
Every defect is listed in `known_findings.txt`: those repaired by a `fix:` commit in /repo (32), and one which is not:

* **C08, overlapping ends** (known, printed as KNOWN-FINDING): the library keeps one released state per tag and session-independent end time. When the ends of two
  transactions that invalidated the same tag overlap (commit A, commit B, finish B, finish A), the state written last wins, though its
  time may be the earlier one. A repair needs a compare-and-set on the backend or one state per session, so a change of the storage
  scheme; it was left.

Limits of the design that are stated as assumptions, not findings, because the documentation claims no more: a save that straddles the end of a READ COMMITTED transaction may
survive; locks of overlapping writers may linger until the tag-state timeout; a page cached in another alias than its fragments does not inherit their
tags; a missed tracked read must be followed by a save or an abort; nested fragments with `nocache=1` keep the inner output.

False alarms of the machinery that were corrected while it was built (the property or the harness was wrong, not the code):
* C23/C09: a transaction which begins and ends in the same reading of the clock is not ordered with another one; the properties now assume that a
  transaction takes some time (clock readings of begin and end differ).
* C20: with a middleware (rather than the decorator) a TemplateResponse is rendered at a different point than the harness first assumed.
* C18: data named `self` and `tpl` collide with the arguments of the handler in Python's call syntax; the assumption excludes them.
* C27: names of temporary files were thought of as visible to everyone; another process cannot guess them, and creation with O_EXCL is private.
* C26: a timer whose invalidation fails is not tried again: the library promises it only "after the delay", and the connection of a timer
  has no caller to report to.

## 5. Planted bugs and which checks catch them
Each was written from the text of the property and the code, kept only if it builds, passes all stable tests, and has a demonstration that
fails with it and passes without. The last column is what the property's own check says of it (quick tier).

%(seeds)s

Planted, but not kept because the repository's tests noticed them: all versions anew on save (C15), a transaction's ends at the instant of its beginning (C09), a savepoint with
a snapshot of its own (C08), inheriting from the current entry instead of its parent (C04), flush ending one scope (C11).

Beyond hand-written bugs, the code was mutated mechanically (%(mutants)s).
'''


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return None
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple):
            names = [getattr(e, 'id', None) for e in n.targets[0].elts]
            if name in names and isinstance(n.value, ast.Tuple):
                return ast.literal_eval(n.value.elts[names.index(name)])
    return None


def bounds(id):
    tree = ast.parse(open(os.path.join(HERE, 'harness', id.lower() + '.py')).read())
    b, a = const(tree, 'BOUNDS'), const(tree, 'ASSUMPTIONS')
    if b is None:
        for n in tree.body:     # shared with another harness
            if isinstance(n, ast.ImportFrom) and any(x.name == 'BOUNDS' for x in n.names):
                return bounds(n.module.split('.')[-1])
    return b, a


def main():
    out = [HEAD, '\n## 3. The properties\nThe statements are in `properties.jsonl`. All are decided by the method of section 1 '
           '(technique and level: MANIFEST.json, `model_checking`, bounded); none is listed as not applicable.\n']
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        kind, text = ENTRIES[p['id']]
        b, a = bounds(p['id'])
        out.append('### %s %s\n%s\n\n*Bounds:* %s.\n\n*Assumed:* %s.\n\n*Beyond tests:* %s\n' % (
            p['id'], p['title'], text, b, '; '.join(a or ()), p['why_tests_cant']))
    seeds = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
    path = os.path.join(HERE, 'tools', 'caught.json')
    caught = json.load(open(path)) if os.path.exists(path) else {}
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, 'yes')))
    mut = os.path.join(HERE, 'tools', 'mutants.txt')
    mutants = open(mut).read().strip() if os.path.exists(mut) else 'see tools'
    out.append(TAIL % dict(seeds='\n'.join(seeds), mutants=mutants))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
