"""The end of a transaction takes everything saved meanwhile under its invalidated tags out of service."""
from harness.common import shards, READ_COMMITTED, REPEATABLE_READ, SERIALIZABLE
from harness.tx import txprogram, concurrent, readers
PROPERTY = 'C07'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        p.setdefault('precise', False)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    seen = ['missed', 'hit']
    job([7], 'txprogram', seen, steps=3)
    job([4], 'txprogram', seen, steps=4, ops=['begin', 'inv', 'save', 'finish'], depth=2)
    job([5], 'txprogram', seen, steps=3, ops=['begin', 'inv', 'deco', 'deco-fail', 'close'], self=True)
    job([5], 'txprogram', seen, steps=3, ops=['begin', 'inv', 'save', 'saveA', 'finish'], level=REPEATABLE_READ)
    job([4], 'txprogram', seen, steps=2, ops=['inv', 'with', 'fail', 'saveA'], level=SERIALIZABLE, self=True,
        apart=True)
    job([5], 'txprogram', seen, steps=3, ops=['begin', 'inv', 'save', 'finish', 'with'], delay=3)
    job([5], 'txprogram', seen, steps=3, ops=['begin', 'inv', 'save', 'finish', 'with'], level=REPEATABLE_READ, delay=3)
    # invalidations of nothing, of the user's own dependencies, of several tags
    job([4], 'txprogram', seen, steps=3, prefix=['begin'], ops=['inv', 'nothing', 'own', 'save'])
    job([4], 'txprogram', seen, steps=3, prefix=['begin'], ops=['inv', 'inv2', 'save', 'save2'])
    for other in ('nothing', 'own'):
        job([], 'txprogram', seen, steps=0, prefix=['begin', other, 'inv', 'save'], wide=2)
        job([], 'txprogram', seen, steps=0, prefix=['begin', 'inv', other, 'inv', 'save'])
    job([2], 'txprogram', seen, steps=2, ops=['fail', 'deco-fail'], failures=True, end=False)
    for delay in (0, 3):
        job([4], 'txprogram', seen, steps=4, ops=['begin', 'inv', 'saveA', 'finish'], level=SERIALIZABLE, delay=delay, depth=2)
    dead = ['dead', 'alive']
    for shape in ('plain', 'tx', 'savepoint'):
        job([2], 'concurrent', dead, shape=shape)
    for level in (REPEATABLE_READ, SERIALIZABLE):
        job([2], 'concurrent', ['dead'], shape='tx', level=level)
    job([2, 3], 'concurrent', dead, shape='tx', savers=2)
    for how in ('get', 'many'):
        job([], 'readers', dead, how=how)
    job([], 'readers', dead, how='get', saver=True)
    if thorough:
        job([7, 7], 'txprogram', seen, steps=5)
        job([5, 5], 'txprogram', seen, steps=5, ops=['begin', 'inv', 'save', 'saveA', 'finish'], level=REPEATABLE_READ)
        job([2, 3], 'concurrent', dead, shape='savepoint', savers=2)
        job([2, 3], 'concurrent', ['dead'], shape='tx', savers=2, level=REPEATABLE_READ)
        job([2, 4, 4], 'concurrent', dead, shape='tx', savers=3)
    return out


BOUNDS = ('one session with up to 3-4 (thorough 5) operations: begin, finish, flush, close, invalidate, with-block, decorated '
          'function, failing block, savepoints to depth 3, with and without a delay, in two cache versions, saves of another session in between; one transaction against one '
          'or two (thorough three) concurrently saving sessions or one reader, every interleaving of backend operations')
ASSUMPTIONS = ('each backend operation is atomic (stub)', 'no transaction outlives the tag-state timeout',
               'a save that straddles the end of the transaction may survive (documented limit of READ COMMITTED)')
