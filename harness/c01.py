"""An invalidated tag takes every entry that carries it out of service, in every history."""
from harness.common import shards
from harness.flat import history, wide, many_keys, beside
PROPERTY = 'C01'
SIDE = dict(precise=False)


def plan(tier, side):
    """Jobs of the flat histories, for the sound side (C01) or the precise side (C02)."""
    out = []

    def job(sizes, covers=('hit', 'missed'), fn='history', **p):
        p.update(side)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=list(covers)))
    # first choices: [form,] [how,] party, op, ...
    job([3], fn='wide', covers=['wide'], n=130, few=True)
    job([4, 4], steps=2, parties=1)
    job([2, 4], steps=2, how='get', every=False)
    job([7], steps=1, forms=True, parties=1, kinds=['set1', 'inv1', 'inv2', 'set0'])
    job([3, 3], steps=3, parties=1, how='get', every=False, kinds=['set0', 'set1', 'inv1'])
    job([4], steps=3, parties=1, how='many', every=False, kinds=['inv1', 'set1', 'begin', 'finish'])
    job([6], fn='many_keys', covers=['bulk'], n=110, few=True)
    job([], steps=1, parties=1, ntags=3, kinds=['set1', 'inv1'])
    job([2], steps=1, parties=1, how='get', lengths=2, kinds=['set1', 'inv1', 'inv2'])
    job([5], steps=3, parties=1, how='get', every=False, first_tx=2, depth=3, ntags0=1, kinds=['set0', 'inv1', 'begin', 'finish', 'set1'])
    job([2], fn='beside', before=1)
    if side.get('precise') is False:
        # evictions may only lose entries; and under snapshot levels entries may be refused
        job([5], steps=2, parties=1, how='get', kinds=['evict', 'inv1', 'set0', 'set1', 'inv2'])
        job([2, 4], steps=2, how='get', clock=True, level='REPEATABLE READ', every=False,
            kinds=['inv1', 'set0', 'begin', 'finish'])
        job([2, 4], steps=2, how='get', clock=True, level='SERIALIZABLE', every=False, first_tx=1,
            kinds=['inv1', 'set0', 'begin', 'finish'])
    if tier == 'thorough':
        job([4, 2, 4], steps=3)
        job([2, 4, 2, 4], steps=4, how='get', every=False)
        job([4, 4, 4], steps=5, parties=1, how='many', every=False, ntags=1)
        job([7, 2, 4], steps=2, forms=True, how='many+')
        job([3], fn='wide', covers=['wide'], n=41)
        job([], fn='wide', covers=['wide'], n=201)
        job([6], fn='many_keys', covers=['bulk'], n=25)
        job([2], fn='beside', before=2)
        job([], fn='many_keys', covers=['bulk'], n=120)
    return out


def jobs(tier):
    return plan(tier, SIDE)


BOUNDS = ('histories of one store with two tags followed by up to 3 operations (set with one fresh tag / invalidate one or '
          'two fresh tags / begin / finish / eviction) by up to two sessions on two keys, all tag-name coincidences; '
          'one wide case of 130 tags and one bulk read of 110 keys, with a victim around usual sizes of batches; saves of one session next to an invalidation by another in every interleaving; thorough: up to 5 operations, 200 tags, 120 keys')
ASSUMPTIONS = ('backend operations honour the cache API (stub); 64-bit random draws are pairwise distinct; digests collide '
               'only for equal texts; no transaction outlives the tag-state timeout',)
