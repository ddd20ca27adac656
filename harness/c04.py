"""An entry depends on everything it was made of, at any depth."""
from harness.common import shards
from harness.nest import program, chain, wide, refused, MORE
PROPERTY = 'C04'
BOTH = ['died', 'survived']


def plan(tier, side):
    out = []

    def job(sizes, fn='program', covers=BOTH, **p):
        p.update(side)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers))
    job([3], fn='wide', n=55, few=True)
    job([], fn='chain', chain=6)
    job([3], fn='refused')
    job([9], steps=3, depth=4)
    job([6], steps=3, depth=3, hows=True, ops=['begin', 'set', 'hit', 'hit-last', 'abort', 'bulk'])
    job([5], steps=4, depth=4, ops=['begin', 'set', 'hit', 'fail', 'bulk'])
    job([], steps=2, depth=3, inside=False, prefix=['begin', 'hit', 'set-plain', 'begin'],
        ops=['hit-last', 'compute-hit', 'bulk', 'set-plain', 'fail', 'begin'])
    job([], steps=2, depth=3, prefix=['begin', 'hit'], ops=['close', 'set', 'set-plain', 'hit', 'begin', 'abort'])
    job([], steps=3, depth=3, prefix=['begin', 'begin'], inside=False, ops=['set-outer', 'abort-outer', 'hit', 'set'])
    job([], steps=2, depth=4, prefix=['begin', 'begin', 'hit', 'set-outer'], inside=False, ops=['hit', 'hit-last', 'begin', 'bulk', 'compute-hit', 'fail'])
    if tier == 'thorough':
        job([6], steps=5, depth=4, prefix=['begin', 'begin'], ops=['set-outer', 'abort-outer', 'hit', 'set', 'begin', 'hit-last'])
        job([9, 9], steps=5, depth=5)
        job([11], steps=4, depth=3, ops=MORE)
        job([11], steps=4, depth=3, inside=False, ops=MORE)
        job([9, 9], steps=4, depth=5, hows=True)
        job([], fn='chain', chain=20)
        job([3], fn='wide', n=12)
        job([3], fn='wide', n=60)
    return out


def jobs(tier):
    return plan(tier, dict(precise=False))


BOUNDS = ('programs of 3-4 (thorough 5) operations of 9 kinds inside one creation, depth up to 4 (thorough 5; chains '
          'of 6, thorough 20; creations ended out of order; 55, thorough 60 descendants), followed by the invalidation of any one tag')
ASSUMPTIONS = ('backend operations honour the cache API (stub)',
               'every missed tracked read is followed by a save or an abort of that key (documented usage)')
