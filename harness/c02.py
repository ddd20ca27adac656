"""Invalidation is precise: an entry none of whose tags was invalidated keeps being served."""
from harness.flat import history, wide, many_keys, beside
from harness.c01 import plan, BOUNDS, ASSUMPTIONS
PROPERTY = 'C02'


def jobs(tier):
    return plan(tier, dict(sound=False))
