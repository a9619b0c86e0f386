"""C09: header sets (151, 164, 1858, 2400)."""
from .. import patterns
from .families import f_flat

BOUND = {'quick': 'every field at its deep alphabet; every pair of fields of 151 and 164, pairs at most two apart of 1858 and 2400', 'thorough': 'every pair of fields of every set'}
ASSUMPTIONS = ['text fields start and end with a non-blank']


def suites(tier):
    return [s for num in (151, 164, 1858, 2400) for s in f_flat(num, tier)] + patterns.headers([151, 164, 1858, 2400], tier)
