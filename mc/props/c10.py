"""C10: the written bytes, decoded by the published layout."""
from .families import *   # noqa
from .. import patterns
from . import families as F

BOUND = {'quick': 'the spaces of C03 and C05-C09 and the headers and shapes of binary 58 (pair spaces of 15, 18, 2411, 2420 narrowed to neighbours)', 'thorough': 'the thorough spaces of C03 and C05-C09'}
ASSUMPTIONS = ['the published layouts are those of mc/layout.py and mc/sets.py, written from the format descriptions']


def f58b(tier):
    def driver(ctx):
        n = ctx.choose('points', list(range(1, 14)) + [31, 32, 33, 100, 1000] if tier == 'quick' else list(range(1, 131)) + [1000, 4097])
        v = ctx.choose('variant', variants58(True))
        fd = ctx.choose('force_double', [True, False])
        pool = [x for x in alpha.REALS_DOUBLE if abs(x) < 1e38 and (x == 0 or abs(x) > 1e-37)]
        m = T[58].base(v, n)
        T[58].fill(m, n, pool, x0=-1.5, dx=0.0625)
        rt.go(ctx, T[58], m, force_double=fd, layout=True)
    return [Suite('58b-shape', driver, rule='binary 58: number of points x real/complex x even/uneven x precision')]


def suites(tier):
    binary = f58_header(tier, True, True)
    for s in binary:
        s.name += '-binary'
    out = binary + f58b(tier) + f58_header(tier, False, True) + f58_shape(tier, False, True) + f58_values(tier, False, True) + f58_axis(tier, False, True) + \
        F.f58_ordtype(tier, False, True) + f55(tier, True) + f2414(tier, True)
    for num in (15, 18, 2411, 2420):
        out += rows_suites(num, tier, True)
    out += f82(tier, True) + f2412(tier, True) + f_groups(2429, tier, True) + f_groups(2467, tier, True)
    for num in (151, 164, 1858, 2400):
        out += f_flat(num, tier, True)
    out += patterns.suites([3, 5, 6, 7, 8], tier, True) + patterns.headers([55, 58, 82, 151, 164, 1858, 2400, 2414, 2420], tier, True, bound=1)
    if tier == 'quick':
        for s in out:
            if s.name.endswith('-cells') and s.bound == 2:
                s.bound = 1
    return out
