"""C07: nodes and coordinate systems (15, 18, 2411, 2420)."""
from .. import reuse, patterns
from .families import rows_suites

BOUND = {'quick': '1..25 entries and edges to 257; pairs of near fields of an entry', 'thorough': '1..69 entries and edges to 1025; every pair of fields of an entry'}
ASSUMPTIONS = ['names do not start with a blank']


def suites(tier):
    return [s for num in (15, 18, 2411, 2420) for s in rows_suites(num, tier)] + patterns.suites([7], tier) + patterns.large([7], tier) + reuse.suites([7], tier) + patterns.headers([2420], tier)
