"""C05: nodal results (55)."""
from .. import reuse, patterns
from .families import f55

BOUND = {'quick': '1..25 nodes and edges to 1000, all analysis types; one value or header field (two neighbouring) away from the base',
         'thorough': '1..129 nodes and edges to 1025; every pair of header fields; pairs of values'}
ASSUMPTIONS = ['text fields do not start with a blank']


def suites(tier):
    return f55(tier) + patterns.suites([5], tier) + patterns.large([5], tier) + reuse.suites([5], tier) + patterns.headers([55], tier)
