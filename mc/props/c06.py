"""C06: analysis data (2414)."""
from .. import reuse, patterns
from .families import f2414

BOUND = {'quick': '1..25 entities and edges to 256, up to 13 values per entity; one value or header field (two neighbouring) away from the base',
         'thorough': '1..69 entities and edges to 1025; every pair of header fields'}



def suites(tier):
    return f2414(tier) + patterns.suites([6], tier) + patterns.large([6], tier) + reuse.suites([6], tier) + patterns.headers([2414], tier)
