"""C08: connectivity and groups (82, 2412, 2429, 2467)."""
from .. import reuse, patterns
from .families import f82, f2412, f_groups

BOUND = {'quick': 'lists of 1..25 and edges to 1025; all lists of up to 5 nodes over 3-4 labels; all sequences of up to 3 elements over 9-16 kinds; all groupings of up to 3 groups',
         'thorough': 'lists of 1..129 and edges to 65537, all lists of up to 7 nodes, elements of up to 129 nodes'}



def suites(tier):
    return f82(tier) + f2412(tier) + f_groups(2429, tier) + f_groups(2467, tier) + patterns.suites([8], tier) + patterns.large([8], tier) + reuse.suites([8], tier) + patterns.headers([82], tier)
