"""C03: ASCII data-set 58, write and read back."""
from .. import alpha, roundtrip as rt
from ..engine import Suite
from .. import reuse, patterns
from .families import f58_header, f58_shape, f58_values, f58_axis, f58_containers, f58_ordtype

BOUND = {'quick': 'counts 1..25 and edges up to 1025; one header field away from the base set, two neighbouring fields for one variant; every pattern of up to 4 (3) neighbouring values; functions of thousands of points',
         'thorough': 'counts 1..129 and edges up to 65537; every pair of header fields, deep alphabets'}
ASSUMPTIONS = ['func_type is one of the values the writer accepts; text fields do not start with a blank']


def suites(tier):
    return f58_header(tier, binary=False) + f58_shape(tier, False) + f58_values(tier, False) + f58_axis(tier, False) + f58_containers(tier, False) + \
        f58_ordtype(tier, False) + patterns.suites([3], tier) + patterns.large([3], tier) + reuse.suites([3], tier) + patterns.headers([58], tier)
