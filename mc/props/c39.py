"""C39: sets whose fields hold something unexpected."""
import os

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'every layout of every kind, every field of it missing or one of 25 to 45 odd values, in mode add, in a list and in mode overwrite; every group and element of 2429, 2467 and 2412 with an odd value',
         'thorough': 'every pair of fields with 6 odd values'}
ASSUMPTIONS = ['texts do not hold a line that is a delimiter', 'what a set with odd values reads as is not judged, only that reading ends']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
FIRST, LAST, THIRD = NAMED['164'], NAMED['58(True, False, False, True)'], NAMED['55(2, False, 3)'] if '55(2, False, 3)' in NAMED else NAMED['15']
MISSING = object()


class Failing:
    """A value that cannot be printed."""

    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __float__ = __int__ = __index__ = __len__ = __iter__ = __getitem__ = __format__ = __array__ = lambda self, *a, **k: (_ for _ in ()).throw(RuntimeError('no value'))


class Odd:
    def __init__(self, name, make):
        self.name, self.make = name, make

    def __repr__(self):
        return self.name


def one(x):
    return Odd(repr(x), lambda: x)


SINGLE = [Odd('missing', lambda: MISSING)] + [one(x) for x in (None, '', 'abc', '1', '1.5', 'x' * 200, '-1', 'a\nb', 'a\n\n\nb', 'a\r\nb', '\n', 'a\x0cb', '\t', 'ä', b'ab', 0, -7, 5, 10 ** 12, 10 ** 40, 2.5, 1e300, 1e-300, float('nan'),
                                                              float('inf'), 1 + 2j, True, [], [1, 2, 3], (), {}, {'a': 1})] + \
    [Odd('object', object), Odd('failing', Failing), Odd('type', lambda: int), Odd('0-d', lambda: np.array(3)), Odd('0-d real', lambda: np.array(2.5)), Odd('array', lambda: np.arange(3.0)),
     Odd('empty array', lambda: np.zeros(0)), Odd('nested', lambda: [[1], [2, 3]]), Odd('generator', lambda: (x for x in [1, 2, 3])), Odd('masked', lambda: np.ma.array([1.0, 2.0], mask=[True, False]))]
FEW = ('missing', 'None', "'abc'", 'object', '[]', '1000000000000')


def as_array(v):
    return v if isinstance(v, np.ndarray) else list(v)


def columns(v):
    """Odd values for a field that holds a column."""
    a = isinstance(v, np.ndarray)
    out = [Odd('one short', lambda: v[:-1]), Odd('first only', lambda: v[:1]), Odd('twice', lambda: np.concatenate([v, v]) if a else v + v), Odd('single', lambda: v[0]), Odd('reversed', lambda: v[::-1])]
    if a and v.dtype.kind in 'fiuc':
        out += [Odd('complex', lambda: v.astype('D') * (1 + 1j)), Odd('rows', lambda: np.stack([v, v])), Odd('texts', lambda: [str(x) for x in v]), Odd('upright', lambda: np.asarray(v).reshape(-1, 1)), Odd('objects', lambda: v.astype(object)),
                Odd('nan', lambda: v * np.nan), Odd('inf', lambda: v * np.inf), Odd('large', lambda: v * 1e30), Odd('with None', lambda: list(v[:-1]) + [None]), Odd('with list', lambda: list(v[:-1]) + [[1]]), Odd('truth', lambda: v > 0),
                Odd('negative', lambda: -np.abs(v) - 1), Odd('words', lambda: ['abc'] * len(v)), Odd('with failing', lambda: list(v[:-1]) + [Failing()])]
    return out


def pool(v):
    return SINGLE + (columns(v) if isinstance(v, (np.ndarray, list)) and len(v) else [])


def put(d, k, odd):
    v = odd.make()
    if v is MISSING:
        d.pop(k, None)
    else:
        d[k] = v


MEMO = {}


def expected(ctx, kind):
    """What the sets of that kind read as, and their bytes alone."""
    if kind[0] not in MEMO:
        p = ctx.file('alone.uff')
        lib.write(p, kind[1].dset(kind[2]))
        MEMO[kind[0]] = lib.read(p)
        os.remove(p)
    return MEMO[kind[0]]


def judge(ctx, kind, d, how, what):
    """Stores d between other sets and judges the file."""
    path = ctx.file()
    u = lib.pyuff.UFF(path)
    if os.path.exists(path):
        os.remove(path)
        u.refresh()
    first, last, third = [k[1].dset(k[2]) for k in (FIRST, LAST, THIRD)]
    number = d['type']
    if how == 'add':
        u.write_sets(first, 'add')
        before = lib.data_of(path)
        call = lambda: u.write_sets(d, 'add')    # noqa: E731
        around = [FIRST], []
    elif how == 'list':
        u.write_sets(first, 'add')
        before = lib.data_of(path)
        call = lambda: u.write_sets([third, d, last], 'add')    # noqa: E731
        around = [FIRST, THIRD], [LAST]
    else:
        u.write_sets([first, third], 'add')
        before = lib.data_of(path)
        call = lambda: u.write_sets(d, 'overwrite')    # noqa: E731
        around = [], []
    try:
        call()
        stored = True
    except Exception:
        stored = False
    now = lib.data_of(path)
    if stored:
        kinds = around[0] + [None] + around[1]
        if how != 'overwrite':
            ctx.check(now.startswith(before), '%s: the bytes that were in the file changed', what)
    elif how == 'list':
        kinds = around[0]
    else:
        ctx.check(now == before, '%s: refused, and the file changed from %d to %d bytes', what, len(before), len(now))
        kinds = around[0] if how == 'add' else [FIRST, THIRD]
    look(ctx, path, u, kinds, number, what)
    # what follows is as good as ever
    u.write_sets(LAST[1].dset(LAST[2]), 'add')
    kinds = kinds + [LAST]
    look(ctx, path, u, kinds, number, what + ', then a set')
    ctx.op(3)
    return stored


def look(ctx, path, u, kinds, number, what):
    fresh = lib.pyuff.UFF(path)
    for v, who in ((u, 'the object'), (fresh, 'a new object')):
        types = [int(x) for x in v.get_set_types()]
        want = [number if k is None else k[1].num for k in kinds]
        ctx.check(v.get_n_sets() == len(kinds) and types == want, '%s: %s finds %s, expected %s', what, who, types, want)
        ctx.check(len(v.get_set_formats()) == len(kinds), '%s: %s has %d formats for %d sets', what, who, len(v.get_set_formats()), len(kinds))
        for k, kind in enumerate(kinds):
            if kind is None:
                try:
                    got = v.read_sets(k)
                except Exception:
                    continue
                ctx.check(isinstance(got, dict) and got.get('type') == number, '%s: %s reads the set as %.100r', what, who, got)
        for k, kind in enumerate(kinds):
            if kind is not None:
                got = lib.outcome(lambda k=k: v.read_sets(k)) if hasattr(lib, 'outcome') else v.read_sets(k)
                ctx.check(H.same(got, expected(ctx, kind)), '%s: %s reads set %d (%s) differently', what, who, k, kind[0])


def single(tier):
    def driver(ctx):
        kind = ctx.choose('set', KINDS)
        d = kind[1].dset(kind[2])
        f = ctx.choose('field', [k for k in d if k != 'type'])
        odd = ctx.choose('value', pool(d[f]))
        how = ctx.choose('call', ['add', 'list', 'overwrite'])
        put(d, f, odd)
        what = '%s with %s %r, %s' % (kind[0], f, odd, how)
        stored = judge(ctx, kind, d, how, what)
        ctx.observe(kind[0], f, repr(odd), how, stored)
        ctx.note(what)
    return Suite('single', driver, rule='every kind x field x odd value x call')


def pairs(tier):
    deep = tier != 'quick'

    def driver(ctx):
        kind = ctx.choose('set', KINDS)
        d = kind[1].dset(kind[2])
        names = [k for k in d if k != 'type']
        i = ctx.choose('first', list(range(len(names))))
        j = ctx.choose('second', list(range(i + 1, len(names))) if deep else [(i + 1) % len(names)])
        few = [o for o in SINGLE if o.name in FEW]
        a, b = ctx.choose('value of the first', few), ctx.choose('value of the second', few)
        put(d, names[i], a)
        if j != i:
            put(d, names[j], b)
        what = '%s with %s %r, %s %r' % (kind[0], names[i], a, names[j], b)
        stored = judge(ctx, kind, d, 'add', what)
        ctx.observe(kind[0], i, j, a.name, b.name, stored)
        ctx.note(what)
    return Suite('pairs', driver, rule='every kind x pairs of fields (quick: neighbouring) x odd values')


def inner(tier):
    """Odd values in the groups and elements of a set."""
    places = []
    for name in ('2412', '2429', '2467'):
        d = NAMED[name][1].dset(NAMED[name][2])
        for key, v in d.items():
            if isinstance(v, list) and v and isinstance(v[0], dict):
                for i in range(len(v)):
                    places += [H.Kind((name, key, i, f)) for f in v[i]]

    def driver(ctx):
        place = ctx.choose('place', places)
        name, key, i, f = place
        kind = NAMED[name]
        d = kind[1].dset(kind[2])
        odd = ctx.choose('value', pool(d[key][i][f]))
        how = ctx.choose('call', ['add', 'list', 'overwrite'])
        put(d[key][i], f, odd)
        what = '%s with %s[%d].%s %r, %s' % (name, key, i, f, odd, how)
        stored = judge(ctx, kind, d, how, what)
        ctx.observe(name, key, i, f, repr(odd), how, stored)
        ctx.note(what)
    return Suite('inner', driver, rule='every field of every group and element x odd value x call')


def suites(tier):
    return [single(tier), pairs(tier), inner(tier)]
