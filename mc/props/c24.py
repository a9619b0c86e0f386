"""C24: samples that are not finite."""
import copy
import struct

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'all placements of 7 kinds of sample over functions of 1-3 points (4 for real ones) x real/complex x even/uneven x ASCII/binary x precision x force_double x mode; runs and '
                  'single bad samples in 33 points; arrays of 7 forms; one bad sample at the edges of functions of thousands of points; lists and positions in a file',
         'thorough': 'functions of 4 points (5 for real ones), all sample kinds'}
ASSUMPTIONS = ['the largest representable number is that of double precision in double-precision form and in ASCII (to the digits of the format); in single-precision binary form it is infinite or '
               'the largest single-precision number']

T = sets.TYPES
BIG = 1.7976931348623157e308
REAL = {'1': 1.25, 'nan': float('nan'), '+inf': float('inf'), '-inf': float('-inf'), '0': 0.0, '-0': -0.0, 'big': -BIG}
CPLX = {'1': 1.25 - 2.5j, 'nan+nan': complex('nan+nanj'), 'nan+1': complex(float('nan'), 1), '1+nan': complex(1, float('nan')), 'inf+2': complex(float('inf'), 2), '2-inf': complex(2, float('-inf')),
        '-inf+nan': complex(float('-inf'), float('nan')), 'inf-inf': complex(float('inf'), float('-inf')), 'big': complex(BIG, -BIG)}


def part(v):
    return 0.0 if v != v else BIG if v == float('inf') else -BIG if v == float('-inf') else v


def replaced(v):
    return complex(part(v.real), part(v.imag)) if isinstance(v, complex) else part(v)


def flat(v):
    return [y for x in v for y in ((x.real, x.imag) if isinstance(x, complex) else (x,))]


def agree(ctx, got, want, binary, single, who=''):
    """Stored samples against the replacement model."""
    got = [complex(g) if isinstance(want[0], complex) else float(np.real(g)) for g in got]
    ctx.check(len(got) == len(want), '%s%d samples, expected %d', who, len(got), len(want))
    rel = 0.0 if binary and not single else 6e-8 if binary else 5.0001e-6 if single else 5.0001e-12
    for k, (g, w) in enumerate(zip(flat(got), flat(want))):
        if abs(w) > 3.4e38 and single and binary:
            ok = g == np.copysign(np.inf, w) or abs(g - np.copysign(3.4028234663852886e38, w)) < 1e32
        elif abs(w) == BIG:
            # what does not fit when it is rounded to the digits of the format is cut
            ok = np.sign(g) == np.sign(w) and (g == w or not binary and abs(g) >= BIG * (1 - 2e-5))
        else:
            ok = g == w or abs(g - w) <= rel * abs(w)
        ctx.check(ok, '%ssample part %d is %r, expected %r', who, k, g, w)


def finite_in_text(ctx, raw):
    for line in raw.split(b'\n')[13:-2]:
        for word in line.split():
            ctx.check(b'n' not in word.lower(), 'the file holds %r', word)


def placements(name, forms, ns, alphabet):
    def driver(ctx):
        v = ctx.choose('variant', [x for x in sets.VARIANTS[58] if x[0] == (alphabet is CPLX) and x in forms])
        n = ctx.choose('points', ns)
        labels = [ctx.choose('sample %d' % k, list(alphabet)) for k in range(n)]
        data = [alphabet[s] for s in labels]
        fd = ctx.choose('force_double', [True, False]) if v[2] else True
        mode = ctx.choose('mode', ['add', 'overwrite']) if n < 3 else 'overwrite'
        t = T[58]
        m = t.base(v, n)
        m['data'] = data
        d = t.dset(m)
        d['data'] = np.array(data)
        kept, was = d['data'], d['data'].copy()
        path = ctx.file()
        lib.write(path, d, mode, fd)
        ctx.check(kept.tobytes() == was.tobytes(), 'the array of the caller was changed to %r', kept)
        got = lib.read(path)
        single = v[2] and not fd
        agree(ctx, got['data'], [replaced(x) for x in data], v[3], single)
        r = sets.diff({'x': 'E5' if not v[3] else 'X'}, {'x': m['x']}, {'x': list(got['x'])}, rel={'X': 6e-8}) if not v[1] else None
        ctx.check(r is None, 'abscissa: %s', r)
        raw = lib.data_of(path)
        if not v[3]:
            finite_in_text(ctx, raw)
        # the same bytes as with the replaced values given
        d2 = t.dset(m)
        d2['data'] = np.array([replaced(x) for x in data])
        other = ctx.file('b.uff')
        lib.write(other, d2, mode, fd)
        ctx.check(lib.data_of(other) == raw, 'stored differently from the replaced values')
        ctx.op(3)
        ctx.observe(raw)
        ctx.note('%s of %d points %s' % (v, n, labels))
    return Suite(name, driver, rule='all placements of sample kinds')


def runs(ctx):
    """Single bad samples and runs of them in longer functions."""
    v = ctx.choose('variant', sets.VARIANTS[58])
    n = 33
    first = ctx.choose('first', list(range(n)))
    count = ctx.choose('run', [1, 2, 5, n])
    alphabet = CPLX if v[0] else REAL
    bad = ctx.choose('kind', [s for s in alphabet if 'n' in s][:4])
    m = T[58].base(v, n)
    data = [complex(x) if v[0] else x for x in T[58].complete(m)['data']] if 'data' in T[58].complete(m) else list(m['data'])
    for k in range(first, min(n, first + count)):
        data[k] = alphabet[bad]
    d = T[58].dset(m)
    d['data'] = np.array(data)
    was = d['data'].copy()
    kept = d['data']
    path = ctx.file()
    lib.write(path, d, 'overwrite', False)
    ctx.check(kept.tobytes() == was.tobytes(), 'the array of the caller was changed')
    agree(ctx, lib.read(path)['data'], [replaced(x) for x in data], v[3], v[2])
    ctx.op(2)
    ctx.observe(lib.data_of(path))


def long(tier):
    """One bad sample among very many."""
    ns = [1001, 1024, 4097] + ([] if tier == 'quick' else [10001, 65537])

    def driver(ctx):
        v = ctx.choose('variant', sets.VARIANTS[58])
        n = ctx.choose('points', ns)
        at = ctx.choose('at', sorted({0, 1, n // 2, 999, 1000, n - 2, n - 1}))
        alphabet = CPLX if v[0] else REAL
        bad = ctx.choose('kind', [s for s in alphabet if 'n' in s][:4])
        m = T[58].base(v, n)
        data = np.resize(np.array([1.25, -2.5, 7.0]), n) * (1 - 2j if v[0] else 1)
        data[at] = alphabet[bad]
        d = T[58].dset(m)
        d['data'] = data
        was = data.copy()
        path = ctx.file()
        fd = ctx.choose('force_double', [True, False])
        lib.write(path, d, 'overwrite', fd)
        ctx.check(d['data'] is not None and data.tobytes() == was.tobytes(), 'the array of the caller was changed')
        got = np.asarray(lib.read(path)['data'])
        ctx.check(len(got) == n, '%d samples, expected %d', len(got), n)
        left = np.delete(np.arange(n), at)
        ctx.check(bool((got[left] == was[left]).all()), 'other samples have changed')
        agree(ctx, [got[at]], [replaced(alphabet[bad])], v[3], v[2] and not fd, 'sample %d: ' % at)
        ctx.op(2)
        ctx.observe(lib.data_of(path))
        ctx.note('%s of %d points, %s at %d' % (v, n, bad, at))
    return Suite('long', driver, rule='one bad sample at the edges of functions of thousands of points')


ARRAYS = ['plain', 'list', 'read-only', 'strided', 'reversed', 'big-endian', 'single', 'view', 'column']


def arrays(ctx):
    """The caller's array in any form."""
    v = ctx.choose('variant', sets.VARIANTS[58])
    form = ctx.choose('form', ARRAYS)
    alphabet = CPLX if v[0] else REAL
    labels = [s for s in alphabet if s != 'big']
    data = [alphabet[s] for s in labels]
    n = len(data)
    m = T[58].base(v, n)
    d = T[58].dset(m)
    a = np.array(data)
    base = None
    if form == 'list':
        a = list(data)
    elif form == 'read-only':
        a.flags.writeable = False
    elif form == 'strided':
        base = np.zeros(2 * n, a.dtype)
        base[::2] = a
        base[1::2] = np.nan
        a = base[::2]
    elif form == 'reversed':
        a = a[::-1].copy()[::-1]
    elif form == 'big-endian':
        a = a.astype(a.dtype.newbyteorder('>'))
    elif form == 'single':
        a = a.astype('c8' if v[0] else 'f4')
    elif form == 'view':
        base = np.concatenate([a, a])
        a = base[n:]
    elif form == 'column':
        base = np.stack([a, a], axis=1)
        a = base[:, 0]
    was, base_was = copy.deepcopy(a), copy.deepcopy(base)
    d['data'] = a
    path = ctx.file()
    lib.write(path, d, ctx.choose('mode', ['add', 'overwrite']), True)
    ctx.check(H.same(was, a), 'the values of the caller became %r', a)
    ctx.check(base is None or H.same(base_was, base), 'the array behind the samples was changed')
    got = lib.read(path)['data']
    if form == 'single':
        # infinities become the largest number of the array's own precision, or of double precision
        got = [complex(g) if v[0] else float(g) for g in got]
        for g, w in zip(flat(got), flat(data)):
            if abs(w) == float('inf'):
                ctx.check(np.isfinite(g) and np.sign(g) == np.sign(w) and abs(g) > 3.4e38, 'an infinite sample is stored as %r', g)
            else:
                ctx.check(abs(g - part(w)) < 1e-6, 'sample %r is stored as %r', w, g)
    else:
        agree(ctx, got, [replaced(x) for x in data], v[3], False)
    ctx.op(2)
    ctx.observe(lib.data_of(path), form)


def files(ctx):
    """Sets with bad samples among others, in lists, written again."""
    v = ctx.choose('variant', sets.VARIANTS[58])
    other = ctx.choose('other', H.models([(151, None, None), (82, None, 9), (58, (True, False, False, True), 2), (58, (False, True, False, False), 3)]))
    how = ctx.choose('how', ['list', 'calls', 'same twice', 'same array'])
    alphabet = CPLX if v[0] else REAL
    data = [alphabet[s] for s in alphabet if s != 'big']
    m = T[58].base(v, len(data))
    d = T[58].dset(m)
    d['data'] = np.array(data)
    kept, was = d['data'], d['data'].copy()
    o = other[1].dset(other[2])
    path = ctx.file()
    u = lib.pyuff.UFF(path)
    mine = [0, 2]
    if how == 'list':
        u.write_sets([d, o, d], 'overwrite')
    elif how == 'calls':
        for s in (d, o, d):
            u.write_sets(s, 'add')
    elif how == 'same twice':
        u.write_sets([d, d, o], 'add')
        mine = [0, 1]
    else:
        e = T[58].dset(T[58].base(v, len(data)))
        e['data'] = kept
        u.write_sets([d, o, e], 'add')
    ctx.check(kept.tobytes() == was.tobytes(), 'the array of the caller was changed')
    ctx.check(u.get_n_sets() == 3, '%r sets', u.get_n_sets())
    for k in range(3):
        got = u.read_sets(k)
        if k in mine:
            agree(ctx, got['data'], [replaced(x) for x in data], v[3], False, 'set %d: ' % k)
        else:
            r = sets.compare(other[1], sets.expect(other[1], other[2], True), got)
            ctx.check(r is None, 'the other set: %s', r)
    ctx.op(6)
    ctx.observe(lib.data_of(path))


def suites(tier):
    deep = tier != 'quick'
    every = sets.VARIANTS[58]
    out = [long(tier), placements('real', every, [1, 2, 3], REAL), placements('complex', every, [1, 2], CPLX), Suite('runs', runs, rule='runs of bad samples at every place'),
           Suite('arrays', arrays, rule='forms of the array'), Suite('files', files, rule='several sets')]
    if deep:
        out += [placements('real 4', every, [4, 5], REAL), placements('complex 3', every, [3, 4], CPLX)]
    return out
