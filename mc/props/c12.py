"""C12: generations of a file."""
import itertools

from .. import alpha, patterns, history as H, lib, sets
from ..engine import Suite
from ..layout import Enc
from .c11 import FEW
from .families import ELEMENTS, T, VALUES_6, VALUES_12, XS

BOUND = {'quick': 'every kind and every pair of kinds, written by pyuff or by the encoder; every header field at its alphabet; every count up to 25',
         'thorough': 'triples of kinds, header pairs, counts up to 129 and edges'}
ASSUMPTIONS = ['a binary or single-precision source is compared at the precision of the written format']

MENU = [H.Kind((label, t, m)) for label, t, m in sets.menu(3)]


def cycle(ctx, path0, models, mode, fd=True):
    """models: what the file holds, [(type, model)]."""
    paths = [path0] + [ctx.file('gen%d.uff' % k) for k in (1, 2, 3)]
    data, read = [lib.data_of(path0)], []
    for k in range(3):
        got = H.as_list(lib.read(paths[k]))
        ctx.check(len(got) == len(models), 'generation %d has %d sets, expected %d', k, len(got), len(models))
        for j, (t, m) in enumerate(models):
            single = t.num == 58 and m['variant'][2] and m['variant'][3]
            r = sets.compare(t, t.expect(m, fd and k > 0) if t.num == 58 else m, got[j], {'X': 6e-8} if single else None)
            ctx.check(r is None, 'generation %d, set %d (%d): %s', k, j, t.num, r)
        read.append(got)
        w = lib.pyuff.UFF(paths[k + 1])
        if mode == 'list':
            w.write_sets(got, 'overwrite', fd)
        elif mode == 'add':
            w.write_sets(got, 'add', fd)
        else:
            for g in got:
                w.write_sets(g, 'add', fd)
        ctx.op(2)
        data.append(lib.data_of(paths[k + 1]))
    ctx.check(data[2] == data[3], 'generations 2 and 3 differ:\n%s', text_diff(data[2], data[3]))
    again = H.as_list(lib.read(paths[3]))
    r = H.same(H.as_list(lib.read(paths[2])), again)
    ctx.check(r, 'generations 2 and 3 read differently')
    ctx.observe(*data)


def text_diff(a, b):
    for x, y in zip(a.split(b'\n'), b.split(b'\n')):
        if x != y:
            return '%r\n%r' % (x, y)
    return 'lengths %d and %d' % (len(a), len(b))


# axes only a header can tell
ODD = [(1.0, 1e-20), (5.0, -0.25), (0.0, 0.0), (-3.0, 0.0), (1e30, 1.0), (-1e-3, 1e-3), (0.0, -1e-9), (1e-30, 1e30), (123456.0, 1e-6)]


def source(ctx, kinds, few=False, other=False):
    """The first file: written by pyuff, or by another program."""
    how = ctx.choose('first file', ([] if other else ['pyuff']) + (FEW[1:2] if few or other else FEW))
    path = ctx.file()
    if how == 'pyuff':
        lib.write(path, [t.dset(m) for _, t, m in kinds], 'overwrite', False)
    else:
        raw = b''
        for _, t, m in kinds:
            if t.num == 58 and m['variant'][3]:
                raw += t.block58b(m, '>', how.get('eol', '\n').encode(), how.get('trim', False))
            else:
                raw += t.block(m, Enc(**how)).encode('utf-8')
        lib.put(path, raw)
    return path


def sequences(tier):
    def driver(ctx):
        n = ctx.choose('sets', [1, 2] if tier == 'quick' else [1, 2, 3])
        menu = MENU if n < 3 else [k for k in MENU if k[0] in ('151', '82', '2412', '2429', '15')] + [k for k in MENU if k[1].num in (58, 2414)][::3]
        kinds = [ctx.choose('set %d' % k, menu) for k in range(n)]
        path = source(ctx, kinds, n > 1 and tier == 'quick')
        mode = ctx.choose('mode', ['list', 'one by one', 'add'] if n == 1 else ['list'])
        fd = ctx.choose('force_double', [True, False] if n == 1 or tier != 'quick' else [True])
        models = [(t, m) for _, t, m in kinds]
        cycle(ctx, path, models, mode, fd)
        ctx.note('%s, %s' % ([k[0] for k in kinds], mode))
    return [Suite('sequences', driver, rule='all files of one or two (thorough three) sets of every kind')]


def header(tier):
    from .. import roundtrip as rt
    one = [k for k in H.models(H.EVERY if tier != 'quick' else H.ALL) if k[1].header(k[2]) and not (k[1].num == 58 and k[2]['variant'][2])]

    def driver(ctx):
        kind = ctx.choose('set', one)
        m = rt.deviate_header(ctx, kind[1], dict(kind[2]), True)
        path = ctx.file()
        if not (kind[1].num == 58 and m['variant'][3]) and ctx.choose('first file', ['pyuff', 'other']) == 'other':
            lib.put(path, kind[1].block(m, Enc(pad=True)).encode('utf-8'))
        else:
            lib.write(path, kind[1].dset(m))
        cycle(ctx, path, [(kind[1], m)], 'list')
    return [Suite('header', driver, bound=1 if tier == 'quick' else 2, window=None if tier == 'quick' else 1, rule='every header field at every value')]


def shapes(tier):
    ns = alpha.COUNTS + [33, 64, 65, 257] if tier == 'quick' else list(range(1, 130)) + alpha.EDGES[-12:]

    def f58(ctx):
        v = ctx.choose('variant', sets.VARIANTS[58])
        n = ctx.choose('points', ns if tier != 'quick' else [1, 2, 3, 4, 5, 8, 9, 25, 64, 257])
        x0, dx = ctx.choose('axis', [(-1.5, 0.0625), (0.0, 0.1), (1.0 / 3, 1.0 / 7), (12345.6, 1e-2), (0.0, 1.0 / 25600), (1e-3, 3e7), (1e6, 1e-3), (100.0, 1.0 / 3)] + ODD if n < 6 else [(-1.5, 0.0625)])
        pool = [x for x in (VALUES_12 if not v[2] else VALUES_6) if not v[3] or not v[2] or (abs(x) < 3e38 and (x == 0 or abs(x) > 1e-37))]
        xs = [x for x in XS if abs(x) < 1e38 and (x == 0 or abs(x) > 1e-37)]
        m = T[58].fill(T[58].base(v, n), n, pool, x0=x0, dx=dx, xs=xs)
        if (x0, dx) in ODD:
            m['axis'] = x0, dx
        path = source(ctx, [('58', T[58], m)], other=(x0, dx) in ODD)
        fd = ctx.choose('force_double', [True, False])
        cycle58(ctx, path, m, fd)
        ctx.note('58 %s of %d points' % (v, n))

    def rest(ctx):
        num = ctx.choose('set', [15, 18, 2411, 2420, 82, 2412, 2429, 2467, 55, 2414])
        t = T[num]
        n = ctx.choose('entries', ns)
        if num == 82:
            m = t.fill(t.base(n=n), n, [1, 25, 3, 0, 417, 417, 6002, 999999999, 0, 0, 5], n)
        elif num == 2412:
            m = {'elements': [t.element(k, *ELEMENTS[(k * 3 + n) % len(ELEMENTS)]) for k in range(n)]}
        elif num in (2429, 2467):
            m = {'groups': [t.group(0, n), t.group(1, n % 5), t.group(2, 0), t.group(3, 1)]}
        elif num in sets.VARIANTS:
            v = ctx.choose('variant', sets.VARIANTS[num])
            m = t.fill(t.base(v, n), n, alpha.REALS_FIXED, [1, 305, 2147483647, 9876543210])
        else:
            m = t.base(n=n)
        path = ctx.file()
        how = ctx.choose('first file', ['pyuff', 'other'])
        if how == 'pyuff':
            lib.write(path, t.dset(m))
        else:
            if num == 2412:
                m = {'elements': t.grouped(m)}
            lib.put(path, t.block(m, Enc(eol='\r\n', pad=True)).encode('utf-8'))
        cycle(ctx, path, [(t, m)], 'list')
    return [Suite('58-shapes', f58, rule='counts x data cases x axes x sources'), Suite('shapes', rest, rule='counts of every other type')]


def cycle58(ctx, path, m, fd):
    """As cycle; the abscissa may come from a header of six digits, so generations are compared with each other."""
    first = lib.read(path)
    want = T[58].expect(m, False)
    r = sets.compare(T[58], want, first)
    ctx.check(r is None, 'the first file: %s', r)
    import copy
    last, data = first, None
    for k in range(1, 4):
        p = ctx.file('gen%d.uff' % k)
        lib.write(p, copy.deepcopy(last), 'overwrite', fd)
        got = lib.read(p)
        ctx.op(2)
        for key in want:
            if key in ('variant', 'data', 'x', 'x0', 'dx', 'axis', 'abscissa_inc', 'abscissa_min', 'ord_data_type', 'binary'):
                continue
            ctx.check(sets.diff({key: T[58].fields(want)[key]}, {key: want[key]}, got) is None, 'generation %d: %s is %r, expected %r', k, key, got.get(key), want[key])
        ctx.check(got['binary'] == int(m['variant'][3]), 'generation %d is %s', k, 'binary' if got['binary'] else 'ASCII')
        ctx.check(got['ord_data_type'] == (T[58].ord(m) if not fd else {2: 4, 5: 6}.get(T[58].ord(m), T[58].ord(m))), 'generation %d has ord_data_type %r', k, got['ord_data_type'])
        single = m['variant'][2]
        rel = 6e-8 if single and m['variant'][3] else 0 if m['variant'][3] else (5.0001e-6 if single and not fd else 5.0001e-12)
        for key in ('data', 'x'):
            a, b = last[key], got[key]
            ctx.check(a.shape == b.shape, 'generation %d: %s has shape %s, expected %s', k, key, b.shape, a.shape)
            tol = rel if key == 'data' else (0 if m['variant'][3] and not m['variant'][1] and not single else 1e-5)
            scale = abs(a) if key == 'data' else abs(a).max() if m['variant'][1] else abs(a)
            if key == 'data':
                ok = (abs(a.real - b.real) <= tol * abs(a.real)).all() and (abs(a.imag - b.imag) <= tol * abs(a.imag)).all()
            else:
                ok = (abs(a - b) <= tol * scale).all()
            ctx.check(ok, 'generation %d: %s is %s, expected %s', k, key, b[:5], a[:5])
        if k > 1:
            new = lib.data_of(p)
            if k > 2:
                ctx.check(new == data, 'generations 2 and 3 differ:\n%s', text_diff(data, new))
                ctx.check(H.same(got, last), 'generations 2 and 3 read differently: %s', None if H.same(got, last) else H.first_difference(got, last))
            data = new
        last = got
    ctx.observe(data)


def columns(tier):
    def go(ctx, t, m):
        path = ctx.file()
        lib.write(path, t.dset(m), 'overwrite', False)
        if t.num == 58:
            cycle58(ctx, path, m, True)
        else:
            cycle(ctx, path, [(t, m)], 'list')
    return patterns.suites([3, 4, 5, 6, 7, 8], tier, go=go, ns=[3, 4]) + patterns.large([5, 6, 7, 8], tier, go=go, ns=[1500, 4100]) + \
        patterns.headers([55, 58, 82, 151, 164, 1858, 2400, 2414, 2420], tier, go=go, bound=1)


def suites(tier):
    return sequences(tier) + header(tier) + shapes(tier) + columns(tier)
