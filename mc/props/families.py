"""The input spaces of the set types, shared by the round-trip (C03-C09) and layout (C10) properties.

Every function returns suites; layout=True decodes the written bytes with the published layout instead of reading them
with pyuff.
"""
import numpy as np

from .. import alpha, lib, roundtrip as rt, sets
from ..engine import Suite

T = sets.TYPES


def counts(tier, big=True):
    if tier == 'quick':
        return alpha.COUNTS + alpha.EDGES
    return list(range(1, 130)) + [n for n in alpha.EDGES if n > 129] + (alpha.BIG if big else [])


def header_suites(name, make, tier, layout=False, pairs_quick=1, free=None, rule='', **kw):
    """One header field away from the base (every variant), and pairs of fields.

    make: list of (label, type, function returning a model)
    """
    deep = tier != 'quick'

    def single(ctx):
        label, t, f = ctx.choose('variant', make)
        m = rt.deviate_header(ctx, t, f(), True)
        ctx.note(label)
        rt.go(ctx, t, m, layout=layout, **kw)

    def pair(ctx):
        label, t, f = ctx.choose('variant', make if deep else make[:pairs_quick])
        m = rt.deviate_header(ctx, t, f(), False)
        ctx.note(label)
        rt.go(ctx, t, m, layout=layout, **kw)
    return [Suite(name + '-header1', single, bound=1, rule='every header field at every value of its deep alphabet, all else at the base'),
            Suite(name + '-header2', pair, bound=2, window=None if deep else 2,
                  rule='every pair of header fields' if deep else 'every pair of header fields at most two apart')]


# ---------------------------------------------------------------------------------------------------------------- 58

def variants58(binary, single=(False, True)):
    return [(c, e, s, binary) for c in (False, True) for e in (True, False) for s in single]


def f58_header(tier, binary, layout=False):
    make = [('58%s' % (v,), T[58], lambda v=v: T[58].base(v, 3)) for v in variants58(binary, (False,))]
    out = header_suites('58', make, tier, layout)

    def native(ctx):
        """force_double=False keeps the header apart from the type."""
        v = ctx.choose('variant', variants58(binary, (True,)))
        m = rt.deviate_header(ctx, T[58], T[58].base(v, 3))
        rt.go(ctx, T[58], m, force_double=False, layout=layout)
    out.append(Suite('58-header-single', native, bound=1, rule='every header field, single precision kept'))
    return out


VALUES_6 = alpha.REALS_FIXED
VALUES_12 = alpha.REALS_FIXED + alpha.REALS_LONG
XS = [0.0, -3.5, 0.001, 123456.0, -1.5e-9, 7.25e12, 1e99, -2.5e99, 0.25, 17.0, -1.23456e-101, 9.99999e100]


def xs58(v, force_double):
    """Uneven abscissae; single-precision binary ones lie in that range."""
    if v[3] and v[2] and not force_double:
        return [x for x in XS if abs(x) < 1e38 and (x == 0 or abs(x) > 1e-37)]
    return XS


def pool58(v, force_double):
    single = v[2] and not force_double
    if v[3]:
        return [x for x in alpha.REALS_DOUBLE + alpha.REALS_LONG if not single or (abs(x) < 3e38 and (x == 0 or abs(x) > 1e-37))]
    return VALUES_6 if single else VALUES_12


def f58_shape(tier, binary, layout=False):
    ns = counts(tier)

    def driver(ctx):
        n = ctx.choose('points', ns)
        v = ctx.choose('variant', variants58(binary))
        fd = ctx.choose('force_double', [True, False])
        if n > 3000 and (v[2] or not fd):
            fd = True
        pool = pool58(v, fd)
        shift = ctx.choose('shift', [0] if n > 130 else [0, 3] if tier == 'quick' else [0, 1, 5, 8])
        m = T[58].base(v, n)
        T[58].fill(m, n, pool[shift:] + pool[:shift], x0=-1.5, dx=0.0625, xs=xs58(v, fd))
        ctx.note('%d points, variant %s, force_double %s' % (n, v, fd))
        rt.go(ctx, T[58], m, force_double=fd, layout=layout)
    return [Suite('58-shape', driver, rule='every number of points x real/complex x even/uneven x precision x force_double x value rotation')]


def f58_values(tier, binary, layout=False):
    """Every value in every position of short functions."""
    def driver(ctx):
        v = ctx.choose('variant', variants58(binary))
        fd = ctx.choose('force_double', [True, False])
        n = ctx.choose('points', [1, 2, 3, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7])
        pool = pool58(v, fd)
        m = T[58].base(v, n)
        width = 2 if v[0] else 1
        cells = [[1.0 + 0.5 * k, -2.0 - k][:width] for k in range(n)]
        for k in range(n):
            for j in range(width):
                cells[k][j] = ctx.dev('sample %d.%d' % (k, j), [cells[k][j]] + pool)
        m['data'] = [complex(*c) if v[0] else c[0] for c in cells]
        if not v[1]:
            for k in range(n):
                m['x'][k] = ctx.dev('x %d' % k, [m['x'][k]] + xs58(v, fd))
        rt.go(ctx, T[58], m, force_double=fd, layout=layout)
    return [Suite('58-values', driver, bound=1 if tier == 'quick' else 2, window=None if tier == 'quick' else 2,
                  rule='every value of the alphabet at every position of short functions')]


def f58_axis(tier, binary, layout=False):
    x0s = [0.0, 1.0, -12.5, 1234.5, -1e-9, 9.99999e9, -1.5e99, 2.5e-99]
    dxs = [1.0, 0.25, -0.5, 1e-6, 3.125e5, 9.99999e-99, 0.0, 123456.0]

    def driver(ctx):
        v = ctx.choose('variant', [w for w in variants58(binary) if w[1]])
        n = ctx.choose('points', [1, 2, 3, 9])
        x0 = ctx.choose('first abscissa', x0s)
        dx = ctx.choose('increment', dxs)
        m = T[58].base(v, n)
        T[58].fill(m, n, x0=x0, dx=dx)
        rt.go(ctx, T[58], m, layout=layout)
    return [Suite('58-axis', driver, rule='every first abscissa x increment x number of points, even spacing')]


def f58_containers(tier, binary, layout=False):
    forms = {
        'list': lambda a: list(a), 'tuple': lambda a: tuple(a), 'strided': lambda a: np.repeat(a, 2)[::2], 'reversed': lambda a: a[::-1].copy()[::-1],
        'fortran': lambda a: np.asfortranarray(a), 'readonly': lambda a: _readonly(a), 'big endian': lambda a: a.astype(a.dtype.newbyteorder('>')),
        'matrix column': lambda a: np.stack([a, a + 1], axis=1)[:, 0]}

    def driver(ctx):
        v = ctx.choose('variant', variants58(binary))
        fd = ctx.choose('force_double', [True, False])
        n = ctx.choose('points', [1, 4, 7])
        what = ctx.choose('which', ['data', 'x'])
        form = ctx.choose('form', sorted(forms) + (['int', 'single'] if what == 'data' else ['int']))
        m = T[58].base(v, n)
        T[58].fill(m, n, [1.5, -2.25, 1024.0, 3.0, 0.0, -7.75e8], x0=2.0, dx=3.0)
        if form == 'int':
            if what == 'data':
                if v[0]:
                    return
                m['data'] = [float(int(y)) for y in m['data']]
            elif not v[1]:
                m['x'] = [float(int(y)) for y in m['x']]
        d = T[58].dset(m)
        if form == 'int':
            d[what] = d[what].astype(int)
        elif form == 'single':
            d[what] = d[what].astype('F' if v[0] else 'f')
        else:
            if form == 'list' and what == 'x' or form in ('tuple', 'list'):
                d[what] = forms[form](d[what].tolist())
            else:
                d[what] = forms[form](d[what])
        rt.go(ctx, T[58], m, force_double=fd, layout=layout, dset=d)
    return [Suite('58-containers', driver, rule='samples and abscissa in every form of container and number type')]


def _readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def f58_ordtype(tier, binary, layout=False):
    """ord_data_type as the caller gave it (or not) when double precision is forced."""
    def driver(ctx):
        v = ctx.choose('variant', variants58(binary, (False,)))
        o = ctx.choose('ord_data_type', [None, 2, 4, 5, 6])
        n = ctx.choose('points', [1, 2, 3, 4, 5, 8])
        m = T[58].base(v, n)
        d = T[58].dset(m)
        del d['ord_data_type']
        if o is not None:
            d['ord_data_type'] = o
        rt.go(ctx, T[58], m, layout=layout, dset=d)
    return [Suite('58-ordtype', driver, rule='double precision forced over every requested ordinate type')]


# ---------------------------------------------------------------------------------------------------------------- 55

def f55(tier, layout=False):
    deep = tier != 'quick'
    vs = sets.VARIANTS[55]
    make = [('55%s' % (v,), T[55], lambda v=v: T[55].base(v, 2)) for v in vs if v[1:] in ((False, 3), (True, 6)) or deep]
    out = header_suites('55', make, tier, layout, pairs_quick=8)
    values = alpha.REALS_FIXED + alpha.REALS_LONG[:3]
    nodes = [1, 12, 305, 99999, 1234567, 99999999, 999999999, 2147483647, 0, -5, 9999999999]

    def shape(ctx):
        v = ctx.choose('variant', vs)
        n = ctx.choose('nodes', [0] + counts(tier, big=False) if deep else [0] + alpha.COUNTS + [63, 64, 65, 100, 256, 257, 1000])
        shift = ctx.choose('shift', [0, 5] if n < 50 else [0])
        m = T[55].base(v, n)
        T[55].fill(m, n, values, nodes[shift:] + nodes[:shift], shift)
        ctx.note('variant %s, %d nodes' % (v, n))
        rt.go(ctx, T[55], m, layout=layout)

    def cells(ctx):
        v = ctx.choose('variant', vs)
        n = ctx.choose('nodes', [1, 2, 3])
        m = T[55].base(v, n)
        for i in range(n):
            m['node_nums'][i] = ctx.dev('node %d' % i, [m['node_nums'][i]] + nodes)
            for j in range(v[2]):
                y = m['r%d' % (j + 1)]
                parts = [y[i].real, y[i].imag] if v[1] else [y[i]]
                parts = [ctx.dev('r%d[%d].%d' % (j + 1, i, k), [p] + values) for k, p in enumerate(parts)]
                y[i] = complex(*parts) if v[1] else parts[0]
        rt.go(ctx, T[55], m, layout=layout)

    def forms(ctx):
        v = ctx.choose('variant', vs)
        n = ctx.choose('nodes', [1, 3])
        form = ctx.choose('form', ['list', 'int nodes 32', 'float nodes', 'single', 'matrix columns', 'six as three'])
        m = T[55].base(v, n)
        d = T[55].dset(m)
        keys = ['r%d' % (j + 1) for j in range(v[2])]
        if form == 'list':
            if v[1]:
                d['node_nums'] = d['node_nums'].tolist()     # complex components must be arrays of numbers with real and imag
            for k in keys + ['node_nums']:
                d[k] = np.asarray(d[k]).tolist()
        elif form == 'int nodes 32':
            d['node_nums'] = d['node_nums'].astype('int32')
        elif form == 'float nodes':
            d['node_nums'] = d['node_nums'].astype('d')
        elif form == 'single':
            for k in keys:
                d[k] = d[k].astype('F' if v[1] else 'f')
        elif form == 'matrix columns':
            a = np.stack([d[k] for k in keys], axis=1)
            for j, k in enumerate(keys):
                d[k] = a[:, j]
        rt.go(ctx, T[55], m, layout=layout, dset=d)

    def mixed(ctx):
        # some of the components are complex, the others real
        analysis = ctx.choose('analysis type', [2, 3, 5, 7])
        comp = ctx.choose('components', [3, 6])
        which = ctx.choose('complex components', list(range(1, 2 ** comp)))
        n = ctx.choose('nodes', [1, 3] if comp == 3 or deep else [2])
        form = ctx.choose('container', ['array', 'single', 'reversed'] if deep or comp == 3 else ['array'])
        m = T[55].base((analysis, True, comp), n)
        d = T[55].dset(m)
        for j in range(comp):
            k = 'r%d' % (j + 1)
            cplx = bool(which & 1 << j)
            if not cplx:
                m[k] = [complex(x.real, 0.0) for x in m[k]]
            v = np.array(m[k] if cplx else [x.real for x in m[k]], 'D' if cplx else 'd')
            d[k] = v.astype('F' if cplx else 'f') if form == 'single' else v[::-1].copy()[::-1] if form == 'reversed' else v
        ctx.note('%d: %s of %d complex' % (analysis, bin(which), comp))
        rt.go(ctx, T[55], m, layout=layout, dset=d)
    return out + [Suite('55-mixed', mixed, rule='analysis type x every combination of real and complex components'),
                  Suite('55-shape', shape, rule='analysis type x real/complex x components x every number of nodes x node and value rotations'),
                  Suite('55-cells', cells, bound=2 if deep else 1, window=None if deep and False else 3, rule='every value at every place of sets with 1 to 3 nodes'),
                  Suite('55-forms', forms, rule='containers and number types')]


# -------------------------------------------------------------------------------------------------------------- 2414

def f2414(tier, layout=False):
    deep = tier != 'quick'
    t = T[2414]
    vs = sets.VARIANTS[2414]
    make = [('2414%s' % (v,), t, lambda v=v: t.base(v, 2)) for v in vs if v in (('freq', 3), (1, False), (2, False), (3, False)) or deep]
    out = header_suites('2414', make, tier, layout, pairs_quick=2)
    values = alpha.REALS_FIXED + alpha.REALS_LONG[:3]
    nodes = [1, 12, 305, 99999, 1234567, 99999999, 2147483647, 0, -999999999, 9999999999]
    pers = {1: [1, 2, 3, 5, 6, 7, 9, 12, 13], 2: [1, 6, 7, 12, [1, 6, 3], [6, 7, 13, 1]], 3: [[(1, 1, 6)], [(1, 4, 6)], [(2, 4, 6)], [(1, 3, 1), (2, 4, 5)], [(2, 1, 1), (1, 8, 3)], [(1, 20, 6)], [(1, 21, 1)], [(1, 27, 2)], [(1, 64, 1), (2, 101, 6)], [(1, 128, 3)]]}

    def shape(ctx):
        v = ctx.choose('variant', vs)
        n = ctx.choose('entities', (list(range(0, 70)) + alpha.EDGES[13:] if deep else [0] + alpha.COUNTS + [63, 64, 65, 100, 256]))
        per = ctx.choose('values per entity', pers[v[0]] if v[0] != 'freq' and n <= (70 if deep else 9) else [None])
        dt = ctx.choose('data type', [5, 6] if v[0] == 'freq' or v[1] else [2, 4])
        shift = ctx.choose('shift', [0, 4, 9] if n < 30 else [0])
        m = t.base(v, n)
        m['data_type'] = dt
        k = shift % len(nodes)
        t.fill(m, n, values, nodes[k:] + nodes[:k], shift, per)
        ctx.note('variant %s, %d entities, %s values' % (v, n, per))
        rt.go(ctx, t, m, layout=layout)

    def cells(ctx):
        v = ctx.choose('variant', vs)
        n = ctx.choose('entities', [1, 2])
        m = t.base(v, n)
        for key in ('node_nums', 'element_nums'):
            if key in m:
                for i in range(n):
                    m[key][i] = ctx.dev('%s[%d]' % (key, i), [m[key][i]] + nodes)
        for key in ('x', 'y', 'z'):
            if key in m:
                for i in range(n):
                    m[key][i] = complex(ctx.dev('%s[%d].re' % (key, i), [m[key][i].real] + values), ctx.dev('%s[%d].im' % (key, i), [m[key][i].imag] + values))
        for key in ('data_at_node', 'data_at_element'):
            if key in m:
                for row in m[key]:
                    for i in range(len(row)):
                        row[i] = ctx.dev('%s %d' % (key, i), [row[i]] + values)
        if 'data_at_nodes_on_element' in m:
            for el in m['data_at_nodes_on_element']:
                for row in el:
                    for i in range(len(row)):
                        row[i] = ctx.dev('value %d' % i, [row[i]] + values)
        rt.go(ctx, t, m, layout=layout)

    def components(ctx):
        # stored in full or refused
        count = ctx.choose('number of data values', list(range(0, 14 if deep else 10)) + [-1, 100])
        n = ctx.choose('nodes', [0, 1, 2, 5])
        dt = ctx.choose('data type', [5, 6])
        real = ctx.choose('real components', list(range(8)))
        m = t.base(('freq', 3), n)
        m['data_type'] = dt
        d = t.dset(m)
        d['number_of_data_values_for_the_data_component'] = count
        for j, k in enumerate('xyz'):
            if real & 1 << j:
                d[k] = np.asarray(d[k]).real.copy()
        want = {k: np.array(d[k]) for k in ('xyz' if count > 3 else 'xyz'[:max(count, 0)])}
        path = ctx.file()
        lib.put(path, b'')
        ctx.op()
        if lib.refused(lib.write, path, d, 'add'):
            ctx.check(count not in (1, 2, 3), '%s data values of %s nodes refused', count, n)
            ctx.check(lib.data_of(path) == b'', 'a refused set left %d bytes', len(lib.data_of(path)))
        elif n:
            got = lib.read(path)
            ctx.op()
            ctx.check(1 <= count or not n, 'stored with %s data values', count)
            for k, v in want.items():
                w = np.array([complex(float('%.5e' % x.real), float('%.5e' % x.imag)) for x in v])
                ctx.check(k in got and np.array_equal(got[k], w), '%s data values: %s is %.80r, written %.80r', count, k, got.get(k), v)
            ctx.check(list(got['node_nums']) == list(d['node_nums']), '%s data values: the nodes are %.80r', count, got['node_nums'])
        ctx.observe(count, n, dt, real)
    return out + [Suite('2414-components', components, rule='number of data values x nodes x real or complex components: stored in full or refused'),
                  Suite('2414-shape', shape, rule='location x every number of entities x values per entity x data type x rotations'),
                  Suite('2414-cells', cells, bound=1 if not deep else 2, window=2, rule='every value at every place of sets with one or two entities')]


# ------------------------------------------------------------------------------------------- rows: 15, 18, 2411, 2420

def rows_suites(num, tier, layout=False):
    deep = tier != 'quick'
    t = T[num]
    fields = t.entry_fields()

    def options(f):
        if f[1] == 'I':
            return alpha.ints(f[2], True, True)
        if f[1] == 'E':
            return alpha.REALS_FIXED + alpha.REALS_LONG[:3]
        if f[1] == 'D':
            return alpha.REALS_DOUBLE + alpha.REALS_FIXED
        return [x for x in alpha.texts(f[2], True)]
    opts = {f[0]: options(f) for f in fields}

    def put(m, key, i, v):
        parts = key.split('.')
        a = m[parts[0]]
        for p in [i] + [int(p) for p in parts[1:-1]]:
            if len(parts) > 1:
                a = a[p]
        if len(parts) == 1:
            a[i] = v
        else:
            a[int(parts[-1])] = v

    def shape(ctx):
        n = ctx.choose('entries', list(range(0, 70)) + alpha.EDGES[13:] if deep else [0] + alpha.COUNTS + [63, 64, 65, 100, 256, 257])
        shift = ctx.choose('shift', list(range(0, 30, 3)) if n <= 9 else [0, 7])
        m = t.base(n=n)
        for j, f in enumerate(fields):
            o = opts[f[0]]
            for i in range(n):
                put(m, f[0], i, o[(i * 5 + j * 3 + shift) % len(o)])
        ctx.note('%d entries of %d' % (n, num))
        rt.go(ctx, t, m, layout=layout)

    def cells(ctx):
        n = ctx.choose('entries', [1, 3])
        i = ctx.choose('entry', list(range(n)))
        m = t.base(n=n)
        for f in fields:
            put(m, f[0], i, ctx.dev('%s[%d]' % (f[0], i), [t.cell(m, f[0], i)] + opts[f[0]]))
        rt.go(ctx, t, m, layout=layout)

    def forms(ctx):
        n = ctx.choose('entries', [1, 2, 5])
        form = ctx.choose('form', ['list', 'array', 'int32', 'float labels', 'tuple', 'single'])
        key = ctx.choose('field', ['all'] + sorted(k for k in t.base(n=1) if isinstance(t.base(n=1)[k], list)))
        m = t.base(n=n)
        for f in fields:
            if f[1] in 'ED':
                for i in range(n):
                    put(m, f[0], i, [0.5, -1.25, 3.0, 1024.0][(i + len(f[0])) % 4])
        d = t.dset(m)
        kinds = t.fields(m)
        for k, v in list(d.items()):
            if key in ('all', k) and k in kinds and isinstance(m.get(k), list):
                if num == 2420 and k == 'CS_matrices':
                    if form in ('array', 'single'):
                        d[k] = np.array(m[k], 'f' if form == 'single' else 'd')
                    continue
                text = kinds[k] == 'A'
                if form == 'list':
                    d[k] = m[k]
                elif form == 'tuple':
                    d[k] = tuple(m[k])
                elif form == 'array':
                    d[k] = np.array(m[k])
                elif form == 'int32' and kinds[k] == 'I':
                    d[k] = np.array(m[k], 'int32')
                elif form == 'float labels' and kinds[k] == 'I' and not (num == 15 and False):
                    d[k] = np.array(m[k], 'd')
                elif form == 'single' and kinds[k] in ('E5', 'D16'):
                    d[k] = np.array(m[k], 'f')
        rt.go(ctx, t, m, layout=layout, dset=d)
    out = [Suite('%d-shape' % num, shape, rule='every number of entries x rotations that bring every value to every field'),
           Suite('%d-cells' % num, cells, bound=2, window=None if deep else 2 if num != 2420 else 1, rule='one entry of 1 or 3: every field and pair of near fields at every value'),
           Suite('%d-forms' % num, forms, rule='containers and number types')]
    if t.header(t.base(n=1)):
        out += header_suites(str(num), [(str(num), t, lambda: t.base(n=2))], tier, layout)
    return out


# --------------------------------------------------------------------------------------------- 82, 2412, 2429, 2467

def f82(tier, layout=False):
    deep = tier != 'quick'
    t = T[82]
    nodes = [1, 25, 3, 0, 417, 417, 6002, 2147483647, 1234567890, 12, 0, 0, 5, 9999999999, 4294967297]
    out = header_suites('82', [('82', t, lambda: t.base(n=3)), ('82 line', t, lambda: t.base(n=8))], tier, layout, pairs_quick=2)

    def shape(ctx):
        n = ctx.choose('nodes', [0] + counts(tier))
        shift = ctx.choose('shift', list(range(len(nodes))) if n < 300 else [0])
        m = t.base(n=n)
        t.fill(m, n, nodes, shift)
        ctx.note('%d nodes' % n)
        rt.go(ctx, t, m, layout=layout)

    def words(ctx):
        """All short lists over four labels, zeros included."""
        n = ctx.choose('nodes', [1, 2, 3, 4, 5] if not deep else [1, 2, 3, 4, 5, 6, 7])
        m = t.base(n=n)
        m['nodes'] = [ctx.choose('node %d' % k, [7, 0, 12, 345678901] if n < 5 else [7, 0, 12]) for k in range(n)]
        rt.go(ctx, t, m, layout=layout)

    def cells(ctx):
        n = ctx.choose('nodes', [1, 7, 8, 9, 16, 17])
        m = t.base(n=n)
        for k in range(n):
            m['nodes'][k] = ctx.dev('node %d' % k, [m['nodes'][k]] + alpha.ints(10, True, True))
        rt.go(ctx, t, m, layout=layout)

    def forms(ctx):
        n = ctx.choose('nodes', [1, 8, 11])
        form = ctx.choose('form', [list, tuple, lambda a: np.array(a, 'int32'), lambda a: np.array(a, 'd'), lambda a: np.array(a)[::-1].copy()[::-1]])
        m = t.base(n=n)
        d = t.dset(m)
        d['nodes'] = form(m['nodes'])
        rt.go(ctx, t, m, layout=layout, dset=d)
    return out + [Suite('82-shape', shape, rule='every number of nodes x every rotation of a list with repeats and pen lifts'),
                  Suite('82-words', words, rule='all lists of up to 5 (thorough 7) nodes over a few labels and zero'),
                  Suite('82-cells', cells, bound=2 if deep else 1, rule='every label value at every place'),
                  Suite('82-forms', forms, rule='containers')]


ELEMENTS = [(44, 4), (41, 3), (21, 2), (11, 2), (22, 3), (23, 2), (24, 2), (115, 8), (118, 10), (116, 20), (44, 1), (111, 4), (91, 9), (161, 1), (141, 2), (94, 16)]


def f2412(tier, layout=False):
    deep = tier != 'quick'
    t = T[2412]

    def sequences(ctx):
        """All sequences of a few elements over the kinds."""
        n = ctx.choose('elements', [1, 2, 3])
        menu = ELEMENTS if n < 3 or deep else ELEMENTS[:9]
        m = {'elements': []}
        for k in range(n):
            m['elements'].append(t.element(k, *ctx.choose('element %d' % k, menu)))
        if n > 1 and m['elements'][-1].keys() == m['elements'][0].keys() and ctx.choose('the same element again', [False, True]):
            m['elements'][-1] = dict(m['elements'][0])
        rt.go(ctx, t, grouped(ctx, m, layout), layout=layout)

    def grouped(ctx, m, layout):
        return {'elements': t.grouped(m)} if layout else m

    def sizes(ctx):
        fe = ctx.choose('descriptor', [44, 41, 11, 21, 22, 23, 24, 111, 118, 122, 137, 1, 12, 25, 212])
        n = ctx.choose('nodes', list(range(1, 35)) if not deep else list(range(1, 130)))
        last = ctx.choose('then', [None, 44, 21])
        nodes = [(k * 7 % 5) * 1000 + k for k in range(n)]
        els = [t.element(0, fe, n, nodes)]
        if last:
            els.append(t.element(1, last, 2))
        m = {'elements': els}
        rt.go(ctx, t, grouped(ctx, m, layout), layout=layout)

    def kinds(ctx):
        """Every number of an element kind."""
        fe = ctx.choose('descriptor', list(range(1, 320)) + [1011, 1021, 1041, 1044, 4100, 4400, 10044, 2147483647, 9999999999] if not deep else list(range(1, 5000)) + [9999, 10044, 2 ** 16 + 44, 2147483647, 2 ** 32 + 44, 9999999999])
        n = ctx.choose('nodes', [1, 2, 9])
        els = [t.element(0, fe, n), t.element(1, 44, 4)]
        rt.go(ctx, t, grouped(ctx, {'elements': els}, layout), layout=layout)

    def cells(ctx):
        els = ctx.choose('elements', [[(44, 4)], [(21, 2)], [(41, 3), (44, 4)], [(11, 2), (11, 2)], [(118, 9)]])
        m = {'elements': [t.element(k, *e) for k, e in enumerate(els)]}
        for k, el in enumerate(m['elements']):
            for key in list(el):
                if key in ('fe_descriptor', 'num_nodes'):
                    continue
                if key == 'nodes_nums':
                    for j in range(len(el[key])):
                        el[key][j] = ctx.dev('node %d' % j, [el[key][j]] + alpha.ints(10, True, True))
                else:
                    el[key] = ctx.dev(key, [el[key]] + alpha.ints(10, True, True))
        rt.go(ctx, t, m, layout=layout)

    def many(ctx):
        n = ctx.choose('elements', [0] + alpha.COUNTS + [63, 64, 65, 100, 255, 256, 257, 1000] + (alpha.EDGES if deep else []))
        kinds = ctx.choose('kinds', [[(44, 4)], [(41, 3)], [(44, 4), (41, 3)], [(21, 2)], [(44, 4), (21, 2), (118, 10)]])
        m = {'elements': [t.element(k, *kinds[k % len(kinds)]) for k in range(n)]}
        ctx.note('%d elements of kinds %s' % (n, kinds))
        rt.go(ctx, t, grouped(ctx, m, layout), layout=layout)

    def forms(ctx):
        form = ctx.choose('form', ['legacy', 'legacy arrays', 'legacy both', 'prepared', 'array nodes', 'numpy numbers', 'read back'])
        n = ctx.choose('elements', [1, 2, 3, 9])
        fe, k = ctx.choose('kind', [(44, 4), (41, 3), (21, 2), (111, 4)])
        els = [t.element(i, fe, k) for i in range(n)]
        m = {'elements': els}
        cols = {key: [el[key] for el in els] for key in els[0]}
        if form in ('legacy', 'legacy arrays', 'legacy both'):
            if fe not in (44, 41):
                return
            if form == 'legacy arrays':
                cols = {k: np.array(v) for k, v in cols.items()}
            d = {'type': 2412, {44: 'quad', 41: 'triangle'}[fe]: cols}
            if form == 'legacy both':
                other = 85 - fe
                extra = [t.element(50 + i, other, 85 - fe - 41 + 3 if False else (3 if other == 41 else 4)) for i in range(2)]
                d[{44: 'quad', 41: 'triangle'}[other]] = {key: [el[key] for el in extra] for key in extra[0]}
                m = {'elements': els + extra}
        elif form == 'prepared':
            if fe in sets.BEAMS:
                return
            d = lib.pyuff.prepare_2412(element_nums=cols['element_nums'], fe_descriptor=cols['fe_descriptor'], phys_table=cols['phys_table'],
                                       mat_table=cols['mat_table'], color=cols['color'], nodes_nums=cols['nodes_nums'])
        elif form == 'array nodes':
            d = t.dset(m)
            for el in d[fe]:
                el['nodes_nums'] = np.array(el['nodes_nums'])
        elif form == 'numpy numbers':
            d = t.dset(m)
            d[fe] = [{key: (np.int64(v) if not isinstance(v, list) else v) for key, v in el.items()} for el in d[fe]]
        else:
            path = ctx.file('first.uff')
            lib.write(path, t.dset(m))
            d = lib.read(path)
        rt.go(ctx, t, m, layout=layout, dset=d)
    return [Suite('2412-sequences', sequences, rule='all sequences of one to three elements over sixteen kinds'),
            Suite('2412-sizes', sizes, rule='every number of nodes of an element, alone and followed by another'),
            Suite('2412-kinds', kinds, rule='every number of an element kind'),
            Suite('2412-cells', cells, bound=2 if deep else 1, window=2, rule='every value in every field'),
            Suite('2412-many', many, rule='every number of elements'),
            Suite('2412-forms', forms, rule='the layouts of the dictionary the library accepts')]


def f_groups(num, tier, layout=False):
    deep = tier != 'quick'
    t = T[num]

    def sizes(ctx):
        """All groupings: one to three groups of every size."""
        k = ctx.choose('groups', [0, 1, 2, 3])
        menu = {0: [], 1: list(range(0, 35)) + [63, 64, 65, 100, 257, 1000], 2: list(range(0, 10)), 3: [0, 1, 2, 3, 4, 5]}[k]
        if deep:
            menu = {0: [], 1: list(range(0, 260)) + [1000, 1025], 2: list(range(0, 18)), 3: list(range(0, 10))}[k]
        m = {'groups': [t.group(j, ctx.choose('entities of %d' % j, menu), shift=j) for j in range(k)]}
        ctx.note('groups of %s' % [g['number_of_entities_in_group'] for g in m['groups']])
        rt.go(ctx, t, m, layout=layout)

    def many(ctx):
        n = ctx.choose('groups', [4, 5, 7, 8, 9, 16, 33, 64, 100])
        step = ctx.choose('step', [0, 1, 2, 3, 5])
        m = {'groups': [t.group(j, (j * step) % 11) for j in range(n)]}
        rt.go(ctx, t, m, layout=layout)

    def header(ctx):
        k = ctx.choose('groups', [1, 2])
        n = ctx.choose('entities', [0, 1, 3])
        m = {'groups': [t.group(j, n) for j in range(k)]}
        for g in m['groups']:
            for f in t.R1[:7] + t.R2:
                g[f[0]] = ctx.dev(f[0], [g[f[0]]] + alpha.field(f, True))
        rt.go(ctx, t, m, layout=layout)

    def pairs(ctx):
        n = ctx.choose('entities', [0, 2])
        m = {'groups': [t.group(j, n) for j in range(2)]}
        for g in m['groups']:
            for f in t.R1[:7] + t.R2:
                g[f[0]] = ctx.dev(f[0], [g[f[0]]] + alpha.field(f))
        rt.go(ctx, t, m, layout=layout)

    def cells(ctx):
        n = ctx.choose('entities', [1, 2, 3, 4, 5])
        m = {'groups': [t.group(0, n), t.group(1, 2)]}
        for i in range(n):
            for key in t.ENT:
                m['groups'][0][key][i] = ctx.dev('%s[%d]' % (key, i), [m['groups'][0][key][i]] + alpha.ints(10, True, True))
        rt.go(ctx, t, m, layout=layout)

    def forms(ctx):
        form = ctx.choose('form', ['lists', 'int32', 'tuples', 'floats', 'prepared', 'count given', 'wrong count given'])
        n = ctx.choose('entities', [0, 1, 4, 5])
        m = {'groups': [t.group(0, n), t.group(1, 2)]}
        d = t.dset(m)
        for g in d['groups']:
            for key in t.ENT:
                g[key] = {'lists': list, 'tuples': tuple, 'int32': lambda a: np.array(a, 'int32'), 'floats': lambda a: np.array(a, 'd')}.get(form, np.array)(g[key].tolist())
            if 'count' in form:
                g['number_of_entities_in_group'] = len(g['entity_tag']) + (3 if form.startswith('wrong') else 0)
        if form == 'prepared':
            if n == 0:
                return
            prep = lib.pyuff.prepare_group if num == 2429 else lib.pyuff.datasets.dataset_2467.prepare_group
            d = {2429: lib.pyuff.prepare_2429, 2467: lib.pyuff.prepare_2467}[num](groups=[prep(**{k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in g.items()}) for g in d['groups']])
        rt.go(ctx, t, m, layout=layout, dset=d)
    return [Suite('%d-sizes' % num, sizes, rule='one to three groups of every size'), Suite('%d-many' % num, many, rule='many groups'),
            Suite('%d-header' % num, header, bound=1, rule='every header field of one or two groups at its deep alphabet'),
            Suite('%d-pairs' % num, pairs, bound=2, window=None if deep else 2, rule='pairs of header fields of two groups'),
            Suite('%d-cells' % num, cells, bound=2 if deep else 1, window=2, rule='every value in every entity field'),
            Suite('%d-forms' % num, forms, rule='containers, prepared groups, an entity count in the dictionary')]


# ------------------------------------------------------------------------------------------------------- header sets

def f_flat(num, tier, layout=False):
    t = T[num]
    out = header_suites(str(num), [(str(num), t, t.base)], 'thorough' if num in (151, 164) else tier, layout)
    if num == 2400:
        def mask(ctx):
            m = t.base()
            for k in range(32):
                m['status_mask'][k] = ctx.dev('status %d' % k, [m['status_mask'][k], 0, 1, 10, 99, -1, -9])
            rt.go(ctx, t, m, layout=layout)
        out.append(Suite('2400-mask', mask, bound=2, window=None if tier != 'quick' else 2, rule='every value at every place of the status mask'))
    if num == 2400:
        def dates(ctx):
            m = t.base()
            m['date'] = ctx.choose('date', alpha.texts(10, True))
            m['time'] = ctx.choose('time', alpha.texts(10, True))
            m['idm_version_id'] = ctx.choose('version', alpha.ints(12))
            rt.go(ctx, t, m, layout=layout)
        out.append(Suite('2400-dates', dates, rule='all values of three neighbouring fields'))
    if num == 151:
        def forms(ctx):
            m = t.base()
            form = ctx.choose('version form', ['int', 'str', 'numpy'])
            d = t.dset(m)
            for k in ('version_db1', 'version_db2', 'file_type'):
                v = ctx.choose(k, [0, 7, 1234567890, 2147483647])
                m[k] = v
                d[k] = {'int': int, 'str': str, 'numpy': np.int64}[form](v)
            rt.go(ctx, t, m, layout=layout, dset=d)
        out.append(Suite('151-forms', forms, rule='version numbers as numbers and as text'))
    return out
