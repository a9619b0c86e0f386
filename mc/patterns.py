"""Columns of a set: the values one field takes over its entries, and patterns of such values.

The other suites put single values in single places; these relate the values of neighbouring entries (equal, rising, falling,
zero at the end, growing a digit, ...), which code that compares, sorts, merges or counts entries may depend on.
"""
from . import alpha, roundtrip as rt, sets
from .engine import Suite

T = sets.TYPES

LABELS = {
    'from 1': lambda n: list(range(1, n + 1)),
    'from 0': lambda n: list(range(n)),
    'falling': lambda n: list(range(n + 4, 4, -1)),
    'equal': lambda n: [7] * n,
    'all zero': lambda n: [0] * n,
    'in pairs': lambda n: [3 + k // 2 for k in range(n)],
    'alternating': lambda n: [(5, 9)[k % 2] for k in range(n)],
    'first again at the end': lambda n: [4 + k for k in range(n - 1)] + [4] if n > 1 else [4],
    'unsorted': lambda n: [1 + (3 * k + 2) % (n if n % 3 else n + 1) for k in range(n)],
    'growing a digit': lambda n: [10 ** (n // 2 + 1) - n // 2 + k for k in range(n)] if n < 12 else [99999 - n // 2 + k for k in range(n)],
    'powers of ten': lambda n: [10 ** (k % 10) for k in range(n)],
    'beyond single precision': lambda n: [2 ** 24 + 1 + 2 * k for k in range(n)],
    'nine digits': lambda n: [999999999 - k for k in range(n)],
    'ten digits': lambda n: [2147483647 - k for k in range(n)],
    'more than 32 bits': lambda n: [9999999999 - k for k in range(n)],
    'filling the columns': lambda n: [(1234567890, -999999999)[k % 2] for k in range(n)],
    'first zero': lambda n: [0] + [6 + k for k in range(n - 1)],
    'last zero': lambda n: [6 + k for k in range(n - 1)] + [0],
    'last one less': lambda n: [6 + k for k in range(n - 1)] + [4 + n - 1] if n > 1 else [4],
    'set numbers': lambda n: [(58, 15, 82, 151, 2411, 2412, 2414, 55)[k % 8] for k in range(n)],
    'negative': lambda n: [-1 - k for k in range(n)],
    'signs': lambda n: [(-1) ** k * (k + 1) for k in range(n)],
}
REALS = {
    'equal': lambda n: [1.5] * n,
    'all zero': lambda n: [0.0] * n,
    'rising': lambda n: [0.25 * k for k in range(n)],
    'falling': lambda n: [8.5 - 0.5 * k for k in range(n)],
    'whole': lambda n: [float(k + 1) for k in range(n)],
    'signs': lambda n: [(-1) ** k * 1.25 for k in range(n)],
    'first zero': lambda n: [0.0] + [2.5 + k for k in range(n - 1)],
    'last zero': lambda n: [2.5 + k for k in range(n - 1)] + [0.0],
    'growing': lambda n: [10.0 ** (k % 20 - 8) for k in range(n)],
    'shrinking': lambda n: [-10.0 ** (9 - k % 20) for k in range(n)],
    'negative': lambda n: [-1.0 - k for k in range(n)],
    'symmetric': lambda n: [float(min(k, n - 1 - k)) for k in range(n)],
    'filling the columns': lambda n: [-1e-100 - 1e-101 * (k % 9) for k in range(n)],
    'some fill the columns': lambda n: [(2.5, -1.25e-101)[k % 3 > 0] for k in range(n)],
    'huge': lambda n: [9.99999e98, -9.99999e98, 1e-98] * (n // 3) + [1e98] * (n % 3),
}
TEXTS = {
    'equal': lambda n: ['name'] * n,
    'all empty': lambda n: [''] * n,
    'first empty': lambda n: [''] + ['n%d' % k for k in range(n - 1)],
    'last empty': lambda n: ['n%d' % k for k in range(n - 1)] + [''],
    'falling': lambda n: ['name %d' % (n - k) for k in range(n)],
    'numbers': lambda n: ['%d' % (k * 7) for k in range(n)],
    'NONE': lambda n: ['NONE'] * n,
    'by case': lambda n: ['NAME' if k % 2 else 'name' for k in range(n)],
    'delimiters': lambda n: ['-1' if k % 2 else 'x    -1' for k in range(n)],
    'longer': lambda n: ['n' * (1 + k % 20) for k in range(n)],
}
PATTERNS = {'I': LABELS, 'E': REALS, 'A': TEXTS}


class Pattern:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __repr__(self):
        return self.name

    def __call__(self, n):
        return PATTERNS[self.kind][self.name](n)


ALL = {k: [Pattern(k, name) for name in v] for k, v in PATTERNS.items()}


class Case:
    """A kind of set whose columns can be filled: label, t, make(n) -> (model, [(name, kind, put(values))])."""

    def __init__(self, label, t, make, finish=None):
        self.label, self.t, self.make, self.finish = label, t, make, finish

    def __repr__(self):
        return self.label


def _list_put(m, key):
    def put(v):
        m[key] = list(v)
    return put


def _part_put(m, key, part):
    def put(v):
        m[key] = [complex(x, y.imag) if part == 0 else complex(y.real, x) for x, y in zip(v, m[key])]
    return put


def _case58(v):
    t = T[58]

    def make(n):
        m = t.base(v, n)
        if not v[0]:
            cols = [('data', 'E', _list_put(m, 'data'))]
        else:
            cols = [('data.re', 'E', _part_put(m, 'data', 0)), ('data.im', 'E', _part_put(m, 'data', 1))]
        if not v[1]:
            cols.append(('x', 'E', _list_put(m, 'x')))
        return m, cols
    return Case('58%s' % (v,), t, make)


def _case55(v):
    t = T[55]

    def make(n):
        m = t.base(v, n)
        cols = [('node_nums', 'I', _list_put(m, 'node_nums'))]
        for j in range(v[2]):
            key = 'r%d' % (j + 1)
            if v[1]:
                cols += [(key + '.re', 'E', _part_put(m, key, 0)), (key + '.im', 'E', _part_put(m, key, 1))]
            else:
                cols.append((key, 'E', _list_put(m, key)))
        return m, cols
    return Case('55%s' % (v,), t, make)


def _case2414(v, per=None):
    t = T[2414]

    def make(n):
        m = t.fill(t.base(v, n), n, per=per)
        key = 'node_nums' if v[0] in ('freq', 1) else 'element_nums'
        cols = [(key, 'I', _list_put(m, key))]
        if v[0] == 'freq':
            for c in ['x', 'y', 'z'][:v[1]]:
                cols += [(c + '.re', 'E', _part_put(m, c, 0)), (c + '.im', 'E', _part_put(m, c, 1))]
        else:
            rows = m.get('data_at_node') or m.get('data_at_element') or [r for el in m['data_at_nodes_on_element'] for r in el]

            def put_at(j):
                def put(v):
                    for k, row in enumerate(rows):
                        row[j % len(row)] = v[k % len(v)]
                return put

            def put_all(v):
                for k, row in enumerate(rows):
                    row[:] = [v[k % len(v)]] * len(row)
            cols += [('value 0', 'E', put_at(0)), ('last value', 'E', put_at(-1)), ('all values', 'E', put_all)]
        return m, cols
    return Case('2414%s%s' % (v, per or ''), t, make)


def _rows(num):
    t = T[num]

    def make(n):
        m = t.base(n=n)
        cols = []
        for f in t.entry_fields():
            parts = f[0].split('.')

            def put(v, parts=parts):
                for i in range(n):
                    if len(parts) == 1:
                        m[parts[0]][i] = v[i]
                    else:
                        a = m[parts[0]][i]
                        for p in parts[1:-1]:
                            a = a[int(p)]
                        a[int(parts[-1])] = v[i]
            cols.append((f[0], f[1] if f[1] in 'AI' else 'E', put))
        return m, cols
    return Case(str(num), t, make)


def _case82():
    t = T[82]

    def make(n):
        m = t.base(n=n)
        return m, [('nodes', 'I', _list_put(m, 'nodes'))]
    return Case('82', t, make)


def _case2412(kinds):
    t = T[2412]

    def make(n):
        els = [t.element(k, *kinds[k % len(kinds)]) for k in range(n)]
        m = {'elements': els}

        def put_key(key):
            def put(v):
                for k, el in enumerate(els):
                    if key in el:
                        el[key] = v[k]
            return put

        def put_node(j):
            def put(v):
                for k, el in enumerate(els):
                    el['nodes_nums'][j % len(el['nodes_nums'])] = v[k]
            return put

        def put_nodes(v):
            for el in els:
                w = list(v) * len(el['nodes_nums'])
                el['nodes_nums'] = w[:len(el['nodes_nums'])]
        keys = [key for key in els[-1] if key not in ('fe_descriptor', 'num_nodes', 'nodes_nums')]
        cols = [(key, 'I', put_key(key)) for key in keys]
        cols += [('first node', 'I', put_node(0)), ('last node', 'I', put_node(-1)), ('nodes of every element', 'I', put_nodes)]
        return m, cols
    return Case('2412 %s' % (kinds,), t, make, 'grouped')


def _case_groups(num, sizes):
    """n groups with the given numbers of entities."""
    t = T[num]

    def make(n):
        m = {'groups': [t.group(k, sizes[k % len(sizes)]) for k in range(n)]}

        def put_key(key):
            def put(v):
                for k, g in enumerate(m['groups']):
                    g[key] = v[k]
            return put
        cols = [(f[0], 'I', put_key(f[0])) for f in t.R1[:7]] + [('group_name', 'A', put_key('group_name'))]

        def all_numbers(v):
            for f in t.R1[:7]:
                put_key(f[0])(v)
        cols.append(('all numbers', 'I', all_numbers))
        return m, cols
    return Case('%d groups of %s' % (num, sizes), t, make)


def _case_entities(num):
    t = T[num]

    def make(n):
        m = {'groups': [t.group(0, n), t.group(1, 2)]}
        return m, [(key, 'I', _list_put(m['groups'][0], key)) for key in t.ENT]
    return Case('%d entities' % num, t, make)


THREE = [[(1, 2, 3), (2, 2, 3), (1, 2, 3)], [(2, 3, 6), (1, 3, 6), (2, 3, 6)], [(1, 1, 3), (2, 1, 3)], [(2, 4, 1), (2, 1, 4)], [(1, 4, 6), (1, 2, 6), (2, 4, 6), (2, 2, 6)]]
CASES = {
    3: [_case58(v) for v in sets.VARIANTS[58] if not v[3] and not v[2]],
    4: [_case58(v) for v in sets.VARIANTS[58] if v[3] and not v[2]],
    5: [_case55(v) for v in sets.VARIANTS[55] if v[0] in (2, 3, 5)],
    6: [_case2414(v) for v in sets.VARIANTS[2414]] + [_case2414((3, False), per) for per in THREE] + [_case2414((2, False), [1, 6, 7])],
    7: [_rows(n) for n in (15, 18, 2411, 2420)],
    8: [_case82()] + [_case2412(k) for k in ([(44, 4)], [(41, 3)], [(21, 2)], [(44, 4), (41, 3)], [(44, 4), (44, 4), (21, 2)], [(118, 10)])] +
       [_case_groups(n, s) for n in (2429, 2467) for s in ([0], [1], [0, 2], [2, 0], [3, 1])] + [_case_entities(2429), _case_entities(2467)],
}


def fits(case, name, p):
    """Group and labels that are part of a blank-separated record stay within nine digits; signs are left to the records that have them."""
    return True


def suites(which, tier, layout=False, go=None, name='patterns', ns=None):
    """The columns of a kind of set, one (and two) of them at every pattern, the others as they are."""
    cases = [c for k in which for c in CASES[k]]
    go = go or (lambda ctx, t, m: rt.go(ctx, t, m, layout=layout))
    ns = ns or [2, 3, 4, 5, 9] if tier == 'quick' else [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]

    def fill(ctx, c, n, picks):
        m, cols = c.make(n)
        for (key, kind, put), p in zip(cols, picks(cols)):
            if p is not None:
                put(p(n))
        if c.finish == 'grouped':
            m = {'elements': c.t.grouped(m)}
        go(ctx, c.t, m)

    def single(ctx):
        c = ctx.choose('set', cases)
        n = ctx.choose('entries', ns)
        cols = c.make(n)[1]
        k = ctx.choose('column', list(range(len(cols))))
        p = ctx.choose('pattern', ALL[cols[k][1]])
        ctx.note('%s, %d entries, %s %s' % (c, n, cols[k][0], p))
        fill(ctx, c, n, lambda cols: [p if j == k else None for j in range(len(cols))])

    def together(ctx):
        """All columns of a sort at the same pattern, or each at the next one."""
        c = ctx.choose('set', cases)
        n = ctx.choose('entries', ns)
        cols = c.make(n)[1]
        first = ctx.choose('pattern', list(range(max(len(v) for v in ALL.values()))))
        step = ctx.choose('step', [0, 1])
        ctx.note('%s, %d entries, pattern %d step %d' % (c, n, first, step))
        fill(ctx, c, n, lambda cols: [ALL[kind][(first + step * j) % len(ALL[kind])] for j, (key, kind, put) in enumerate(cols)])

    def pairs(ctx):
        c = ctx.choose('set', cases)
        n = ctx.choose('entries', [2, 3, 5])
        cols = c.make(n)[1]
        picks = [ctx.dev(key, [None] + ALL[kind]) for key, kind, put in cols]
        ctx.note('%s, %d entries' % (c, n))
        fill(ctx, c, n, lambda cols: picks)
    out = [Suite(name, single, rule='every column of a set at every pattern of values, 2 to %d entries' % ns[-1]),
           Suite(name + '-together', together, rule='all columns at the same pattern, or each at the next')]
    if tier != 'quick':
        out.append(Suite(name + '-pairs', pairs, bound=2, rule='every pair of columns at a pattern, and two (three) of the sorts'))
    return out


# ------------------------------------------------------------------------------------------------------- large sets

def large(which, tier, layout=False, go=None, ns=None):
    """Sets of very many entries."""
    go = go or (lambda ctx, t, m: rt.go(ctx, t, m, layout=layout))
    few = {3: [_case58((False, True, False, False)), _case58((True, False, False, False)), _case58((False, True, True, False)), _case58((True, False, True, False))],
           4: [_case58((False, True, False, True)), _case58((True, False, False, True)), _case58((False, True, True, True)), _case58((True, False, True, True))],
           5: [_case55((2, False, 3)), _case55((3, True, 6)), _case55((5, True, 3))],
           6: [_case2414(('freq', 3)), _case2414((1, False)), _case2414((2, False)), _case2414((3, False), [(1, 2, 6), (2, 4, 3)])],
           7: [_rows(n) for n in (15, 18, 2411, 2420)],
           8: [_case82(), _case2412([(44, 4), (21, 2)]), _case2412([(118, 10)]), _case_entities(2429), _case_entities(2467), _case_groups(2429, [1, 0]), _case_groups(2467, [0, 2])]}
    cases = [c for k in which for c in few[k]]
    deep = [1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 16385, 32768, 32769, 65535, 65536, 65537, 100000]
    if tier == 'quick':
        ns = ns or [1500, 2049, 4097, 9999, 10001] + ([16385, 33000, 66000] if which[0] in (3, 4) else [16400])
    else:
        ns = deep if ns is None else [n for n in deep if n < 10000]

    def driver(ctx):
        c = ctx.choose('set', cases)
        n = ctx.choose('entries', ns)
        labels = ctx.choose('labels', [None, 'from 1'])
        m, cols = c.make(n)
        if labels:
            key = [k for k in cols if k[1] == 'I']
            if not key:
                return
            key[0][2](ALL['I'][0](n))
        if c.t.num == 58 and c.label.startswith('58') and m['variant'][2]:
            fd = ctx.choose('force_double', [False, True] if n < 5000 else [False])
        else:
            fd = True
        if c.finish == 'grouped':
            m = {'elements': c.t.grouped(m)}
        ctx.note('%s of %d' % (c, n))
        if c.t.num == 58 and not fd:
            rt.go(ctx, c.t, m, force_double=fd, layout=layout)
        else:
            go(ctx, c.t, m)
    return [Suite('large', driver, rule='sets of up to %d entries' % ns[-1])]


# ------------------------------------------------------------------------------------------------------ header fields

def clip(f, v):
    """The value within the columns of a field."""
    if f[1] == 'A':
        return v[:f[2]].strip()
    if f[1] == 'I':
        top = 10 ** (f[2] - 1) - 1
        return int(max(-(top // 10 or 0), min(top, v))) if f[2] > 1 else abs(v) % 10
    return v


def headers(nums, tier, layout=False, go=None, binary=False, bound=2):
    """The fields of a header at a pattern: all equal, rising, all empty, ..."""
    go = go or (lambda ctx, t, m: rt.go(ctx, t, m, layout=layout))
    bases = []
    for num in nums:
        for v in sets.VARIANTS.get(num, [None]):
            if num == 58 and v[3] != binary:
                continue
            bases.append(Base(('%d%s' % (num, v or ''), T[num], v)))

    def driver(ctx):
        label, t, v = ctx.choose('set', bases)
        m = t.base(v, 2) if v is not None else t.base(n=2)
        for kind in 'IEA':
            fs = [f for f in t.header(m) if (f[1] if f[1] in 'IA' else 'E') == kind and f[0] not in rt.FIXED.get(t.num, ()) and (t.num, f[0]) not in rt.CODES
                  and (t.num, f[0]) != (2414, 'analysis_type') and not f[0].startswith('status_mask.')]
            if not fs:
                continue
            p = ctx.dev(kind, [None] + ALL[kind])
            if p is not None:
                order = ctx.choose('order', [1, -1])
                for f, x in zip(fs[::order], p(len(fs))):
                    m[f[0]] = clip(f, x)
        ctx.note(label)
        go(ctx, t, m)
    return [Suite('headers-patterns', driver, bound=3 if tier != 'quick' else bound, rule='the integers, reals and texts of a header at a pattern, and two (three) of the sorts')]


class Base(tuple):
    def __repr__(self):
        return self[0]
