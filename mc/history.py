"""Sets that carry a mark, and the model of a file as a list of sets."""
import numpy as np

from . import lib, sets

T = sets.TYPES


def mark(t, m, k):
    """The model with the mark k: two sets of the same kind with different marks differ."""
    m = dict(m)
    n = t.num
    if n in (58, 55, 2414):
        m['id2'] = 'mark %d' % k
    elif n == 15:
        m['node_nums'] = [x + k for x in m['node_nums']]
    elif n == 18:
        m['cs_num'] = [x + k for x in m['cs_num']]
    elif n == 82:
        m['trace_num'] = 100 + k
    elif n == 151:
        m['description'] = 'mark %d' % k
    elif n == 164:
        m['units_description'] = 'mark %d' % k
    elif n == 1858:
        m['set_record_number'] = 100 + k
    elif n == 2400:
        m['model_name'] = 'mark %d' % k
    elif n == 2411:
        m['node_nums'] = [x + k for x in m['node_nums']]
    elif n == 2412:
        m['elements'] = [dict(el, color=20 + k) for el in m['elements']]
    elif n == 2420:
        m['Part_Name'] = 'mark %d' % k
    elif n in (2429, 2467):
        m['groups'] = [dict(g, group_name='mark %d' % k) for g in m['groups']]
    return m


class Kind(tuple):
    """(label, type, base model), printed as its label."""

    def __repr__(self):
        return self[0]


def models(kinds):
    """[Kind] of kinds (number, variant, n)."""
    out = []
    for num, v, n in kinds:
        t = T[num]
        label = str(num) if v is None else '%d%s' % (num, v)
        out.append(Kind((label, t, t.base(v, n) if v is not None else t.base(n=n) if n is not None else t.base())))
    return out


ALL = [(151, None, None), (164, None, None), (1858, None, None), (2400, None, None), (15, None, 2), (18, None, 2), (2411, None, 2), (2420, None, 2), (82, None, 9),
       (2412, None, None), (2429, None, 3), (2467, None, 3), (55, (2, False, 3), 2), (55, (5, True, 6), 2), (58, (False, True, False, False), 3),
       (58, (True, False, False, False), 3), (58, (False, True, False, True), 3), (58, (True, False, False, True), 2), (2414, ('freq', 3), 2), (2414, (1, False), 2),
       (2414, (2, False), 2), (2414, (3, False), 2), (55, (3, True, 6), 1), (55, (7, False, 3), 2)]
# and every other layout
EVERY = ALL + [(n, v, 2) for n in (55, 58, 2414) for v in sets.VARIANTS[n] if (n, v) not in [a[:2] for a in ALL]]
FEW = [(151, None, None), (58, (False, True, False, True), 3), (58, (True, False, False, False), 2), (82, None, 9), (2412, None, None)]

UNSUPPORTED = {'type': 9999, 'whatever': 'text'}


def as_list(r):
    return [r] if isinstance(r, dict) else list(r)


class Model:
    """The list of sets a file holds: (type, expected model) or (number, None) for a set pyuff does not read."""

    def __init__(self, entries=()):
        self.entries = list(entries)

    def types(self):
        return [t.num if m is not None else t for t, m in self.entries]

    def formats(self):
        return [int(t.num == 58 and m['variant'][3]) if m is not None else 0 for t, m in self.entries]

    def check_one(self, ctx, k, got, who=''):
        t, m = self.entries[k]
        if m is None:
            ctx.check(isinstance(got, dict) and got.get('type') == t, '%sset %d (unsupported %d) is read as %r', who, k, t, got)
        else:
            r = sets.compare(t, m, got)
            ctx.check(r is None, '%sset %d (%d): %s', who, k, t.num, r)

    def check_info(self, ctx, u, who=''):
        n = len(self.entries)
        ctx.check(u.get_n_sets() == n, '%s%r sets are reported, the file has %d', who, u.get_n_sets(), n)
        types, formats = [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()]
        ctx.check(types == self.types(), '%stypes are %s, expected %s', who, types, self.types())
        ctx.check(formats == self.formats(), '%sformats are %s, expected %s', who, formats, self.formats())

    def check_all(self, ctx, u, who=''):
        got = as_list(u.read_sets())
        ctx.check(len(got) == len(self.entries), '%sread_sets returned %d sets, the file has %d', who, len(got), len(self.entries))
        for k, g in enumerate(got):
            self.check_one(ctx, k, g, who)

    def check(self, ctx, path, u=None, who=''):
        """Everything the property promises of a file, through u and through a new object."""
        for w, name in ([(u, who + 'the object: ')] if u is not None else []) + [(lib.pyuff.UFF(path), who + 'a new object: ')]:
            self.check_info(ctx, w, name)
            if w.file_exists():
                self.check_all(ctx, w, name)
                for k in range(len(self.entries)):
                    self.check_one(ctx, k, as_list(w.read_sets(k))[0], name + 'by index: ')
                    ctx.op()
            ctx.op(4)


def same(a, b):
    """Deep equality of returned values, types and shapes included."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        if not (isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape):
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes() or bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    return a == b or (a != a and b != b)


def first_difference(a, b, where=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s[%r] is %s' % (where, k, 'missing in the first' if k not in a else 'missing in the second')
            if not same(a[k], b[k]):
                return first_difference(a[k], b[k], '%s[%r]' % (where, k))
        return '%s: the order of the keys differs' % where
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_difference(x, y, '%s[%d]' % (where, k))
    sa, sb = repr(a), repr(b)
    return '%s: %s and %s' % (where, sa[:200], sb[:200])
