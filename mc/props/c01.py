"""C01: operation sequences against a list."""
from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'all sequences of up to 3 operations (2 from 5 kinds of starting file, 4 over a reduced alphabet); every operation on every set kind after every pair of kinds; files of up to 257 sets, functions of up to tens of thousands of points among other sets',
         'thorough': 'all sequences of up to 4 operations (3 from 5 kinds of starting file, 6 over a reduced alphabet)'}
ASSUMPTIONS = ['an overwrite that holds only an unsupported set leaves a file without sets']

SAME = ('the same again',)
KINDS = H.models(H.FEW)
EVERY = H.models(H.ALL)


class World:
    """pyuff and the list it should agree with."""

    def __init__(self, ctx, start):
        self.ctx, self.k = ctx, 0
        self.path = ctx.file()
        self.m = H.Model()
        if start == 'empty':
            lib.put(self.path, b'')
        elif start == 'two sets':
            for _, t, base in (KINDS[0], KINDS[1]):
                self.put(t, base)
        elif start == 'no newline':
            for _, t, base in (KINDS[3], KINDS[0]):
                self.put(t, base)
            lib.put(self.path, lib.data_of(self.path).rstrip(b'\n'))
        elif start == 'foreign':
            lib.put(self.path, b'    -1\r\n   781\r\n         1\r\n    -1\r\n')
            self.m.entries.append((781, None))
        self.sure = start != 'absent'
        self.u = lib.pyuff.UFF(self.path)

    def put(self, t, base):
        m = self.make(t, base)
        lib.pyuff.UFF(self.path).write_sets(t.dset(m), 'add')
        self.m.entries.append((t, sets.expect(t, m)))

    def make(self, t, base):
        self.k += 1
        return H.mark(t, base, self.k)

    def write(self, group, mode, alone=False):
        """group: (label, type, base), None for an unsupported set, SAME for the dictionary before once more."""
        new, ds = [], []
        for g in group:
            if g is SAME:
                new.append(new[-1])
                ds.append(ds[-1])
            elif g is None:
                ds.append(dict(H.UNSUPPORTED))
            else:
                m = self.make(g[1], g[2])
                new.append((g[1], sets.expect(g[1], m)))
                ds.append(g[1].dset(m))
        if mode is None:
            self.u.write_sets(ds[0] if alone else ds)
        else:
            self.u.write_sets(ds[0] if alone else ds, mode)
        self.m.entries = (self.m.entries if (mode or 'add').lower() == 'add' else []) + new
        self.sure = self.sure or bool(new)
        self.ctx.op()

    def exists(self):
        return self.sure or self.u.file_exists()

    def refuse(self, setn):
        self.ctx.op()
        self.ctx.check(lib.refused(self.u.read_sets, setn), 'read_sets(%r) is answered in a file of %d sets', setn, len(self.m.entries))

    def do(self, op):
        u, n, ctx = self.u, len(self.m.entries), self.ctx
        kind = op[0]
        if kind == 'write':
            self.write(op[1], op[2], op[3])
        elif kind == 'read all':
            if not self.exists():
                return self.refuse(None)
            self.m.check_all(ctx, u)
            ctx.op()
        elif kind == 'read last':
            if n == 0:
                return self.refuse(0)
            self.m.check_one(ctx, n - 1, H.as_list(u.read_sets(n - 1))[0])
            ctx.op()
        elif kind == 'read list':
            if n == 0:
                return self.refuse([0])
            which = [n - 1, 0, n // 2, 0]
            got = H.as_list(u.read_sets(which))
            ctx.check(len(got) == 4, '4 indices gave %d sets', len(got))
            for k, g in zip(which, got):
                self.m.check_one(ctx, k, g)
            none = u.read_sets([])
            ctx.check(isinstance(none, list) and not none, 'no indices gave %s', repr(none)[:80])
            ctx.op()
        elif kind == 'header only':
            if n == 0:
                return self.refuse(0)
            got = H.as_list(u.read_sets(0, header_only=True))[0]
            ctx.check(got.get('type') == self.m.types()[0], 'header of set 0 has type %r', got.get('type'))
        elif kind == 'out of range':
            for k in (n, n + 1, -1, -n - 1, 10 ** 6, -0.5, n - 0.5):
                self.refuse(k)
            for lst in ([n], [0, n], [-1], [n - 1, n + 3], [10 ** 6], [0, -n], [-0.5]):
                self.refuse(lst)
        elif kind == 'refresh':
            u.refresh()
            ctx.op()
        elif kind == 'info':
            self.m.check_info(ctx, u)
        elif kind == 'new object':
            self.u = lib.pyuff.UFF(self.path)


def ops(kinds, lists=True, reads=True):
    out = [('write', [k], mode, True) for k in kinds for mode in ('add', 'overwrite')]
    out += [('write', [None], 'add', True), ('write', [None], 'overwrite', True)]
    if lists:
        a, b, c = kinds[0], kinds[1], kinds[-1]
        for mode in ('add', 'overwrite'):
            out += [('write', [a, b], mode, False), ('write', [c, a, c], mode, False), ('write', [b], mode, False), ('write', [None, b], mode, False),
                    ('write', [a, None, b], mode, False), ('write', [b, None], mode, False), ('write', [b, SAME, a], mode, False)]
        out += [('write', [b], None, True), ('write', [a, c], 'ADD', False), ('write', [a], 'Overwrite', True)]
    if reads:
        out += [('read all',), ('read last',), ('read list',), ('header only',), ('out of range',), ('refresh',), ('info',), ('new object',)]
    return out


class Named(tuple):
    """An operation that prints as words."""

    def __repr__(self):
        if self[0] != 'write':
            return self[0]
        return '%s %s%s' % (self[2] or 'write', [g[0] if g else 'unsupported' for g in self[1]], '' if self[3] else ' (list)')


def sequences(name, alphabet, depth, starts, rule):
    alphabet = [Named(o) for o in alphabet]

    def driver(ctx):
        w = World(ctx, ctx.choose('start', starts))
        n = ctx.choose('operations', list(range(depth + 1)))
        done = []
        for k in range(n):
            op = ctx.choose('op %d' % k, alphabet)
            w.do(op)
            done.append(repr(op))
        w.m.check(ctx, w.path, w.u)
        if not w.exists():
            w.refuse(None)
        if w.exists():
            w.refuse(len(w.m.entries))
            w.refuse(-1)
        ctx.observe(lib.data_of(w.path) if w.exists() else b'absent')
        ctx.note('; '.join(done))
    return Suite(name, driver, rule=rule)


def pairs(tier):
    """Every kind after every kind, in every way."""
    def driver(ctx):
        w = World(ctx, 'absent')
        a = ctx.choose('first', EVERY)
        b = ctx.choose('second', EVERY)
        c = ctx.choose('third', [None] + (EVERY if tier != 'quick' else []))
        how = ctx.choose('how', ['one by one', 'list', 'list add', 'one by one overwrite'])
        group = [a, b] + ([c] if c else [])
        if how.startswith('one by one'):
            for i, g in enumerate(group):
                w.write([g], 'overwrite' if i == 0 and 'overwrite' in how else 'add', True)
                w.m.check_info(ctx, w.u)
        else:
            w.write(group, 'add' if 'add' in how else 'overwrite')
        w.m.check(ctx, w.path, w.u)
        ctx.observe(lib.data_of(w.path))
        ctx.note('%s %s' % (how, [g[0] for g in group]))
    return Suite('pairs', driver, rule='all pairs (thorough: triples) of set kinds x the ways to write them')


# sizes of files: around the powers of two and round numbers
LONG = [2, 5, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]
FAR = [2 ** 8, 2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 63, 10 ** 3, 10 ** 30]


def long_files(tier):
    """Files of many sets, written in every way; all of them read in several orders."""
    light = [KINDS[3], KINDS[0], EVERY[2]]
    heavy = KINDS + [EVERY[2]]

    def driver(ctx):
        n = ctx.choose('sets', LONG + ([300, 500, 511, 512, 513, 1000] if tier != 'quick' else []))
        how = ctx.choose('how', ['overwrite list', 'add list', 'one by one', 'two lists', 'list with unsupported'] if n < 60 else ['overwrite list', 'add list', 'two lists'])
        kinds = ctx.choose('kinds', ['one', 'mixed'] if n < 140 else ['one'])
        kinds = light[:1] if kinds == 'one' else heavy if n < 60 else light
        w = World(ctx, 'absent')
        group = [kinds[k % len(kinds)] for k in range(n)]
        if how == 'overwrite list':
            w.write(group, 'overwrite')
        elif how == 'add list':
            w.write(group, 'add')
        elif how == 'one by one':
            for g in group:
                w.write([g], 'add', True)
        elif how == 'two lists':
            w.write(group[:n // 2], 'overwrite')
            w.write(group[n // 2:], 'add')
        else:
            w.write(group[:n - 1] + [None] + group[n - 1:], 'overwrite')
        w.m.check(ctx, w.path, w.u)
        for which in ([n - 1, 0], list(range(n - 1, -1, -1)), [0] * (n + 1), list(range(n)) + list(range(n))):
            got = H.as_list(w.u.read_sets(list(which)))
            ctx.op()
            ctx.check(len(got) == len(which), '%d indices gave %d sets', len(which), len(got))
            for k, g in zip(which, got):
                w.m.check_one(ctx, k, g)
        for k in [n, n + 1, 2 * n, -1, -n, -n - 1] + FAR:
            if 0 <= k < n:
                continue
            w.refuse(k)
            w.refuse([k])
            w.refuse([0, k])
            if k > 0:
                w.refuse(-k)
                w.refuse([0, -k])
        ctx.note('%d sets, %s' % (n, how))
    return Suite('long', driver, rule='files of up to %d sets x the ways to write them, read in several orders and out of range' % (257 if tier == 'quick' else 1000))


def big_sets(tier):
    """Sets of many sizes next to each other."""
    t = T58
    sizes = [1, 3, 7, 63, 64, 65, 250, 500, 506, 1000, 1020, 2040, 4090, 8190] + ([16380, 32760, 65530, 131000] if tier != 'quick' else [16380])

    def driver(ctx):
        n = ctx.choose('points', sizes)
        big = ctx.choose('binary', [False, True])
        other = ctx.choose('other', KINDS)
        order = ctx.choose('order', ['before', 'after', 'between'])
        m = t.base((False, True, False, big), n)
        t.fill(m, n, [1.5, -2.25, 1024.0, 3.0, 0.0, -7.75e8])
        w = World(ctx, 'absent')
        kind = H.Kind(('58 of %d' % n, t, m))
        for g in {'before': [kind, other], 'after': [other, kind], 'between': [other, kind, other]}[order]:
            w.write([g], 'add', True)
        w.m.check(ctx, w.path, w.u)
        ctx.note('%d points %s %s' % (n, order, other))
    return Suite('sizes', driver, rule='functions of up to %d points before, after and between other sets' % sizes[-1])


T58 = sets.TYPES[58]
STARTS = ['absent', 'empty', 'two sets', 'no newline', 'foreign']


def suites(tier):
    small = ops(KINDS[1:3], lists=False, reads=False) + [('write', [KINDS[0], KINDS[1]], 'add', False), ('read all',), ('refresh',), ('read list',)]
    deep = tier != 'quick'
    return [sequences('sequences', ops(KINDS), 4 if deep else 3, STARTS[:1], 'all operation sequences over the whole alphabet'),
            sequences('starts', ops(KINDS), 3 if deep else 2, STARTS, 'all operation sequences from every start'),
            sequences('deep', small, 6 if deep else 4, ['absent', 'no newline'], 'longer operation sequences over a reduced alphabet'),
            pairs(tier), long_files(tier), big_sets(tier)]
