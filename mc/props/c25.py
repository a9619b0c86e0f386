"""C25: two objects and an outside program on one file."""
import os

from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'all sequences of 3 operations of two objects and of outside changes over 21 operations, of 4 over 9, from absent and filled files; pairs of kinds over all types; files whose size and time do not change',
         'thorough': 'sequences of 4 over 21 operations, 5 over 9'}
ASSUMPTIONS = ['what a stale object returns before it is refreshed or writes is not judged', 'operations are atomic: no operation runs while another one does']

T = sets.TYPES
KINDS = {k[0]: k for k in H.models([(151, None, None), (58, (False, True, False, True), 2), (82, None, 9), (58, (True, False, False, False), 2)])}
A, BIN, C, CPX = list(KINDS)
OPS = ['%s %s' % (who, what) for who in 'AB' for what in ('refresh', 'add 151', 'add 58b', 'add list', 'overwrite 82', 'overwrite list', 'add unsupported', 'read')] + \
      ['out extend', 'out replace', 'out empty', 'out delete', 'out newline']
SHORT = ['A refresh', 'A add 151', 'A overwrite 82', 'B refresh', 'B add 58b', 'B overwrite 82', 'out extend', 'out delete', 'out replace']


def made(kind, k):
    _, t, m = KINDS[kind]
    m = H.mark(t, m, k)
    return t.dset(m), (t, sets.expect(t, m))


def raw(entries_kinds):
    """Bytes of sets as another program writes them."""
    out = b''
    model = []
    for kind, k in entries_kinds:
        _, t, m = KINDS[kind]
        m = H.mark(t, m, k)
        if t.num == 58 and m['variant'][3]:
            out += t.block58b(m)
        else:
            from ..layout import Enc
            out += t.block(m, Enc()).encode()
        model.append((t, sets.expect(t, m, False) if t.num == 58 else m))
    return out, model


class World:
    def __init__(self, ctx, start, frozen=False):
        self.ctx, self.path, self.frozen = ctx, ctx.file(), frozen
        self.file = None                      # the model: list of entries, None if there is no file
        self.count = 0
        self.name = {'A': 'A', 'B': 'B'}
        if start == 'filled':
            b, m = raw([(A, 90), (BIN, 91)])
            lib.put(self.path, b)
            self.file = m
        elif isinstance(start, int):
            b, m = raw([((A, C, C, BIN)[k % 4], 90 + k) for k in range(start)])
            lib.put(self.path, b)
            self.file = m
        elif start == 'empty':
            lib.put(self.path, b'')
            self.file = []
        self.freeze()
        self.obj = {'A': lib.pyuff.UFF(self.path), 'B': lib.pyuff.UFF(self.path)}

    def freeze(self):
        """The time of the file says nothing."""
        if self.frozen and os.path.exists(self.path):
            os.utime(self.path, (1e9, 1e9))

    def judge(self, who, why):
        u = self.obj[who]
        model = H.Model(self.file or [])
        who_ = '%s after %s: ' % (who, why)
        self.ctx.check(bool(u.file_exists()) == (self.file is not None), '%sfile_exists is %r', who_, u.file_exists())
        model.check_info(self.ctx, u, who_)
        if self.file is not None:
            model.check_all(self.ctx, u, who_)
            for k in range(len(model.entries)):
                model.check_one(self.ctx, k, H.as_list(u.read_sets(k))[0], who_ + 'by index: ')
            self.ctx.check(lib.refused(u.read_sets, len(model.entries)), '%sreads a set beyond the end', who_)
        else:
            self.ctx.check(lib.refused(u.read_sets, 0), '%sreads from a file that is gone', who_)
        self.ctx.op(3)

    def write(self, who, ds, entries, mode):
        self.obj[who].write_sets(ds, mode)
        self.file = entries if mode == 'overwrite' else (self.file or []) + entries
        self.judge(who, mode)

    def step(self, op):
        who, what = op.split(' ', 1)
        self.count += 1
        k = self.count
        self.ctx.op()
        if who == 'out':
            self.outside(what, k)
        elif what == 'refresh':
            r = self.obj[who].refresh()
            self.ctx.check(bool(r) == (self.file is not None), '%s.refresh() returned %r', who, r)
            self.judge(who, 'refresh')
        elif what == 'read':
            try:
                self.obj[who].read_sets()
                self.obj[who].read_sets(0)
            except Exception:
                pass
        elif what == 'add unsupported':
            self.write(who, dict(H.UNSUPPORTED), [], 'add')
        else:
            mode, kind = what.split(' ')
            if kind == 'list':
                made_ = [made(CPX, k), made(BIN, k), made(C, k)] if mode == 'add' else [made(BIN, k), made(A, k)]
                first, rest = made_[0], made_[1:]
                if mode == 'add':
                    self.write(who, [d for d, _ in made_], [e for _, e in made_], 'add')
                else:
                    self.write(who, [d for d, _ in made_], [e for _, e in made_], 'overwrite')
            else:
                d, e = made({'151': A, '58b': BIN, '82': C}[kind], k)
                self.write(who, d, [e], mode)
        self.freeze()

    def outside(self, what, k):
        if what == 'extend':
            b, m = raw([(C, k)])
            old = lib.data_of(self.path) if self.file else b''
            with open(self.path, 'ab') as fh:
                fh.write((b'\n' if old and not old.endswith(b'\n') else b'') + b)
            self.file = (self.file or []) + m
        elif what == 'replace':
            b, m = raw([(BIN, k), (A, k), (A, k + 50)])
            lib.put(self.path + '.new', b)
            os.replace(self.path + '.new', self.path)
            self.file = m
        elif what == 'empty':
            lib.put(self.path, b'')
            self.file = []
        elif what == 'delete':
            if os.path.exists(self.path):
                os.remove(self.path)
            self.file = None
        elif what == 'newline':
            # the last line end is cut off, as editors do
            if self.file:
                lib.put(self.path, lib.data_of(self.path).rstrip(b'\n'))
        elif what == 'same places':
            # sets that begin and end where the ones before do, of other types, and one that is a 151 every other time
            b = b''
            m = []
            for j in range(3):
                _, t, v = KINDS[A]
                v = H.mark(t, v, k + j)
                from ..layout import Enc
                one = t.block(v, Enc(pad=True)).encode()
                if (k + j) % 2:
                    num = 700 + k + j
                    one = one.replace(b'   151', b'%6d' % num, 1)
                    m.append((num, None))
                else:
                    m.append((t, v))
                b += one
            lib.put(self.path, b)
            self.file = m
        elif what in ('same size', 'same size, other sets'):
            if self.file:
                b, m = raw([(A, 90 + k), (BIN, 91)] if what == 'same size' else [(BIN, 91), (A, 90 + k)])
                lib.put(self.path, b)
                self.file = m

    def finish(self):
        for who in 'AB':
            self.obj[who].refresh()
            self.judge(who, 'a last refresh')
        self.ctx.observe(lib.data_of(self.path) if os.path.exists(self.path) else None)


def sequences(name, ops, depths, starts, frozen=False):
    def driver(ctx):
        w = World(ctx, ctx.choose('start', starts), frozen)
        done = []
        for k in range(ctx.choose('operations', depths)):
            done.append(ctx.choose('operation %d' % k, ops))
            w.step(done[-1])
        w.finish()
        ctx.note(', '.join(done))
    return Suite(name, driver, rule='all sequences of %s operations over %d' % (depths, len(ops)))


def kinds(ctx):
    """Every kind written by one object is seen by another that is refreshed or writes, and the other way round."""
    first = ctx.choose('A writes', H.models(H.ALL))
    second = ctx.choose('B writes', H.models(H.ALL))
    how = ctx.choose('how', ['B writes', 'B is refreshed', 'B overwrites', 'A writes again'])
    path = ctx.file()
    a, b = lib.pyuff.UFF(path), lib.pyuff.UFF(path)
    model = H.Model()

    def put(u, kind, k, mode='add'):
        _, t, m = kind
        m = H.mark(t, m, k)
        u.write_sets(t.dset(m), mode)
        if mode == 'overwrite':
            model.entries = []
        model.entries.append((t, sets.expect(t, m)))

    def seen(u, who):
        model.check_info(ctx, u, who)
        model.check_all(ctx, u, who)
    put(a, first, 1)
    if how == 'B is refreshed':
        b.refresh()
        seen(b, 'B: ')
    put(b, second, 2, 'overwrite' if how == 'B overwrites' else 'add')
    seen(b, 'B: ')
    if how == 'A writes again':
        put(a, second, 3)
    else:
        a.refresh()
    seen(a, 'A: ')
    ctx.op(6)
    ctx.observe(lib.data_of(path))


def cut(ctx):
    """An outside program removes bytes at the end: what is left is reported after refresh."""
    _, t, m = ctx.choose('kind', H.models(H.ALL))
    path = ctx.file()
    u = lib.pyuff.UFF(path)
    d0, e0 = made(A, 1)
    u.write_sets(d0)
    size = os.path.getsize(path)
    u.write_sets(t.dset(m), 'add')
    whole = lib.data_of(path)
    step = max(1, (len(whole) - size) // 40)
    n = ctx.choose('bytes left', list(range(size, len(whole) + 1, step)) + list(range(len(whole) - 8, len(whole) + 1)) + list(range(0, size, 60)))
    v = lib.pyuff.UFF(path)
    lib.put(path, whole[:n])
    fresh = lib.pyuff.UFF(path)
    for who, x in (('the writer', u), ('a reader', v)):
        x.refresh()
        ctx.check(x.get_n_sets() == fresh.get_n_sets(), '%s reports %r sets, a new object %r', who, x.get_n_sets(), fresh.get_n_sets())
        ctx.check([int(i) for i in x.get_set_types()] == [int(i) for i in fresh.get_set_types()], '%s: types', who)
        ok = H.same(H.as_list(x.read_sets()), H.as_list(fresh.read_sets()))
        ctx.check(ok, '%s reads something else', who)
    ctx.op(6)
    ctx.observe(whole[:n])


def suites(tier):
    deep = tier != 'quick'
    out = [sequences('sequences', OPS, [3] if not deep else [4], ['absent', 'filled']),
           sequences('deep', SHORT, [4] if not deep else [5], ['absent', 'filled']),
           sequences('frozen time', ['A refresh', 'A add 151', 'B refresh', 'B overwrite 82', 'out same size', 'out same size, other sets', 'out replace', 'out newline', 'out empty'], [3] if not deep else [5], ['filled'], True),
           sequences('same places', ['A refresh', 'A add 151', 'B refresh', 'B add list', 'out same places'], [3, 4] if not deep else [3, 4, 5, 6], ['absent', 'filled'], True),
           sequences('many sets', ['A refresh', 'A add 151', 'A add list', 'B refresh', 'B add 58b', 'out extend'], [3] if not deep else [4], [7, 8, 9, 10, 16, 17] + ([33, 64] if deep else [])),
           sequences('very many sets', ['A add 151', 'B add 58b', 'B refresh', 'out extend'], [2] if not deep else [3], [31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257]),
           Suite('kinds', kinds, rule='every ordered pair of kinds'), Suite('cut', cut, rule='outside truncation')]
    return out
