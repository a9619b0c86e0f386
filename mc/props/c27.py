"""C27: the file is open only while an operation runs."""
import builtins
import copy
import gc
import io
import os

from .. import history as H, lib, sets
from ..engine import Suite
from ..layout import Enc
from .c13 import Text, places, spoil

BOUND = {'quick': 'all sequences of 3 of 17 operations, successful and failing; every operation on every kind; every I/O call of every operation failing in turn (once, and from then on); damaged bodies and rejected sets of every kind',
         'thorough': 'sequences of 4 of 21 operations, every pair of failing I/O calls'}
ASSUMPTIONS = ['garbage collection is off, so a file kept alive by a cycle is seen; an error is inspected while it is being handled',
               'failing I/O calls are those made through open(); /proc/self/fd and /proc/self/maps tell what is open']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
A, BIN, C = NAMED['151'], NAMED['58(True, False, False, True)'], NAMED['82']


def still_open(root, maps=True):
    """What is open below root."""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            name = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if name.startswith(root):
            out.append(name[len(root):])
    if not maps:
        return out
    with open('/proc/self/maps') as fh:
        out += ['mapped ' + s.rstrip()[-80:] for s in fh if root in s]
    return out


class World:
    def __init__(self, ctx):
        self.ctx, self.path = ctx, ctx.file()
        self.u = None
        self.model = None           # list of entries, None: no file
        self.known = True           # whether the model says what the file holds
        gc.disable()

    def call(self, name, f, *a, **k):
        """A call of the library; whether it raised."""
        self.ctx.op()
        try:
            r = f(*a, **k)
        except Exception as e:
            self.inspect(name + ' (raised %s)' % type(e).__name__)
            return True, None
        self.inspect(name)
        return False, r

    def inspect(self, name):
        left = still_open(self.ctx.scratch + os.sep, name.startswith(('read', 'the end')))
        self.ctx.check(not left, 'after %s is open: %s', name, left)

    def stored(self, name):
        """What was written is in the file: it does not change any more when the object is gone."""
        now = lib.data_of(self.path)
        if self.model is not None and self.known:
            m = H.Model(self.model)
            other = self.ctx.file('copy.uff')
            lib.put(other, now)
            m.check_info(self.ctx, lib.pyuff.UFF(other), 'the bytes in the file after %s: ' % name)
            m.check_all(self.ctx, lib.pyuff.UFF(other), 'the bytes in the file after %s: ' % name) if m.entries else None
        return now

    def end(self):
        if os.path.exists(self.path):
            now = lib.data_of(self.path)
            self.u = None
            gc.collect()
            self.ctx.check(lib.data_of(self.path) == now, 'bytes reach the file after the call')
        # the file can be replaced and deleted
        if os.path.exists(self.path):
            os.replace(self.path, self.path + '.moved')
            self.inspect('the end')
        gc.enable()


def given(kind, k):
    _, t, m = kind
    m = H.mark(t, m, k)
    return t.dset(m), (t, sets.expect(t, m))


def broken(kind, key):
    d = dict(kind[1].dset(kind[2]))
    del d[key]
    return d


OPS = ['new', 'refresh', 'get', 'read all', 'read 0', 'read last', 'read list', 'read header', 'read beyond', 'read text', 'add 151', 'add 58b', 'add list', 'overwrite 82', 'overwrite list',
       'unsupported', 'rejected', 'rejected list', 'bad mode', 'fix', 'damage']


def step(w, op, k):
    u, path = w.u, w.path
    if op == 'new' or u is None:
        def new():
            w.u = lib.pyuff.UFF(path)
        w.call('UFF()', new)
        if op == 'new':
            return
        u = w.u
    if op == 'refresh':
        w.call(op, u.refresh)
    elif op == 'get':
        for f in (u.get_n_sets, u.get_set_types, u.get_set_formats, u.get_status, u.file_exists, u.get_file_name, u.get_supported_sets):
            w.call(f.__name__, f)
    elif op.startswith('read'):
        args = {'read all': (), 'read 0': (0,), 'read last': (max(0, u.get_n_sets() - 1),), 'read list': ([0, 0],), 'read header': (None, True), 'read beyond': (99,), 'read text': ('a',)}[op]
        w.call(op, u.read_sets, *args)
    elif op == 'fix':
        w.call(op, lib.pyuff.fix_58b, path, w.ctx.file('fixed.uff'))
        w.call(op, lib.pyuff.fix_58b, path)
    elif op == 'damage':
        # the first set does not read any more
        if os.path.exists(path):
            lib.put(path, b'    -1\n    15\n some text\n    -1\n' + lib.data_of(path))
            w.known = False
            w.call(op, u.refresh)
            w.call(op, u.read_sets)
    else:
        mode = 'overwrite' if op.startswith('overwrite') else 'add'
        if op == 'unsupported':
            ds, es = dict(H.UNSUPPORTED), []
        elif op == 'rejected':
            ds, es = broken(C, 'nodes'), None
        elif op == 'rejected list':
            d, e = given(A, k)
            ds, es = [d, broken(BIN, 'data')], [e]
        elif op == 'bad mode':
            ds, es, mode = given(A, k)[0], None, 'append'
        elif op.endswith('list'):
            both = [given(x, k) for x in ((A, BIN) if mode == 'add' else (BIN, C, A))]
            ds, es = [d for d, _ in both], [e for _, e in both]
        else:
            d, e = given({'151': A, '58b': BIN, '82': C}[op.split()[1]], k)
            ds, es = d, [e]
        raised, _ = w.call(op, u.write_sets, ds, mode)
        if es is not None:
            w.model = es if mode == 'overwrite' else (w.model or []) + es
            if mode == 'overwrite':
                w.known = True
            w.stored(op)


def sequences(depth):
    ops = [o for o in OPS if o not in ('get', 'read list', 'read text', 'read 0')] if depth < 4 else OPS

    def driver(ctx):
        w = World(ctx)
        if ctx.choose('file', ['absent', 'filled']) == 'filled':
            _, t, m = A
            lib.put(w.path, t.block(m, Enc()).encode() + BIN[1].block58b(BIN[2]))
            w.model = [(t, m), (T[58], sets.expect(T[58], BIN[2], False))]
        done = []
        for k in range(depth):
            done.append(ctx.choose('operation %d' % k, ops))
            step(w, done[-1], k)
        if os.path.exists(w.path):
            ctx.observe(lib.data_of(w.path), done)
        w.end()
        ctx.note(', '.join(done))
    return Suite('sequences', driver, rule='all sequences of %d of %d operations' % (depth, len(ops)))


def kinds(ctx):
    """Every kind written, read (whole, header, in a list), and every kind not readable."""
    kind = ctx.choose('kind', KINDS)
    after = ctx.choose('after', [None] + KINDS)
    w = World(ctx)
    step(w, 'new', 0)
    es = []
    for k, x in enumerate([after, kind] if after else [kind]):
        d, e = given(x, k)
        es.append(e)
        w.call('writing %s' % x[0], w.u.write_sets, d, 'add')
        w.model = es
        w.stored('writing %s' % x[0])
    for op in ('read all', 'read last', 'read list', 'read header', 'refresh', 'get', 'fix'):
        step(w, op, 0)
    ctx.observe(lib.data_of(w.path))
    w.end()


def damaged(ctx):
    """A body cut or replaced at every line, by the independent encoder."""
    _, t, m = kind = ctx.choose('kind', KINDS)
    raw = t.block58b(m) if t.num == 58 and m['variant'][3] else t.block(m, Enc()).encode()
    lines = raw.split(b'\n')
    w = World(ctx)
    i = ctx.choose('line', list(range(2, min(len(lines), 24))))
    how = ctx.choose('damage', ['text', 'empty', 'cut', 'gone', 'bytes'])
    if how == 'cut':
        lines = lines[:i] + [b'    -1', b'']
    elif how == 'gone':
        del lines[i]
    else:
        lines[i] = {'text': b'some text instead of the numbers', 'empty': b'', 'bytes': b'\xff\xfe\x00\x80'}[how]
    lib.put(w.path, b'\n'.join(lines))
    for op in ('new', 'read all', 'read 0', 'read header', 'get', 'fix', 'refresh'):
        step(w, op, 0)
    ctx.observe(kind[0], i, how)
    w.end()


def rejected(ctx):
    """Sets with every field missing or of a wrong type."""
    _, t, m = ctx.choose('kind', KINDS)
    d = copy.deepcopy(t.dset(m))
    where = ctx.choose('place', places(d))
    what, value = ctx.choose('defect', [('missing', None), ('text', 'text'), ('None', None), ('object', Text())])
    mode = ctx.choose('mode', ['add', 'overwrite'])
    if not spoil(d, where, what, value):
        return
    w = World(ctx)
    step(w, 'new', 0)
    step(w, 'add 151', 0)
    raised, _ = w.call('a rejected set', w.u.write_sets, d, mode)
    if not raised:
        ctx.nontrivial = False
    ctx.observe(t.num, where, what, mode)
    w.end()


class Faulty:
    """A file whose calls are counted, and some of them fail."""

    def __init__(self, real, plan):
        self.__dict__.update(real=real, plan=plan)

    def __getattr__(self, name):
        v = getattr(self.real, name)
        if not callable(v) or name in ('fileno', 'readable', 'writable', 'seekable', 'isatty', 'detach') or name.startswith('_'):
            return v

        def call(*a, **k):
            if name == 'close' and self.real.closed:
                return None
            if self.plan.fails():
                if name == 'close':
                    self.real.close()
                raise OSError(5, 'Input/output error')
            return v(*a, **k)
        return call

    def __enter__(self):
        self.real.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line


class Plan:
    def __init__(self, failing):
        self.failing, self.n = failing, -1

    def fails(self):
        self.n += 1
        return self.failing(self.n)

    def open(self, file, *a, **k):
        if isinstance(file, int) or not str(file).endswith('.uff'):
            return REAL(file, *a, **k)
        if self.fails():
            raise OSError(24, 'Too many open files')
        return Faulty(REAL(file, *a, **k), self)

    def truncate(self, path, n):
        if self.fails():
            raise OSError(5, 'Input/output error')
        return TRUNCATE(path, n)

    def __enter__(self):
        builtins.open = io.open = self.open
        os.truncate = self.truncate
        return self

    def __exit__(self, *a):
        builtins.open = io.open = REAL
        os.truncate = TRUNCATE


REAL, TRUNCATE = open, os.truncate
ACTS = ['new', 'refresh', 'read all', 'read header', 'read last', 'add 151', 'add 58b', 'add list', 'overwrite list', 'fix', 'get', 'unsupported']


def faults(double):
    def driver(ctx):
        how = ctx.choose('file', ['filled', 'no newline', 'absent', 'empty'])
        w = World(ctx)
        if how in ('filled', 'no newline'):
            lib.put(w.path, A[1].block(A[2], Enc()).encode() + BIN[1].block58b(BIN[2]) + C[1].block(C[2], Enc()).encode())
            if how != 'filled':
                lib.put(w.path, lib.data_of(w.path).rstrip(b'\n'))
        elif how == 'empty':
            lib.put(w.path, b'')
        op = ctx.choose('operation', ACTS)
        first = ctx.choose('failing call', list(range(48)))
        second = ctx.choose('and', [0] + (list(range(1, 16)) if double else [1]) + [1000])
        w.u = None if op == 'new' else lib.pyuff.UFF(w.path)
        w.known = False

        def failing(i):
            return i == first or (second == 1000 and i >= first) or (0 < second < 1000 and i == first + second)
        ctx.op()
        raised = None
        with Plan(failing) as plan:
            try:
                step(Inner(w), op, 1)
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    raise
                raised = e
        w.inspect('%s with call %d failing' % (op, first))
        raised = None
        if plan.n < first:
            ctx.nontrivial = False
            return
        # afterwards everything works again
        w.model, w.known = None, False
        for after in ('refresh', 'read last', 'add 151', 'read last'):
            step(w, after, 2)
        ctx.observe(how, op, first, second)
        ctx.note('%s of a file (%s), I/O call %d fails' % (op, how, first))
        w.end()
    return Suite('faults', driver, rule='every I/O call of every operation fails')


class Inner:
    """A world that looks at the descriptors without failing calls."""

    def __init__(self, w):
        self.__dict__['w'] = w

    def __getattr__(self, name):
        return getattr(self.w, name)

    def __setattr__(self, name, v):
        setattr(self.w, name, v)

    def stored(self, name):
        pass


def suites(tier):
    deep = tier != 'quick'
    return [sequences(3 if not deep else 4), Suite('kinds', kinds, rule='every kind, alone and after every other'), Suite('damaged', damaged, rule='damaged bodies of every kind'),
            Suite('rejected', rejected, rule='rejected sets of every kind'), faults(deep)]
