"""C16: writing does not alter the caller's values, and a stored set depends on nothing but itself."""
import copy
import os
import warnings

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite
from ..roundtrip import deviate_header
from .c13 import Text

BOUND = {'quick': 'every kind with and without its optional fields after and before every other, in lists, twice, after rejected sets, in both modes; every header field at its alphabet; five forms of the arrays; every text longer than its field; dictionaries that were read back, and all layouts, written again',
         'thorough': 'triples of kinds, pairs of header fields'}
ASSUMPTIONS = ['the automatic fields (data type, abscissa_min, n_bytes, num_pts, defaults of omitted fields) may be added or updated',
               'modal_a and modal_b of 55 may become equal complex numbers']

AUTOMATIC = {58: {'ord_data_type', 'abscissa_min', 'n_bytes', 'num_pts', 'byte_ordering', 'fp_format', 'n_ascii_lines'},
             55: {'data_type', 'n_data_per_node'}, 82: {'n_nodes'}}


def optional(t, m):
    o = set(getattr(t, 'optional', {}))
    if t.num == 55:
        o |= set(t.opt_spec[m['variant'][0]])
    return o


def contents(menu=H.ALL + [(58, (c, False, False, b), 3) for c in (False, True) for b in (False, True)]):
    """[Kind] of (label, type, dictionary)."""
    out = []
    for label, t, m in H.models(menu):
        out.append(H.Kind((label, t, t.dset(H.mark(t, m, 3)))))
        if t.num == 58 and not m['variant'][1]:
            # fields that do not apply to uneven spacing, and others the writer does not store
            d = t.dset(H.mark(t, m, 4))
            d.update(abscissa_inc=0.5, n_bytes=7, num_pts=7, abscissa_min=9.5, byte_ordering=3, fp_format=1, n_ascii_lines=5, spec_data_type=8, remark='own field', table=[1.5, {'a': [2]}])
            out.append(H.Kind((label + ' with more fields', t, d)))
        drop = optional(t, m)
        if t.num == 2400:
            drop -= {'model_name'}
        if t.num in (2429, 2467):
            d = t.dset(m)
            for g in d['groups']:
                for k in list(g):
                    if k in getattr(t, 'optional_group', {}):
                        del g[k]
            out.append(H.Kind((label + ' minimal', t, d)))
        elif drop:
            d = {k: v for k, v in t.dset(m).items() if k not in drop}
            if t.num == 58:
                d['binary'] = int(m['variant'][3])
                d['abscissa_spacing'] = int(m['variant'][1])
            out.append(H.Kind((label + ' minimal', t, d)))
    return out


MENU = contents()
MORE = contents([x for x in H.EVERY if x[0] != 58 and x not in H.ALL])


def read_back():
    """The dictionaries read_sets returns: what a caller alters and writes again."""
    import tempfile
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        for label, t, d in MENU + MORE:
            if 'minimal' in label or 'more fields' in label:
                continue
            p = os.path.join(tmp, 'a.uff')
            try:
                lib.write(p, copy.deepcopy(d), 'overwrite', False)
                got = lib.read(p)
            except Exception:
                continue        # another property
            if isinstance(got, dict):
                out.append(H.Kind((label + ' read back', t, got)))
    return out


def arrays(v, out):
    if isinstance(v, dict):
        for x in v.values():
            arrays(x, out)
    elif isinstance(v, (list, tuple)):
        out.append(v)
        for x in v:
            arrays(x, out)
    elif isinstance(v, np.ndarray):
        out.append(v)
    return out


def unchanged(was, now):
    """Fields may be added to dictionaries."""
    if isinstance(was, np.ndarray) and was.dtype.kind in 'fc':
        return isinstance(now, np.ndarray) and was.dtype == now.dtype and was.shape == now.shape and was.tobytes() == now.tobytes()
    if isinstance(was, float):
        return type(was) is type(now) and np.float64(was).tobytes() == np.float64(now).tobytes()
    if isinstance(was, dict):
        return isinstance(now, dict) and all(k in now and unchanged(was[k], now[k]) for k in was)
    if isinstance(was, (list, tuple)):
        return type(was) is type(now) and len(was) == len(now) and all(unchanged(x, y) for x, y in zip(was, now))
    return H.same(was, now)


class Kept:
    """A set as the caller knows it."""

    def __init__(self, num, d):
        self.num, self.d = num, d
        self.was = copy.deepcopy(d)
        self.held = arrays(d, [])
        self.copies = copy.deepcopy(self.held)

    def check(self, ctx, who=''):
        for k, v in self.was.items():
            ctx.check(k in self.d, '%sfield %s of the caller is gone', who, k)
            if k in AUTOMATIC.get(self.num, ()):
                continue
            now = self.d[k]
            if self.num == 55 and k in ('modal_a', 'modal_b'):
                ctx.check(now == v, '%s%s of the caller became %r, it was %r', who, k, now, v)
                continue
            if k == 'data':
                now, v = np.asarray(now), np.asarray(v)
                ctx.check(now.shape == v.shape and bool((now == v).all()), '%sdata of the caller became %r, it was %r', who, now, v)
                continue
            ok = unchanged(v, now)
            ctx.check(ok, '%sthe caller\'s %s', who, ok or H.first_difference(v, now, k))
        for a, b in zip(self.held, self.copies):
            ok = unchanged(b, a)
            ctx.check(ok, '%sa value of the caller was changed in place%s', who, ok or H.first_difference(b, a))


def alone(ctx, d, mode='overwrite', fd=True):
    p = ctx.file('alone.uff')
    if os.path.exists(p):
        os.remove(p)
    lib.pyuff.UFF(p).write_sets(copy.deepcopy(d), mode, fd)
    raw = lib.data_of(p)
    os.remove(p)
    return raw


def compare(ctx, got, want, who):
    if got != want:
        for x, y in zip(got.split(b'\n'), want.split(b'\n')):
            if x != y:
                ctx.fail('%s: stored %r, expected %r' % (who, x, y))
        ctx.fail('%s: %d bytes stored, expected %d' % (who, len(got), len(want)))


BACK = []


def pairs(tier):
    deep = tier != 'quick'

    def driver(ctx):
        kinds = [ctx.choose('set %d' % k, MENU) for k in range(3 if deep else 2)]
        how = ctx.choose('how', ['list', 'list add', 'calls', 'objects', 'two files'])
        ds = [copy.deepcopy(d) for _, _, d in kinds]
        want = [alone(ctx, k[2]) for k in kinds]
        kept = [Kept(k[1].num, d) for k, d in zip(kinds, ds)]
        path = ctx.file()
        u = lib.pyuff.UFF(path)
        if how.startswith('list'):
            u.write_sets(ds, 'add' if 'add' in how else 'overwrite')
        elif how == 'calls':
            for i, d in enumerate(ds):
                u.write_sets(d, 'add' if i else 'overwrite')
        elif how == 'objects':
            for d in ds:
                lib.pyuff.UFF(path).write_sets(d)
        else:
            v = lib.pyuff.UFF(ctx.file('b.uff'))
            for d in ds:
                v.write_sets(d, 'overwrite')
                u.write_sets(d, 'add')
            compare(ctx, lib.data_of(ctx.file('b.uff')), want[-1], 'the same set in another file')
        ctx.op(len(ds))
        compare(ctx, lib.data_of(path), b''.join(want), '%s %s' % (how, [k[0] for k in kinds]))
        for k in kept:
            k.check(ctx)
        ctx.observe(lib.data_of(path))
        ctx.note('%s: %s' % (how, [k[0] for k in kinds]))
    return Suite('pairs', driver, rule='every ordered pair (thorough: triple) of contents x the ways to write them')


def shared(d, e):
    """Lets e share the arrays and lists of d."""
    for k in e:
        if k in d and isinstance(d[k], (list, np.ndarray)) and type(d[k]) is type(e[k]) and H.same(d[k], e[k]):
            e[k] = d[k]
    return e


def repeats(ctx):
    """The same set again and again, with a history that might leave a trace."""
    kind = ctx.choose('set', MENU + MORE + BACK)
    num = kind[1].num
    fd = ctx.choose('force_double', [True, False] if num == 58 else [True])
    d = copy.deepcopy(kind[2])
    want = alone(ctx, d, fd=fd)
    kept = Kept(num, d)
    path = ctx.file()
    what = ctx.choose('history', ['twice', 'twice in a list', 'shared arrays', 'read in between', 'rejected in between', 'overwrite', 'after unsupported', 'other precision before',
                                  'returned set altered', 'given set altered', 'add mode alone'])
    u = lib.pyuff.UFF(path)
    expect = want * 2
    if what == 'twice':
        u.write_sets(d, 'add', fd)
        kept.check(ctx, 'after the first: ')
        u.write_sets(d, 'add', fd)
    elif what == 'twice in a list':
        u.write_sets([d, d], 'overwrite', fd)
    elif what == 'shared arrays':
        e = shared(d, copy.deepcopy(kind[2]))
        u.write_sets([d, e], 'add', fd)
        Kept(num, e).check(ctx)
    elif what == 'read in between':
        u.write_sets(d, 'add', fd)
        u.read_sets()
        u.read_sets(0, header_only=True)
        u.write_sets(d, 'add', fd)
    elif what == 'returned set altered':
        from .c15 import spoil
        u.write_sets(d, 'add', fd)
        spoil(u.read_sets())
        u.write_sets(d, 'add', fd)
    elif what == 'given set altered':
        # what the writer may have added to the set belongs to that set alone
        from .c15 import spoil
        e = copy.deepcopy(kind[2])
        u.write_sets(d, 'add', fd)
        kept.check(ctx)
        spoil(d)
        d, kept = e, Kept(num, e)
        u.write_sets(e, 'add', fd)
    elif what == 'rejected in between':
        u.write_sets(d, 'add', fd)
        bad = copy.deepcopy(kind[2])
        bad[[k for k in list(bad) + ['model_name'] if k != 'type'][-1 if len(bad) == 1 else -2]] = Text()
        if not lib.refused(u.write_sets, bad, 'add', fd):
            return
        u.write_sets(d, 'add', fd)
    elif what == 'overwrite':
        u.write_sets(d, 'overwrite', fd)
        u.write_sets(d, 'overwrite', fd)
        expect = want
    elif what == 'after unsupported':
        u.write_sets([dict(H.UNSUPPORTED), d, dict(H.UNSUPPORTED), d], 'add', fd)
    elif what == 'other precision before':
        v = lib.pyuff.UFF(ctx.file('b.uff'))
        other = copy.deepcopy(kind[2])
        if num == 58:
            other['ord_data_type'] = {2: 4, 4: 2, 5: 6, 6: 5}.get(other.get('ord_data_type'), 4)
        v.write_sets(other, 'add', not fd)
        u.write_sets(d, 'add', fd)
        expect = want
    elif what == 'add mode alone':
        expect = want
        compare(ctx, alone(ctx, d, 'add', fd), want, 'in add mode')
        u.write_sets(d, 'add', fd)
    ctx.op(2)
    compare(ctx, lib.data_of(path), expect, what)
    kept.check(ctx)
    ctx.observe(lib.data_of(path))
    ctx.note('%s %s' % (kind[0], what))


FORMS = ['as is', 'read-only', 'strided', 'fortran', 'big-endian', 'views', 'list fields as tuples']


def reform(v, form):
    if isinstance(v, dict):
        return {k: reform(x, form) for k, x in v.items()}
    if isinstance(v, list):
        return [reform(x, form) for x in v]
    if isinstance(v, np.ndarray) and v.dtype.kind in 'ifc':
        if form == 'read-only':
            v = v.copy()
            v.flags.writeable = False
        elif form == 'strided':
            big = np.zeros(tuple(2 * n for n in v.shape), v.dtype)
            big[...] = 7
            sub = big[tuple(slice(None, None, 2) for _ in v.shape)]
            sub[...] = v
            v = sub
        elif form == 'fortran':
            v = np.asfortranarray(v)
        elif form == 'big-endian':
            v = v.astype(v.dtype.newbyteorder('>'))
        elif form == 'views':
            big = np.concatenate([v, v])
            v = big[:len(v)]
    return v


def forms(ctx):
    """The same values in arrays of other forms give the same bytes, and the arrays stay as they are."""
    kind = ctx.choose('set', MENU + MORE + BACK)
    form = ctx.choose('form', FORMS[:-1])
    fd = ctx.choose('force_double', [True, False])
    mode = ctx.choose('mode', ['add', 'overwrite'])
    d = reform(copy.deepcopy(kind[2]), form)
    want = alone(ctx, kind[2], fd=fd)
    kept = Kept(kind[1].num, d)
    bases = [a.base for a in kept.held if isinstance(a, np.ndarray) and a.base is not None]
    was = copy.deepcopy(bases)
    path = ctx.file()
    lib.pyuff.UFF(path).write_sets(d, mode, fd)
    kept.check(ctx)
    for a, b in zip(bases, was):
        ctx.check(H.same(a, b), 'the array behind a field was changed')
    compare(ctx, lib.data_of(path), want, form)
    ctx.op()
    ctx.observe(lib.data_of(path), form)


def spots(v, path=()):
    """The places of number arrays and number lists in a set."""
    out = []
    if isinstance(v, dict):
        for k, x in v.items():
            out += spots(x, path + (k,))
    elif isinstance(v, np.ndarray) and v.dtype.kind in 'ifc' and v.size:
        out.append(path)
    elif isinstance(v, list) and v:
        if all(type(x) in (int, float, complex) for x in v):
            out.append(path)
        else:
            for i, x in enumerate(v):
                out += spots(x, path + (i,))
    return out


NUMBERS = {'minus zero': -0.0, 'small': -1.5e-99, 'denormal': 5e-324}
DTYPES = {'f': ['float64', 'float32', 'float16', 'int64', 'int32'], 'c': ['complex128', 'complex64', 'float64', 'int64'], 'i': ['int64', 'int32', 'int16', 'uint8', 'float64']}


def values(ctx):
    """Arrays of other precisions and of values that are easily lost stay what they are, and are stored alike each time."""
    label, t, d = ctx.choose('set', MENU + MORE + BACK)
    d = copy.deepcopy(d)
    where = spots(d)
    if not where:
        return
    p = ctx.choose('field', where + ['all'])
    if p == 'all':
        dtype = ctx.choose('dtype', ['float64', 'float32', 'int64', 'int16', 'complex128', 'object'])
        for q in where:
            v = d
            for k in q[:-1]:
                v = v[k]
            if isinstance(v[q[-1]], np.ndarray):
                with np.errstate(all='ignore'), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    v[q[-1]] = v[q[-1]].astype(dtype)
        return stored_twice(ctx, label, t, d, p, dtype)
    v = d
    for k in p[:-1]:
        v = v[k]
    a = np.asarray(v[p[-1]])
    dtype = ctx.choose('dtype', DTYPES[a.dtype.kind])
    special = ctx.choose('value', [None, 'another'] + list(NUMBERS) if a.dtype.kind in 'fc' and np.dtype(dtype).kind in 'fc' else [None, 'another'])
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = a.astype(dtype)
    if special == 'another':
        a.flat[ctx.choose('at', [0, -1])] = 3
    elif special:
        with np.errstate(all='ignore'):
            a.flat[ctx.choose('at', [0, -1])] = NUMBERS[special]
    v[p[-1]] = a.tolist() if ctx.choose('as', ['array', 'list']) == 'list' else a
    stored_twice(ctx, label, t, d, p, dtype)
    ctx.note('%s %s %s %s' % (label, p, dtype, special))


def stored_twice(ctx, label, t, d, p, dtype):
    fd = ctx.choose('force_double', [True, False] if t.num == 58 else [True])
    kept = Kept(t.num, d)
    path = ctx.file()
    u = lib.pyuff.UFF(path)
    ctx.op(2)
    try:
        u.write_sets(d, 'overwrite', fd)
    except Exception:
        # a form the writer does not take
        kept.check(ctx, 'after the refusal: ')
        ctx.observe(label, p, dtype, 'refused')
        return
    raw = lib.data_of(path)
    kept.check(ctx)
    u.write_sets(d, 'add', fd)
    kept.check(ctx, 'after the second: ')
    compare(ctx, lib.data_of(path), raw * 2, 'written again')
    ctx.observe(raw)


def long_texts(v, path=()):
    """The places of texts in a set."""
    out = []
    if isinstance(v, dict):
        for k, x in v.items():
            out += long_texts(x, path + (k,))
    elif isinstance(v, (list, np.ndarray)):
        for i, x in enumerate(v):
            if isinstance(x, (str, dict, list, np.ndarray)):
                out += long_texts(x, path + (i,))
    elif isinstance(v, str):
        out.append(path)
    return out


TEXTS = ['x' * 200, 'x' * 41, '\u010d' * 90, ' blanks around ', 'a\tb', '', 'MiXed', '1e5', 'NONE']


def names(ctx):
    """Texts that do not fit, in every place, and in lists, arrays and tuples."""
    label, t, d = ctx.choose('set', MENU + MORE)
    d = copy.deepcopy(d)
    where = [p for p in long_texts(d) if p != ('type',)]
    if not where:
        return
    p = ctx.choose('text', where)
    v = d
    for k in p[:-1]:
        outer, key, v = v, k, v[k]
    s = ctx.choose('value', TEXTS)
    if isinstance(v, np.ndarray):
        v = outer[key] = v.tolist()
    v[p[-1]] = s
    if isinstance(v, list):
        form = ctx.choose('as', ['list', 'array', 'objects', 'tuple'])
        outer[key] = {'list': list, 'array': np.array, 'objects': lambda x: np.array(x, object), 'tuple': tuple}[form](v)
    kept = Kept(t.num, d)
    path = ctx.file()
    u = lib.pyuff.UFF(path)
    ctx.op(2)
    try:
        u.write_sets(d, 'overwrite')
    except Exception:
        kept.check(ctx, 'after the refusal: ')
        ctx.observe(label, p, s, 'refused')
        return
    raw = lib.data_of(path)
    kept.check(ctx)
    u.write_sets(d, 'add')
    kept.check(ctx, 'after the second: ')
    compare(ctx, lib.data_of(path), raw * 2, 'written again')
    ctx.observe(raw)
    ctx.note('%s %s %r' % (label, p, s))


def header(tier):
    """Every header field at every value."""
    one = [k for k in H.models(H.EVERY) if k[1].header(k[2])]

    def driver(ctx):
        _, t, m = ctx.choose('set', one)
        m = deviate_header(ctx, t, dict(m), tier != 'quick')
        d = t.dset(m)
        kept = Kept(t.num, d)
        path = ctx.file()
        u = lib.pyuff.UFF(path)
        u.write_sets(d, 'overwrite')
        raw = lib.data_of(path)
        kept.check(ctx)
        u.write_sets(d, 'add')
        ctx.check(lib.data_of(path) == raw + raw, 'writing the same set again stores something else')
        kept.check(ctx)
        ctx.op(2)
        ctx.observe(raw)
    return Suite('header', driver, bound=1 if tier == 'quick' else 2, window=None if tier == 'quick' else 2, rule='every header field at every value of its alphabet')


def suites(tier):
    global BACK
    BACK = read_back()
    return [pairs(tier), Suite('repeats', repeats, rule='every content x histories of the same set'), Suite('forms', forms, rule='every content x array forms x modes'), Suite('values', values, rule='every number array of every content x precision x values that are easily lost'), Suite('names', names, rule='every text of every content x texts that do not fit x containers'), header(tier)]
