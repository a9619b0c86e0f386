"""C37: what holds the values of a set."""
import collections
import copy
import os

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite
from .c16 import alone, compare
from .families import T

BOUND = {'quick': 'every layout of every kind x every value in it, also inside elements, groups and lists, x 9 to 23 forms (python and numpy numbers of every size, whole floats, 0-d arrays, lists, tuples, arrays of every element '
                  'type, strided, reversed, read-only, unaligned and Fortran-ordered arrays, str subclasses, bool for the flags of 58); pairs of every such value and every 31st other one; all values in one form; one column in one form and the others in another; every key first or last, 4 orders, 3 kinds of dict, every field of the other set types as an extra one; both precisions',
         'thorough': 'pairs with every 7th other one'}
ASSUMPTIONS = ['the matrices of 2420 are arrays of floats or integers in any order; the values of data-set 151 that are stored as they print are no floats; the groups of 2429 and 2467 and the elements of 2412 are in lists, the numbers of an element are no 0-d arrays',
               'x and data of 58 and r1 of 55 keep what tells real from complex']

KINDS = H.models(H.EVERY)


class Text(str):
    pass


class Form:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


def form(name, f=None):
    return Form(name, f or getattr(np, name))


INTS = [Form('int', int), Form('float', float), form('int64'), form('int32'), form('int16'), form('int8'), form('uint8'), form('uint16'), form('uint32'), form('uint64'), form('float64'), form('float32'), form('longdouble'),
        Form('0-d array', np.array), Form('0-d float array', lambda x: np.array(float(x)))]
FLOATS = [Form('float', float), form('float64'), form('float32'), form('float16'), form('longdouble'), Form('0-d array', np.array), Form('int', int)]
COMPLEX = [Form('complex', complex), form('complex128'), form('complex64'), Form('0-d array', np.array)]
STRS = [Form('str subclass', Text), form('str_')]
SEQS = [Form('list', list), Form('tuple', tuple), Form('array', np.array), Form('object array', lambda v: obj(v)), Form('python numbers', lambda v: np.asarray(v).tolist()), Form('numpy numbers', lambda v: [np.asarray(x)[()] for x in v])]
ARRAYS = [form(n, lambda v, n=n: np.asarray(v).astype(n)) for n in ('float64', 'float32', 'int64', 'int32', 'int16', 'uint32', 'uint8', 'complex128', '>i4', '>f8', 'float16', 'longdouble', 'complex64', '>f4', '>c16', 'int8', 'uint64')]
def unaligned(v):
    a = np.asarray(v)
    return np.frombuffer(bytearray(b'?' + a.tobytes()), a.dtype, a.size, 1).reshape(a.shape)


def read_only(v):
    a = np.array(v)
    a.flags.writeable = False
    return a


class Sub1(np.ndarray):
    pass


def padded(v, cut, order='C'):
    """A view into a larger array, whose other values are 77."""
    a = np.asarray(v)
    big = np.full([2 * n + 1 for n in a.shape], 77, a.dtype, order)
    big[cut(a)] = a
    return big[cut(a)]


LAYOUTS = [Form('every second', lambda v: padded(v, lambda a: tuple(slice(0, 2 * n, 2) for n in a.shape))), Form('reversed view', lambda v: np.array(v[::-1])[::-1]), Form('middle', lambda v: padded(v, lambda a: tuple(slice(1, n + 1) for n in a.shape))),
           Form('read-only', read_only), Form('unaligned', unaligned), Form('subclass', lambda v: np.array(v).view(Sub1)), Form('Fortran order', lambda v: np.array(v, order='F')), Form('transposed view', lambda v: np.array(np.array(v).T).T),
           Form('part in Fortran order', lambda v: padded(v, lambda a: tuple(slice(1, n + 1) for n in a.shape), 'F')), Form('reversed columns', lambda v: np.array(np.array(v)[..., ::-1])[..., ::-1])]
FLAGS = [Form('bool', bool), form('bool_'), Form('0-d bool array', lambda x: np.array(bool(x)))]


def obj(v):
    a = np.empty(len(v), object)
    a[:] = list(v)
    return a


def equal(a, b):
    """Whether they hold the same values."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def places(v, path=()):
    """[(place, forms)] of everything that may be held in another form."""
    out = []
    if isinstance(v, dict):
        for k, x in v.items():
            if k not in ('type',) or path:
                out += places(x, path + (k,))
    elif isinstance(v, (bool, np.bool_)):
        pass
    elif isinstance(v, (int, np.integer)):
        out.append((path, INTS))
    elif isinstance(v, (float, np.floating)):
        out.append((path, FLOATS))
    elif isinstance(v, (complex, np.complexfloating)):
        out.append((path, COMPLEX))
    elif isinstance(v, str):
        out.append((path, STRS))
    elif isinstance(v, np.ndarray) and v.ndim == 1:
        out.append((path, SEQS + (ARRAYS if v.dtype.kind in 'ifc' else []) + LAYOUTS[:6]))
    elif isinstance(v, np.ndarray) and v.ndim == 2:
        out.append((path, ARRAYS + LAYOUTS))
    elif isinstance(v, (list, tuple)) and len(v):
        x = v[0]
        if isinstance(x, dict):
            for i, y in enumerate(v):
                out += places(y, path + (i,))
        elif isinstance(x, str):
            out.append((path, SEQS[:4]))
            out += [(path + (0,), STRS), (path + (len(v) - 1,), STRS)]
        elif isinstance(x, (int, float, np.number)):
            out.append((path, SEQS + ARRAYS + [f for f in LAYOUTS[:6] if f.name != 'reversed view']))
            out += [(path + (i,), INTS if isinstance(v[i], (int, np.integer)) else FLOATS) for i in sorted({0, len(v) - 1})]
        else:
            # rows
            out.append((path, [f for f in SEQS[:2]]))
            for i, y in enumerate(v):
                out += places(y, path + (i,))
    return out


def get(d, place):
    for k in place:
        d = d[k]
    return d


def put(d, place, v):
    get(d, place[:-1])[place[-1]] = v


def allowed(t, place, f, old, new):
    """Whether the new form is one of those that hold the same values for this field."""
    key = place[0]
    if t.num == 151 and not isinstance(old, str) and not isinstance(new, (int, np.integer)):
        return False
    if t.num == 2412 and isinstance(new, np.ndarray) and new.ndim == 0:
        return False
    if t.num == 2420 and key == 'CS_matrices':
        return isinstance(new, (list, tuple)) if len(place) == 1 else isinstance(new, np.ndarray)
    if t.num == 58 and key in ('data', 'x') or t.num == 55 and key in ('r1', 'modal_a', 'modal_b', 'eig') or t.num == 2414 and key in ('x', 'y', 'z'):
        if np.iscomplexobj(np.asarray(old)) and np.asarray(new).dtype.kind == 'O':
            return False
        if np.iscomplexobj(np.asarray(old)) != np.iscomplexobj(np.asarray(new)):
            return False
    elif np.iscomplexobj(np.asarray(new)) and not np.iscomplexobj(np.asarray(old)):
        return False
    if isinstance(new, list) and isinstance(old, list) and type(new[0]) is type(old[0]) and new == old:
        return False
    return True


def reform(ctx, t, d, place, f, own=False):
    """The set with the value in that form, or None if the form does not hold it."""
    if not own:
        d = copy.deepcopy(d)
    old = get(d, place)
    try:
        with np.errstate(all='ignore'):
            new = f.f(old)
        if not equal(old, new) or not allowed(t, place, f, old, new):
            return None
    except (TypeError, ValueError, OverflowError):
        return None
    put(d, place, new)
    return d


# columns that may hold any numbers
FREE = {15: 'node_nums def_cs disp_cs color', 2411: 'node_nums def_cs disp_cs color', 18: 'cs_num ref_cs_num color', 55: 'node_nums', 2414: 'node_nums element_nums', 2420: 'CS_sys_labels CS_types CS_colors', 82: 'nodes trace_num color'}


def given(t, m):
    """A set whose columns are not those of counting."""
    d = t.dset(m)
    for i, k in enumerate(FREE.get(t.num, '').split()):
        if k in d:
            a = np.asarray(d[k])
            v = (a[::-1] if a.ndim else a) % 7 * 17 + 23 + i
            d[k] = v.tolist() if isinstance(d[k], (list, int)) else v
    return d


PLACES = {}


def places_of(kind):
    label, t, m = kind
    if label not in PLACES:
        PLACES[label] = [(p, f) for p, fs in places(given(t, m)) for f in fs + (FLAGS if t.num == 58 and p[0] in ('binary', 'abscissa_spacing') else [])]
    return PLACES[label]


PAIRED = ('58(False, True, False, False)', '58(True, False, False, True)')


def fields(tier):
    def driver(ctx):
        kind = ctx.choose('set', KINDS)
        _, t, m = kind
        d = given(t, m)
        place, f = ctx.choose('place and form', places_of(kind))
        e = reform(ctx, t, d, place, f)
        if e is None:
            return
        what = '%s %s' % ('.'.join(map(str, place)), f)
        if tier != 'quick' or t.num != 58 or kind[0] in PAIRED:
            other = ctx.choose('and', [None] + [x for x in places_of(kind) if x[0] != place][::7 if tier != 'quick' else 31])
            if other is not None:
                try:
                    e = reform(ctx, t, e, *other, own=True)
                except (TypeError, IndexError, KeyError, ValueError):
                    return
                if e is None:
                    return
                what += ', %s %s' % ('.'.join(map(str, other[0])), other[1])
        fd = ctx.choose('force_double', [True, False] if t.num == 58 else [True])
        store(ctx, kind, d, e, fd, what)
    return Suite('forms', driver, rule='every value x form')


WANT = {}


def store(ctx, kind, d, e, fd, what):
    key = kind[0], fd
    if key not in WANT:
        WANT[key] = alone(ctx, d, fd=fd)
    path = ctx.file()
    try:
        lib.pyuff.UFF(path).write_sets(e, 'add', fd)
    except Exception as x:
        ctx.fail('%s: the set is refused: %r' % (what, x))
    compare(ctx, lib.data_of(path), WANT[key], what)
    ctx.op()
    ctx.observe(kind[0], what, fd)
    ctx.note('%s: %s' % (kind[0], what))


FAMILIES = {'int': [INTS], 'float': [FLOATS], 'sequence': [SEQS, ARRAYS]}


def at_once(ctx):
    """Every value in one form."""
    kind = ctx.choose('set', KINDS)
    f = ctx.choose('form', INTS + FLOATS[:-1] + STRS + SEQS + ARRAYS + LAYOUTS + ['numpy all over', 'python all over'])
    _, t, m = kind
    d = given(t, m)
    e = copy.deepcopy(d)
    n = 0
    for place, fs in reversed(places(d)):
        if f == 'numpy all over':
            choice = [x for x in fs if x.name in ('array', 'int64', 'float64', 'complex128', 'str_')][:1]
        elif f == 'python all over':
            choice = [x for x in fs if x.name in ('python numbers', 'int', 'float', 'complex', 'list')]
            choice = [x for x in choice if x.name == 'python numbers'] or choice[:1]
        else:
            choice = [f] if any(x is f for x in fs) else []
        for x in choice:
            old = get(d, place)
            try:
                with np.errstate(all='ignore'):
                    new = x.f(old)
                if not equal(old, new) or not allowed(t, place, x, old, new):
                    continue
                put(e, place, new)
                n += 1
            except (TypeError, ValueError, OverflowError):
                continue
    if n:
        store(ctx, kind, d, e, ctx.choose('force_double', [True, False] if t.num == 58 else [True]), 'all as %s' % f)


MIXED = [x for x in SEQS if x.name != 'python numbers'] + [x for x in ARRAYS if x.name in ('float64', 'int32')] + LAYOUTS[:2]


def mixed(ctx):
    """One column in one form and the others in another."""
    kind = ctx.choose('set', KINDS)
    _, t, m = kind
    d = given(t, m)
    cols = [(p, fs) for p, fs in places(d) if any(x is SEQS[0] or x is LAYOUTS[0] for x in fs)]
    one = ctx.choose('column', [str(p[-1]) if len(p) == 1 else '.'.join(map(str, p)) for p, _ in cols] or ['none'])
    f, g = ctx.choose('its form', MIXED), ctx.choose('form of the others', MIXED)
    if f is g:
        return
    e = copy.deepcopy(d)
    n = 0
    for place, fs in reversed(cols):
        x = f if '.'.join(map(str, place)) == one else g
        if not any(x is y for y in fs):
            continue
        try:
            old = get(e, place)
            with np.errstate(all='ignore'):
                new = x.f(old)
            if not equal(old, new) or not allowed(t, place, x, old, new):
                continue
            put(e, place, new)
            n += 1
        except (TypeError, ValueError, OverflowError, IndexError, KeyError):
            continue
    if n > 1:
        store(ctx, kind, d, e, True, '%s as %s, the others as %s' % (one, f, g))


class Sub(dict):
    pass


FOREIGN = {}
for _, _t, _m in KINDS:
    for _k, _v in _t.dset(_m).items():
        if isinstance(_k, str) and not isinstance(_v, dict):
            FOREIGN.setdefault(_k, _v)
KNOWN = {}
for _, _t, _m in KINDS:
    KNOWN.setdefault(_t.num, set()).update(_t.dset(_m))


def extra(num):
    """[(key, value)] the set type does not know."""
    out = [(k, v) for k, v in FOREIGN.items() if k not in KNOWN[num] and not (num == 58 and k in ('n_bytes', 'num_pts', 'abscissa_min', 'abscissa_inc')) and not (num == 55 and k.startswith('r'))
           and not (num == 2412 and k in ('triangle', 'quad', 'nodes_nums', 'element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes'))]
    return out + [('comment', 'any text'), ('', None), ('Type', 15), ('TYPE', 58), ('_private', object), ('n', float('nan')), ('more', [1, 2, 3]), ('text\nwith lines\n    -1', '    -1\n')]


class Item(tuple):
    def __repr__(self):
        return str(self[0])


def dictionary(ctx):
    kind = ctx.choose('set', KINDS)
    _, t, m = kind
    d = given(t, m)
    keys = list(d)
    change = ctx.choose('change', [Item(x) for x in [('reversed',), ('sorted',), ('ordered dict',), ('subclass',), ('default dict',), ('rotated',), ('all extra',)]
                                   + [('first', k) for k in keys] + [('last', k) for k in keys] + [('extra', k, v) for k, v in extra(t.num)]])
    w = change[0]
    if w == 'reversed':
        e = {k: d[k] for k in reversed(keys)}
    elif w == 'sorted':
        e = {k: d[k] for k in sorted(keys, key=str)}
    elif w == 'rotated':
        n = len(keys) // 2
        e = {k: d[k] for k in keys[n:] + keys[:n]}
    elif w == 'first':
        e = {k: d[k] for k in [change[1]] + [k for k in keys if k != change[1]]}
    elif w == 'last':
        e = {k: d[k] for k in [k for k in keys if k != change[1]] + [change[1]]}
    elif w == 'ordered dict':
        e = collections.OrderedDict(d)
    elif w == 'subclass':
        e = Sub(d)
    elif w == 'default dict':
        e = collections.defaultdict(list, d)
    elif w == 'extra':
        e = dict(d)
        e[change[1]] = change[2]
        if ctx.choose('place', ['last', 'first']) == 'first':
            e = dict([(change[1], change[2])], **d) if all(isinstance(k, str) for k in d) else {change[1]: change[2], **d}
    else:
        e = dict(extra(t.num), **{}) | dict(d)
    # the elements of 2412 are stored in the order of their kinds
    if t.num == 2412 and w in ('reversed', 'sorted', 'first', 'last', 'rotated') and [k for k in e if isinstance(k, int)] != [k for k in d if isinstance(k, int)]:
        return
    store(ctx, kind, d, copy.deepcopy(e), ctx.choose('force_double', [True, False] if t.num == 58 else [True]), '%s %s' % (w, change[1:2]))


def inner(ctx):
    """The dictionaries inside sets."""
    kind = ctx.choose('set', [k for k in KINDS if k[1].num in (2412, 2429, 2467)])
    _, t, m = kind
    d = given(t, m)
    e = copy.deepcopy(d)
    w = ctx.choose('change', ['reversed', 'subclass', 'ordered dict', 'extra'])

    def change(v):
        if isinstance(v, dict):
            v = {k: change(x) for k, x in v.items()}
            return {'reversed': lambda: {k: v[k] for k in reversed(list(v))}, 'subclass': lambda: Sub(v), 'ordered dict': lambda: collections.OrderedDict(v), 'extra': lambda: dict(v, comment='text', more=[1])}[w]()
        if isinstance(v, list):
            return [change(x) for x in v]
        return v
    e = {k: change(v) for k, v in e.items()}
    store(ctx, kind, d, e, True, 'inner %s' % w)


ABSCISSAE = [[5, 3, 1], [0, 100], [100, 0], [-100, 100], [-100, 0, 100], [127, -127], [-128, 127], [1, 0], [0, 200], [200, 0], [255, 0], [30000, -30000], [60000, 0], [0, 65535], [2000000000, -2000000000], [0, 4294967295], [3, 3, 3], [7], [-1, -3, -5, -7]]
SAMPLES = [[5, 3, 1], [-100, 100, 0], [0, 255, 7], [-128, 127, 1], [30000, -30000, 60000], [2, 2000000000, -5], [1, 0, 1]]


def abscissae(ctx):
    """Whole abscissae and samples that span the range of small element types."""
    v = ctx.choose('variant', [(c, e, False, b) for c in (False, True) for e in (True, False) for b in (True, False)] + [(False, True, True, False), (True, False, True, True)])
    xs = ctx.choose('x', ABSCISSAE)
    ys = ctx.choose('data', SAMPLES if not v[0] else SAMPLES[:1])
    t = T[58]
    m = t.base(v, len(xs))
    d = t.dset(m)
    d['x'] = np.array(xs, float)
    if not v[0]:
        d['data'] = np.array((ys * 2)[:len(xs)], float)
    e = copy.deepcopy(d)
    f, g = ctx.choose('form of x', SEQS[:3] + ARRAYS + LAYOUTS[:6]), ctx.choose('form of data', ARRAYS if not v[0] else ARRAYS[:1])
    for key, form_ in (('x', f), ('data', g)):
        if key == 'data' and v[0]:
            continue
        with np.errstate(all='ignore'):
            new = form_.f(d[key])
        if np.iscomplexobj(new) or not equal(d[key], new):
            return
        e[key] = new
    fd = ctx.choose('force_double', [True, False] if v[2] else [True])
    store_fresh(ctx, d, e, fd, 'x %s as %s, data %s as %s' % (xs, f, ys, g))


def store_fresh(ctx, d, e, fd, what):
    want = alone(ctx, d, fd=fd)
    path = ctx.file()
    try:
        lib.pyuff.UFF(path).write_sets(e, 'add', fd)
    except Exception as x:
        ctx.fail('%s: the set is refused: %r' % (what, x))
    # a zero of either sign is the same number
    compare(ctx, lib.data_of(path).replace(b'-0.00000e+00', b' 0.00000e+00'), want.replace(b'-0.00000e+00', b' 0.00000e+00'), what)
    ctx.op(2)
    ctx.observe(want)
    ctx.note(what)


def suites(tier):
    return [Suite('abscissae', abscissae, rule='whole abscissae and samples over the range of small types x element types'), fields(tier), Suite('at once', at_once, rule='every value in one form'), Suite('one and the others', mixed, rule='one column in one form x the others in another'), Suite('dictionary', dictionary, rule='orders, kinds of dict and extra fields'), Suite('inner', inner, rule='dictionaries inside sets')]
