"""C33: the kinds of the values that reads return."""
import copy

import numpy as np

from .. import alpha, history as H, lib, patterns, roundtrip as rt, sets
from ..engine import Suite
from ..layout import Enc
from .c11 import FEW
from .c18 import optional

BOUND = {'quick': 'every layout of every kind: counts up to 25 and edges up to 257, every header field at every value, every column at 10 to 19 patterns of values with 2 to 9 entries, left out optional fields, '
                  'files of the independent encoder in 4 styles, every place in a file and every way to ask for a set',
         'thorough': 'counts up to 129 and edges up to 1025, pairs of header fields, pairs of columns, 11 counts of entries'}
ASSUMPTIONS = ['what is compared: python type, element type, number of dimensions and of columns; an empty list may be of anything',
               'the layout of 58 is real or complex, even or uneven, precision, and text or binary']

T = sets.TYPES


def kind(v):
    """Kind of a value that has no fields."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('array of objects', v.ndim) + tuple(sorted({kind(x) for x in v.ravel()}))
        return ('array', 'text' if v.dtype.kind in 'US' else str(v.dtype), v.ndim) + v.shape[1:]
    if isinstance(v, np.generic):
        return ('scalar', str(v.dtype))
    return type(v).__name__


def kinds(v, path='', out=None):
    """{place: set of kinds}; entries of lists share a place, and so do the element kinds of 2412."""
    out = {} if out is None else out
    if isinstance(v, dict):
        out.setdefault(path, set()).add('dict')
        for k, x in v.items():
            kinds(x, path + '/' + (k if isinstance(k, str) else '<%s>' % type(k).__name__), out)
    elif isinstance(v, (list, tuple)):
        out.setdefault(path, set()).add(type(v).__name__)
        for x in v:
            kinds(x, path + '[]', out)
    else:
        out.setdefault(path, set()).add(kind(v))
    return out


REF = {}


def key_of(t, m, fd=True):
    v = m.get('variant')
    if t.num == 58:
        v = v[:2] + (v[2] and not fd,) + v[3:]
    if t.num == 2414 and v[0] != 'freq':
        v = v[0], m['data_type'] if 'data_type' in m else None
    return t.num, v


def reference(ctx, t, m, fd):
    """The kinds of a set of three entries of the same layout."""
    key = key_of(t, m, fd)
    if key not in REF:
        v = m.get('variant')
        base = t.base(v, 3) if v is not None else t.base(n=3)
        path = ctx.file('ref.uff')
        lib.write(path, t.dset(base), 'overwrite', fd)
        REF[key] = kinds(lib.read(path))
    return REF[key]


def field_names(k):
    return {p for p in k if p.count('/') == 1 and '[]' not in p and '<' not in p}


def compare(ctx, t, m, fd, got, who='', fields=True):
    ref, now = reference(ctx, t, m, fd), kinds(got)
    if fields and t.num not in (2412, 2467):
        a, b = field_names(ref), field_names(now)
        ctx.check(a == b, '%sfields %s, otherwise %s', who, sorted(b - a), sorted(a - b))
    for p, ks in now.items():
        ctx.check(len(ks) == 1, '%s%s is %s in one set', who, p, sorted(map(str, ks)))
        if p in ref:
            ctx.check(ks == ref[p], '%s%s is %s, otherwise %s', who, p, ks, ref[p])
        elif t.num == 2412:
            # the first element kind of the base stands for the others
            q = p.replace('/triangle/', '/quad/')
            ctx.check(q not in ref or ks == ref[q], '%s%s is %s, otherwise %s', who, p, ks, ref.get(q))


def go(ctx, t, m, fd=True):
    path = ctx.file()
    lib.write(path, t.dset(m), 'overwrite', fd)
    compare(ctx, t, m, fd, lib.read(path))
    ctx.op(2)
    ctx.observe(lib.data_of(path))


def base_of(t, v, n):
    return t.base(v, n) if v is not None else t.base(n=n)


LAYOUTS = [H.Kind(('%d%s' % (num, v or ''), t, v)) for num, t in T.items() for v in sets.VARIANTS.get(num, [None])]


def counts(tier):
    ns = alpha.COUNTS + [32, 33, 64, 65, 100, 128, 129, 256, 257] if tier == 'quick' else list(range(1, 130)) + alpha.EDGES[-16:]

    def driver(ctx):
        label, t, v = ctx.choose('set', LAYOUTS)
        n = ctx.choose('entries', ns)
        m = base_of(t, v, n)
        fd = ctx.choose('force_double', [True, False]) if t.num == 58 else True
        go(ctx, t, m, fd)
        ctx.note('%s with %d entries' % (label, n))
    return Suite('counts', driver, rule='every layout x number of entries')


def headers(tier):
    def driver(ctx):
        label, t, v = ctx.choose('set', [k for k in LAYOUTS if k[1].header(base_of(k[1], k[2], 3))])
        m = rt.deviate_header(ctx, t, base_of(t, v, 2), tier != 'quick')
        go(ctx, t, m, not (t.num == 58 and v[2]))
        ctx.note(label)
    return Suite('header', driver, bound=1 if tier == 'quick' else 2, window=None if tier == 'quick' else 3, rule='every header field at every value')


def omitted(ctx):
    label, t, v = ctx.choose('set', LAYOUTS)
    m = base_of(t, v, ctx.choose('entries', [3, 1]))
    opts = optional(t, m)
    which = ctx.choose('omitted', ['all'] + list(opts))
    d = t.dset(m)
    for k in opts:
        if which in ('all', k):
            d.pop(k, None)
    if t.num in (2429, 2467):
        for g in d['groups']:
            for k in t.optional_group:
                del g[k]
    path = ctx.file()
    lib.write(path, d)
    compare(ctx, t, m, True, lib.read(path), 'without %s: ' % which)
    ctx.op(2)
    ctx.observe(lib.data_of(path))


def others(tier):
    """Files of another program."""
    def driver(ctx):
        label, t, v = ctx.choose('set', LAYOUTS)
        m = base_of(t, v, ctx.choose('entries', [1, 2, 3, 8] if tier == 'quick' else alpha.COUNTS))
        path = ctx.file()
        if t.num == 58 and v[3]:
            how = ctx.choose('style', [{}, {'order': '<'}, {'order': '>'}, {'eol': b'\r\n', 'letter': 'B'}])
            lib.put(path, t.block58b(m, **how))
        else:
            how = ctx.choose('style', FEW)
            lib.put(path, t.block(m, Enc(**how)).encode('utf-8'))
        # a field that only pyuff stores may be missing
        compare(ctx, t, m, False, lib.read(path), 'written by another program: ', fields=False)
        ctx.op()
        ctx.observe(lib.data_of(path))
        ctx.note('%s in style %s' % (label, how))
    return Suite('other programs', driver, rule='every layout x entries x styles')


def places(ctx):
    """Alone and among others, one by one, by list and all at once, header_only for other types."""
    label, t, v = ctx.choose('set', LAYOUTS)
    m = base_of(t, v, ctx.choose('entries', [1, 3]))
    sets_ = [H.models([(151, None, None)])[0], H.models([(58, (True, False, False, True), 1)])[0]]
    at = ctx.choose('place', [None, 0, 1, 2])
    ds = [k[1].dset(k[2]) for k in sets_]
    if at is None:
        ds, at = [], 0
    ds.insert(at, t.dset(m))
    path = ctx.file()
    u = lib.write(path, ds, 'overwrite', False)
    compare(ctx, t, m, False, u.read_sets(at), 'by index: ')
    compare(ctx, t, m, False, H.as_list(u.read_sets([at]))[0], 'by list: ')
    compare(ctx, t, m, False, H.as_list(u.read_sets([at, at]))[1], 'twice: ')
    compare(ctx, t, m, False, H.as_list(u.read_sets())[at], 'all: ')
    compare(ctx, t, m, False, lib.pyuff.UFF(path).read_sets(np.int64(at)), 'by numpy index: ')
    if t.num != 58:
        compare(ctx, t, m, False, u.read_sets(at, header_only=True), 'header_only: ')
    compare(ctx, t, m, False, u.read_sets(at), 'again: ')
    # written again from what was read
    v2 = lib.write(ctx.file('b.uff'), copy.deepcopy(u.read_sets()), 'overwrite', False)
    compare(ctx, t, m, False, H.as_list(v2.read_sets())[at], 'second generation: ')
    every = u.read_sets()
    ctx.check(isinstance(every, dict) if len(ds) == 1 else isinstance(every, list) and all(isinstance(x, dict) for x in every), 'read_sets returns %s for %d sets', type(every), len(ds))
    ctx.op(9)
    ctx.observe(lib.data_of(path), at)


def header_only(ctx):
    """Header-only reads of functions of every number of points, no points included."""
    t = T[58]
    v = ctx.choose('variant', sets.VARIANTS[58])
    n = ctx.choose('points', [1, 2, 3, 17, 1000])
    said = ctx.choose('said', ['as stored', 0, 1, 9999999999])
    m = t.base(v, n)
    raw = t.block58b(m) if v[3] else t.block(m, Enc()).encode('utf-8')
    rows = raw.split(b'\n', 9)
    if said != 'as stored':
        rows[8] = rows[8][:10] + b'%10d' % said + rows[8][20:]
    path = ctx.file()
    lib.put(path, b'\n'.join(rows))
    key = (58, 'header only')
    got = kinds(lib.pyuff.UFF(path).read_sets(0, header_only=True))
    if key not in REF:
        ref = ctx.file('h.uff')
        lib.write(ref, t.dset(t.base((False, True, True, False), 3)), 'overwrite')
        REF[key] = kinds(lib.pyuff.UFF(ref).read_sets(0, header_only=True))
    for p in sorted(field_names(got) & field_names(REF[key])):
        ctx.check(got[p] == REF[key][p], 'header only, %s points said: %s is %s, otherwise %s', said, p, got[p], REF[key][p])
    for p in ('/x', '/data'):
        ctx.check(got.get(p) == {'NoneType'}, 'header only, %s points said: %s is %s', said, p, got.get(p))
    ctx.op()
    ctx.observe(lib.data_of(path))


def info(ctx):
    """The kinds of what the queries return, whatever the number of sets."""
    n = ctx.choose('sets', [0, 1, 2, 3, 17])
    path = ctx.file()
    made = ctx.choose('file', ['absent', 'empty', 'text'] if n == 0 else ['written', 'list'])
    ks = H.models([(151, None, None), (58, (True, False, False, True), 1), (82, None, 9)])
    if made in ('empty', 'text'):
        lib.put(path, b'' if made == 'empty' else b'text\n')
    elif n:
        ds = [ks[i % 3][1].dset(ks[i % 3][2]) for i in range(n)]
        if made == 'list':
            lib.write(path, ds)
        else:
            for d in ds:
                lib.write(path, d, 'add')
    u = lib.pyuff.UFF(path)
    ctx.check(isinstance(u.get_n_sets(), (int, np.integer)) and not isinstance(u.get_n_sets(), bool), 'the number of sets is %r', u.get_n_sets())
    for f in (u.get_set_types, u.get_set_formats):
        v = f()
        ctx.check(isinstance(v, np.ndarray) and v.ndim == 1 and len(v) == n, '%s gives %r for %d sets', f.__name__, v, n)
    ctx.check(type(u.file_exists()) is bool and type(u.get_status()) is bool, 'file_exists %r, get_status %r', u.file_exists(), u.get_status())
    ctx.check(isinstance(u.get_supported_sets(), list) and all(isinstance(x, str) for x in u.get_supported_sets()), 'get_supported_sets %r', u.get_supported_sets())
    ctx.check(u.get_file_name() == path and isinstance(u.get_file_name(), str), 'get_file_name %r', u.get_file_name())
    ctx.op(6)
    ctx.observe(n, made)


def suites(tier):
    out = [counts(tier), headers(tier), Suite('omitted', omitted, rule='optional fields left out'), others(tier), Suite('places', places, rule='places and ways to ask'), Suite('info', info, rule='numbers of sets'),
           Suite('header only', header_only, rule='layouts of 58 x numbers of points stored and said')]
    return out + patterns.suites([3, 4, 5, 6, 7, 8], tier, go=go)
