"""C11: files of an independent encoder of the published layout, read by pyuff."""
import itertools

from .. import alpha, patterns, history as H, lib, roundtrip as rt, sets
from ..engine import Suite
from ..layout import Enc
from .c04 import orders
from .families import ELEMENTS, T, VALUES_6, VALUES_12, XS

BOUND = {'quick': 'every set kind in 99 styles of the layout, three of them with plus signs; every header field at its deep alphabet in 4 styles; every count up to 25 and edges; every optional field blank',
         'thorough': 'header pairs; counts up to 129 and edges up to 1025; files of two sets in every pair of styles'}
ASSUMPTIONS = ['text fields do not start with a blank']

# an exponent in E or D form, either case, Fortran 1P or 0P, padded or trimmed lines, line ends
STYLES = []
for letter, style, (pad, trim), eol, plain in itertools.product('Ee', ('1P', '0P'), ((False, False), (True, False), (False, True)), ('\n', '\r\n'), (False, True)):
    for dletter in 'DdEe':
        STYLES.append(dict(letter=letter, dletter=dletter, style=style, pad=pad, trim=trim, eol=eol, plain=plain))
LOOSE = {'E5': 5.1e-5, 'E11': 5.1e-12, 'E7': 5.1e-7, 'D16': 5.1e-16}
FEW = [dict(full=True), dict(pad=True, eol='\r\n'), dict(trim=True, letter='e', dletter='e'), dict(plain=True, dletter='d', eol='\r\n', trim=True)]


AXES = [0.0, 1.0, -1.0, 0.25, -0.25, 1e-20, -1e-20, 1e30, 1e-3, 123456.0, 1e-98, 9.99999e98]


class Style(dict):
    def __repr__(self):
        return '{%s}' % ', '.join('%s=%r' % kv for kv in self.items())


# Fortran's SP
PLUS = [Style(plus=True), Style(plus=True, full=True, eol='\r\n'), Style(plus=True, trim=True, style='0P', letter='e')]
STYLES = [Style(s) for s in STYLES]
FEW = [Style(s) for s in FEW]


def read_block(ctx, t, m, raw, style, n_before=0):
    path = ctx.file()
    lib.put(path, raw)
    u = lib.pyuff.UFF(path)
    ctx.op(2)
    ctx.check(u.get_n_sets() == 1 and int(u.get_set_types()[0]) == t.num, '%r sets of types %s are found', u.get_n_sets(), list(u.get_set_types()))
    check(ctx, t, m, u.read_sets(0), style)
    ctx.observe(raw)


def check(ctx, t, m, got, style):
    want = t.expect(m, False) if t.num == 58 else m
    loose = style.get('style') == '0P'
    if loose and t.num == 58:
        r = sets.diff(t.fields(want), want, t.view(got), LOOSE) or t.check_x(want, got, 5.1e-5)
    elif loose:
        r = t.diff(want, t.view(got)) if hasattr(t, 'diff') else sets.diff(t.fields(want), want, t.view(got), LOOSE)
    else:
        r = sets.compare(t, want, got)
    ctx.check(r is None, 'layout %s: %s', style, r)


MENU = [H.Kind((label, t, m)) for n in (1, 3) for label, t, m in sets.menu(n) if not (t.num == 58 and m['variant'][3])]


def styles(tier):
    def driver(ctx):
        label, t, m = ctx.choose('set', MENU)
        style = ctx.choose('style', STYLES + PLUS)
        if style.get('dletter', 'D') != 'D' and t.num not in (164, 2420):
            return
        read_block(ctx, t, m, t.block(m, Enc(**style)).encode('utf-8'), style)
        ctx.note('%s in %s' % (label, style))
    return [Suite('styles', driver, rule='every set kind in every style of the layout')]


def headers(tier):
    deep = tier != 'quick'
    ALL = [k[0] for k in H.models(H.ALL)]
    one = [k for k in H.models(H.EVERY) if k[1].header(k[2]) and not (k[1].num == 58 and k[2]['variant'][3])]

    def driver(ctx):
        label, t, m = ctx.choose('set', one)
        style = ctx.choose('style', FEW if label in ALL or deep else FEW[2:3])
        m = rt.deviate_header(ctx, t, dict(m), True)
        read_block(ctx, t, m, t.block(m, Enc(**style)).encode('utf-8'), style)
        ctx.note('%s in %s' % (label, style))

    def pairs(ctx):
        label, t, m = ctx.choose('set', [k for k in one if k[0] in ALL])
        style = ctx.choose('style', FEW[1:3] if deep else FEW[2:3])
        m = rt.deviate_header(ctx, t, dict(m), False)
        read_block(ctx, t, m, t.block(m, Enc(**style)).encode('utf-8'), style)
    return [Suite('header1', driver, bound=1, rule='every header field at every value, fields that touch included, in four styles'),
            Suite('header2', pairs, bound=2, window=3 if deep else 1, rule='pairs of neighbouring header fields')]


def shapes(tier):
    deep = tier != 'quick'
    ns = list(range(1, 130)) + alpha.EDGES[-12:] if deep else alpha.COUNTS + [32, 33, 40, 41, 64, 65, 100, 257]

    def f58(ctx):
        v = ctx.choose('variant', [v for v in sets.VARIANTS[58] if not v[3]])
        n = ctx.choose('points', ns)
        style = ctx.choose('style', FEW)
        shift = ctx.choose('shift', [0, 3, 8])
        pool = VALUES_6 if v[2] else VALUES_12
        m = T[58].fill(T[58].base(v, n), n, pool[shift:] + pool[:shift], x0=-1.5, dx=0.0625, xs=XS)
        read_block(ctx, T[58], m, T[58].block(m, Enc(**style)).encode('utf-8'), style)
        ctx.note('58 %s, %d points in %s' % (v, n, style))

    def f55(ctx):
        v = ctx.choose('variant', sets.VARIANTS[55])
        n = ctx.choose('nodes', ns if deep else [1, 2, 3, 4, 5, 8, 9, 16, 17, 64])
        style = ctx.choose('style', FEW)
        m = T[55].fill(T[55].base(v, n), n, VALUES_6, [1, 305, 2147483647, -5, 9876543210])
        read_block(ctx, T[55], m, T[55].block(m, Enc(**style)).encode('utf-8'), style)

    def f2414(ctx):
        v = ctx.choose('variant', sets.VARIANTS[2414])
        n = ctx.choose('entities', ns if deep else [1, 2, 3, 4, 5, 8, 9, 33])
        per = ctx.choose('values', {1: [1, 3, 6, 7, 13], 2: [1, 6, 7, 13], 3: [[(1, 4, 6)], [(2, 4, 6)], [(1, 3, 1), (2, 4, 5)]]}.get(v[0], [None]))
        style = ctx.choose('style', FEW)
        m = T[2414].fill(T[2414].base(v, n), n, alpha.REALS_FIXED, [1, 305, 2147483647, -999999999, 9876543210], per=per)
        read_block(ctx, T[2414], m, T[2414].block(m, Enc(**style)).encode('utf-8'), style)

    def rows(ctx):
        num = ctx.choose('set', [15, 18, 2411, 2420, 82, 2412, 2429, 2467])
        n = ctx.choose('entries', ns)
        style = ctx.choose('style', FEW)
        t = T[num]
        if num == 82:
            m = t.fill(t.base(n=n), n, [1, 25, 3, 0, 417, 417, 6002, 2147483647, 0, -999999999, 1234567890, 0, 9876543210, 5], n)
        elif num == 2412:
            m = {'elements': t.grouped({'elements': [t.element(k, *ELEMENTS[(k * 3 + n) % len(ELEMENTS)]) for k in range(n)]})}
        elif num in (2429, 2467):
            m = {'groups': [t.group(0, n), t.group(1, n % 5), t.group(2, 0)]}
        else:
            m = t.base(n=n)
        read_block(ctx, t, m, t.block(m, Enc(**style)).encode('utf-8'), style)
        ctx.note('%d with %d entries in %s' % (num, n, style))

    def axes(ctx):
        v = ctx.choose('variant', [v for v in sets.VARIANTS[58] if v[1]])
        n = ctx.choose('points', [1, 2, 3, 5, 33])
        axis = ctx.choose('axis', [(a, b) for a in AXES for b in AXES])
        m = T[58].fill(T[58].base(v, n), n, [1.5, -2.5], x0=axis[0], dx=axis[1])
        m['axis'] = axis
        if v[3]:
            lib.put(ctx.file(), T[58].block58b(m, ctx.choose('order', ['<', '>'])))
            ctx.op(2)
            check(ctx, T[58], m, lib.read(ctx.file(), 0), {})
        else:
            style = ctx.choose('style', FEW[:2])
            read_block(ctx, T[58], m, T[58].block(m, Enc(**style)).encode('utf-8'), style)
        ctx.note('58 %s, %d points from %r by %r' % ((v, n) + axis))

    def touching(ctx):
        """Every pattern of reals that fill their columns (a sign and three digits of exponent)."""
        v = ctx.choose('variant', [v for v in sets.VARIANTS[58] if not v[3]])
        n = ctx.choose('points', [1, 2, 3] if not deep else [1, 2, 3, 4, 5])
        style = ctx.choose('style', FEW + [Style(full=True, pad=True, eol='\r\n'), Style()])
        width = 2 if v[0] else 1
        narrow, filling = (2.5, -3.5) if v[2] else (2.5e-7, -1.25e-101)
        cells = [[narrow] * width for _ in range(n)]
        m = T[58].base(v, n)
        T[58].fill(m, n, [1.0], x0=-1.5, dx=0.0625, xs=XS)
        for k in range(n):
            if not v[1]:
                m['x'][k] = ctx.choose('x', [0.25 + k, -1.25e-101])
            if n > 3 and not v[1] and k > 1:
                cells[k] = [filling] * width
                continue
            for j in range(width):
                cells[k][j] = ctx.choose('sample', [narrow, filling])
        m['data'] = [complex(*c) if v[0] else c[0] for c in cells]
        read_block(ctx, T[58], m, T[58].block(m, Enc(**style)).encode('utf-8'), style)
        ctx.note('58 %s, %d points in %s' % (v, n, style))
    return [Suite('58-axes', axes, rule='every pair of first abscissa and increment'), Suite('58-touching', touching, rule='every pattern of samples and abscissae that fill their columns or not, x data case x style'),
            Suite('58-shapes', f58, rule='every count x data case x style'), Suite('55-shapes', f55, rule='counts x analysis types x style'),
            Suite('2414-shapes', f2414, rule='counts x locations x style'), Suite('rows', rows, rule='every number of entries x style')]


def elements2412(tier):
    def driver(ctx):
        fe, n = ctx.choose('element', ELEMENTS + [(21, 3), (11, 3), (44, 9), (111, 8), (116, 17)])
        after = ctx.choose('then', ELEMENTS[:6])
        style = ctx.choose('style', FEW)
        t = T[2412]
        m = {'elements': t.grouped({'elements': [t.element(0, fe, n), t.element(1, *after), t.element(2, fe, n)]})}
        read_block(ctx, t, m, t.block(m, Enc(**style)).encode('utf-8'), style)
    return [Suite('2412-elements', driver, rule='pairs of element kinds x style')]


# fields a program may leave blank: the ones behind the first of a record that has no more it needs
OPTIONAL = {58: ['func_id', 'ver_num', 'load_case_id', 'rsp_ent_name', 'rsp_node', 'rsp_dir', 'ref_ent_name', 'ref_node', 'ref_dir'] + [p + s for p in ('abscissa', 'ordinate', 'orddenom', 'z_axis') for s in ('_axis_lab', '_axis_units_lab')],
            151: ['version_db1', 'version_db2', 'file_type', 'time_db_saved', 'time_file_written', 'model_name', 'description', 'db_app', 'program'],
            164: ['units_description', 'temp_mode'],
            2414: ['record%d_field%d' % (r, k) for r, n in ((10, 8), (11, 8), (12, 6), (13, 6)) for k in range(2, n + 1)] + ['analysis_dataset_name'] + ['id%d' % k for k in range(1, 6)],
            55: ['id%d' % k for k in range(1, 6)]}
ABSENT = {'I': 0, 'A': ''}


def blanks(tier):
    """Fields left blank are zeros and empty texts, whatever else the record holds."""
    deep = tier != 'quick'
    cases = [k for k in H.models(H.EVERY) if k[1].num in OPTIONAL and not (k[1].num == 2414 and k[2]['variant'][0] == 'freq')]

    def driver(ctx):
        label, t, m = ctx.choose('set', cases)
        style = ctx.choose('style', FEW if deep else FEW[1:3])
        keys = [k for k in OPTIONAL[t.num] if k in t.fields(m)]
        how = ctx.choose('blank', ['some', 'all', 'from', 'up to', 'all but'])
        if how == 'some':
            out = [k for k in keys if ctx.dev(k, [False, True])]
        elif how == 'all':
            out = keys
        else:
            i = ctx.choose('which', list(range(len(keys))))
            out = {'from': keys[i:], 'up to': keys[:i], 'all but': keys[:i] + keys[i + 1:]}[how]
        m = dict(m)
        for f in t.header(m):
            if f[0] in out:
                m[f[0]] = ABSENT.get(f[1], 0.0)
        e = Enc(blank=out, **style)
        if t.num == 58 and m['variant'][3]:
            lib.put(ctx.file(), t.block58b(m, e=e))
            ctx.op(2)
            check(ctx, t, m, lib.read(ctx.file(), 0), style)
        else:
            read_block(ctx, t, m, t.block(m, e).encode('utf-8'), style)
        ctx.observe(label, how, out)
        ctx.note('%s with %s blank' % (label, out))
    return [Suite('blanks', driver, bound=2 if deep else 1, rule='fields that may be blank: every one, every run from either end, all but one, all')]


def two(tier):
    """Two sets in a file: what one is read as does not depend on the other."""
    kinds = MENU if tier != 'quick' else MENU[::4]
    st = FEW if tier != 'quick' else FEW[1:3]

    def driver(ctx):
        a, b = ctx.choose('first', kinds), ctx.choose('second', kinds)
        sa, sb = ctx.choose('style 1', st), ctx.choose('style 2', st)
        raw = a[1].block(a[2], Enc(**sa)) + b[1].block(b[2], Enc(**sb))
        lib.put(ctx.file(), raw.encode('utf-8'))
        got = lib.read(ctx.file())
        ctx.op(2)
        ctx.check(isinstance(got, list) and len(got) == 2, 'read_sets returned %s', type(got))
        check(ctx, a[1], a[2], got[0], sa)
        check(ctx, b[1], b[2], got[1], sb)
        ctx.observe(raw)
    return [Suite('two', driver, rule='pairs of kinds in pairs of styles')]


def columns(tier):
    """The columns of sets at patterns of values, names left blank included."""
    def go(ctx, t, m):
        style = ctx.choose('style', FEW if tier != 'quick' else FEW[2:] if t.num in (15, 18, 2411, 2420, 2412, 2429, 2467) else FEW[2:3])
        read_block(ctx, t, m, t.block(m, Enc(**style)).encode('utf-8'), style)
    return patterns.suites([3, 5, 6, 7, 8], tier, go=go) + patterns.headers([55, 58, 82, 151, 164, 1858, 2400, 2414, 2420], tier, go=go, bound=1)


def suites(tier):
    return styles(tier) + headers(tier) + shapes(tier) + elements2412(tier) + blanks(tier) + two(tier) + orders(tier) + columns(tier)
