"""C23: one damaged set among others."""
import re

from .. import history as H, lib, sets
from ..engine import Suite
from ..layout import Enc

BOUND = {'quick': 'every kind in the middle of a file: every line removed, doubled, emptied, swapped, replaced by 10 texts, cut at every column; every column of every line overwritten by 5 characters; samples of binary sets cut or '
                  'extended by every number of bytes; every byte of a binary header; lines in first and last place; every row of 2 or 3 sets out of 2 good and 14 damaged ones',
         'thorough': 'every place x every damage, 10 characters, pairs of damaged lines, every pair of overwritten columns of a line; rows of 4'}
ASSUMPTIONS = ['the damage does not spell a delimiter (a line starting with "    -1" and nothing but blanks after it, or a last line that ends with "    -1")',
               'a damaged byte count does not point exactly at the closing delimiter of another set']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
LINES = ['', ' ', 'x' * 80, '9' * 80, '-1', '       abc', '1e400 1e-400 nan inf', '         0' * 8, ' -1' * 20, '\u017e' * 40, '\t\t\t', '1', '\0' * 10]
CHARS = ['9', ' ', 'x', '-', '.', '0', '\u017e', '\t', 'E', '\0', '\f']
LOOKS = re.compile(rb'(?:\A|[\r\n])    -1 *(?:[\r\n]|\Z)|    -1\s*\Z|    -1 {74}')


def body(kind):
    """The content of a set between its delimiters as bytes, samples apart: (lines, samples or None)."""
    _, t, m = kind
    if t.num == 58 and m['variant'][3]:
        raw = t.block58b(m)
        head = raw.split(b'\n', 13)
        return head[1:13], samples(raw)
    text = t.block(m, Enc()).encode('utf-8').split(b'\n')
    return text[1:-2], None


def samples(raw):
    rest = raw.split(b'\n', 13)[13]
    n = int(raw.split(b'\n')[1][31:43])
    return rest[:n]


BODY = {k[0]: body(k) for k in KINDS}


def build(ctx, kind, lines, raw, place):
    """Puts the damaged content between two good sets."""
    content = b''.join(s + b'\n' for s in lines)
    if LOOKS.search(content) or (raw is not None and LOOKS.search(raw)):
        return None
    block = b'    -1\n' + content + (raw if raw is not None else b'') + b'    -1\n'
    others = [NAMED['82'], NAMED['58(False, True, False, True)']] if place != 'two ascii' else [NAMED['151'], NAMED['58(True, False, False, False)']]
    good, data = [], []
    for k, (_, t, m) in enumerate(others):
        m = H.mark(t, m, k)
        good.append((t, sets.expect(t, m, False)))
        data.append(t.block58b(m) if t.num == 58 and m['variant'][3] else t.block(m, Enc()).encode())
    at = {'first': 0, 'last': 2}.get(place, 1)
    data.insert(at, block)
    good.insert(at, None)
    path = ctx.file()
    lib.put(path, b''.join(data))
    return path, good, at


def judge(ctx, path, good, at, header_only=False):
    u = lib.pyuff.UFF(path)
    ctx.check(u.get_n_sets() == len(good), '%r sets are reported, the file has %d', u.get_n_sets(), len(good))
    types, formats = [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()]
    rest = H.Model([g for g in good if g])
    for k, g in enumerate(good):
        if g:
            ctx.check(types[k] == g[0].num, 'set %d is reported as %s', k, types[k])
            ctx.check(formats[k] == int(g[0].num == 58 and g[1]['variant'][3]), 'set %d is reported with format %s', k, formats[k])

    def neighbours(who):
        i = 0
        for k, g in enumerate(good):
            if g:
                rest.check_one(ctx, i, H.as_list(u.read_sets(k))[0], who + 'set %d of the file: ' % k)
                i += 1
                ctx.op()
    neighbours('')
    try:
        got = u.read_sets(at, header_only=header_only)
        ctx.check(isinstance(got, (dict, list)), 'the damaged set is read as %r', got)
    except Exception:
        got = None
    ctx.check(u.get_n_sets() == len(good) and [int(x) for x in u.get_set_types()] == types and [int(x) for x in u.get_set_formats()] == formats,
              'after reading the damaged set there are %r sets %s', u.get_n_sets(), list(u.get_set_types()))
    for first in (u.get_set_types, u.get_set_formats, u.get_n_sets):
        # what is asked first after the damaged set
        try:
            u.read_sets(at)
        except Exception:
            pass
        one = first()
        ctx.check((one == len(good)) if first == u.get_n_sets else [int(x) for x in one] == (types if first == u.get_set_types else formats), 'after the damaged set %s gives %r', first.__name__, one)
    neighbours('after the damaged set: ')
    try:
        every = H.as_list(u.read_sets())
    except Exception:
        every = None
    if every is not None:
        ctx.check(len(every) == len(good), 'read_sets returned %d sets of %d', len(every), len(good))
        every.pop(at)
        for i, g in enumerate(every):
            rest.check_one(ctx, i, g, 'all sets: ')
    listed = H.as_list(u.read_sets([k for k, g in enumerate(good) if g]))
    for i, g in enumerate(listed):
        rest.check_one(ctx, i, g, 'by list: ')
    ctx.op(4)
    ctx.observe(lib.data_of(path), got is None)


def lines_suite(tier):
    deep = tier != 'quick'

    def driver(ctx):
        kind = ctx.choose('kind', KINDS)
        lines, raw = BODY[kind[0]]
        lines = list(lines)
        place = ctx.choose('place', ['middle', 'first', 'last'])
        for _ in range(2 if deep else 1):
            n = len(lines)
            i = ctx.choose('line', list(range(n)) if n else [None])
            if i is None:
                break
            what = ctx.choose('damage', ['removed', 'doubled', 'swapped', 'joined', 'split'] + LINES[:None if deep else 10] + (['no more'] if _ else []))
            if what == 'removed':
                del lines[i]
            elif what == 'doubled':
                lines.insert(i, lines[i])
            elif what == 'swapped':
                if i + 1 >= n:
                    return
                lines[i:i + 2] = lines[i + 1], lines[i]
            elif what == 'joined':
                if i + 1 >= n:
                    return
                lines[i:i + 2] = [lines[i] + lines[i + 1]]
            elif what == 'split':
                lines[i:i + 1] = [lines[i][:len(lines[i]) // 2], lines[i][len(lines[i]) // 2:]]
            elif what != 'no more':
                lines[i] = what.encode('utf-8')
        b = build(ctx, kind, lines, raw, place)
        if b is None:
            return
        judge(ctx, *b, header_only=False)
        ctx.note('%s in place %s: line %s %s' % (kind[0], place, i, what))
    return Suite('lines', driver, rule='every line of every kind damaged')


def cut_suite(tier):
    def driver(ctx):
        kind = ctx.choose('kind', KINDS)
        lines, raw = BODY[kind[0]]
        lines = list(lines)
        place = ctx.choose('place', ['middle'] if tier == 'quick' else ['middle', 'first', 'last', 'two ascii'])
        how = ctx.choose('how', ['line', 'rest'])
        i = ctx.choose('line', list(range(len(lines))) or [None])
        if i is None:
            return
        col = ctx.choose('column', list(range(len(lines[i]) or 1)))
        lines[i] = lines[i][:col]
        if how == 'rest':
            lines, raw = lines[:i + 1], b'' if raw is not None else None
        b = build(ctx, kind, lines, raw, place)
        if b is not None:
            judge(ctx, *b, header_only=bool(col % 2))
    return Suite('cut', driver, rule='every line, or the rest of the set, cut at every column')


def stripped(ctx):
    """A set that lost a run of its lines, or all of them; several of such sets."""
    kind = ctx.choose('kind', KINDS)
    lines, raw = BODY[kind[0]]
    n = len(lines)
    i = ctx.choose('from', list(range(n)) or [0])
    j = ctx.choose('to', list(range(i + 1, n + 1)) or [0])
    lines = lines[:i] + lines[j:]
    if raw is not None and ctx.choose('samples', ['kept', 'gone']) == 'gone':
        raw = b''
    b = build(ctx, kind, lines, raw, ctx.choose('place', ['middle', 'first', 'last', 'two ascii']))
    if b is not None:
        judge(ctx, *b)
        ctx.note('%s without lines %d to %d' % (kind[0], i, j))


def columns_suite(tier):
    deep = tier != 'quick'

    def driver(ctx):
        kind = ctx.choose('kind', KINDS)
        lines, raw = BODY[kind[0]]
        lines = list(lines)
        place = ctx.choose('place', ['middle'] if not deep else ['middle', 'last', 'two ascii'])
        i = ctx.choose('line', list(range(len(lines))) or [None])
        if i is None or not lines[i]:
            return
        text = lines[i].decode('utf-8')
        col = ctx.choose('column', list(range(len(text))))
        c = ctx.choose('character', CHARS if deep else CHARS[:4 if raw is None else 5])
        if text[col] == c:
            return
        lines[i] = (text[:col] + c + text[col + 1:]).encode('utf-8')
        b = build(ctx, kind, lines, raw, place)
        if b is not None:
            judge(ctx, *b)
    return Suite('columns', driver, rule='every column of every line overwritten')


def samples_suite(ctx):
    """Binary samples of the wrong length, and n_bytes of any value."""
    kind = ctx.choose('kind', [k for k in KINDS if BODY[k[0]][1] is not None])
    lines, raw = BODY[kind[0]]
    lines = list(lines)
    what = ctx.choose('damage', ['cut', 'longer', 'n_bytes', 'n_bytes text', 'points', 'bytes'])
    place = ctx.choose('place', ['middle', 'first', 'last', 'two ascii'])
    if what == 'cut':
        raw = raw[:ctx.choose('bytes left', list(range(len(raw))))]
    elif what == 'longer':
        raw += ctx.choose('with', [b'\n', b'\r\n', b'\0', b'x', b' ', b'-1']) * ctx.choose('times', [1, 2, 3, 7, 8, 9, 100])
    elif what == 'n_bytes':
        lines[0] = lines[0][:31] + b'%12d' % ctx.choose('n_bytes', list(range(0, 2 * len(raw) + 90)) + [10 ** 6, 10 ** 11, -1, -8]) + lines[0][43:]
    elif what == 'n_bytes text':
        lines[0] = lines[0][:31] + ctx.choose('n_bytes', [b'            ', b'           x', b'1e3', b'        24.0', b'\0' * 12, b'24          ']) + lines[0][43:]
    elif what == 'points':
        lines[7] = lines[7][:10] + b'%10d' % ctx.choose('points', [0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 10 ** 6, 10 ** 9, -1, -5]) + lines[7][20:]
    else:
        i = ctx.choose('byte', list(range(len(raw))))
        raw = raw[:i] + ctx.choose('value', [b'\n', b'\r', b' ', b'\xff']) + raw[i + 1:]
    b = build(ctx, kind, lines, raw, place)
    if b is not None:
        judge(ctx, *b, header_only=ctx.choose('header_only', [False, True]))


def row(name, lines, raw=None):
    return name, b'    -1\n' + b''.join(s + b'\n' for s in lines) + (raw or b'') + b'    -1\n'


def wrecks():
    """Sets damaged in one way or another, delimiters in place."""
    l15, _ = BODY['15']
    l58, raw = BODY['58(False, True, False, True)']
    a58, _ = BODY['58(False, True, False, False)']
    return [row('nothing', []), row('only a number', l15[:1]), row('a number of text', [b'   xx '] + l15[1:]), row('no number', l15[1:]), row('an empty first line', [b''] + l15),
            row('a binary number line', [b'\xff\xfe\x80'] + l15[1:]), row('unknown type', [b'  9999'] + l15[1:]), row('text for numbers', l15[:1] + [b'x' * 70]),
            row('58b without samples', l58, b''), row('58b with a huge count', [l58[0][:31] + b'%12d' % 10 ** 11 + l58[0][43:]] + l58[1:], raw),
            row('58b without header', l58[:1], raw), row('58b with text for its count', [l58[0][:31] + b'         abc' + l58[0][43:]] + l58[1:], raw), row('58 cut', a58[:9]), row('2467 of nothing', [b'  2467', b''])]


WRECKS = wrecks()


def several(tier):
    goods = ['82', '58(False, True, False, True)', '151']

    def driver(ctx):
        n = ctx.choose('sets', [2, 3] if tier == 'quick' else [2, 3, 4])
        few = tier != 'quick' and n > 3
        menu = goods[:2] + [w[0] for w in WRECKS] if not few else goods[:2] + [w[0] for w in WRECKS[:10:2]]
        word = [ctx.choose('set %d' % k, menu) for k in range(n)]
        if not any(w in goods for w in word):
            word.append(goods[0])
        for a, b in zip(word, word[1:]):
            # where a binary set ends whose samples should reach beyond the file is told by the number of the next set
            if a.startswith('58b ') and b in ('nothing', 'a number of text', 'no number', 'an empty first line', 'a binary number line'):
                return
        by = dict(WRECKS)
        data, good = b'', []
        for k, w in enumerate(word):
            if w in by:
                data += by[w]
                good.append(None)
            else:
                _, t, m = NAMED[w]
                m = H.mark(t, m, k)
                data += t.block58b(m) if t.num == 58 and m['variant'][3] else t.block(m, Enc()).encode()
                good.append((t, sets.expect(t, m, False)))
        path = ctx.file()
        lib.put(path, data)
        u = lib.pyuff.UFF(path)
        ctx.check(u.get_n_sets() == len(good), '%r sets are reported, the file has %d', u.get_n_sets(), len(good))
        types, formats = [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()]
        ctx.check(len(types) == len(formats) == len(good), '%d types and %d formats', len(types), len(formats))
        model = H.Model([g for g in good if g])

        def check(who):
            i = 0
            for k, g in enumerate(good):
                if g:
                    ctx.check(types[k] == g[0].num and formats[k] == int(g[0].num == 58 and g[1]['variant'][3]), 'set %d is reported as %s, format %s', k, types[k], formats[k])
                    model.check_one(ctx, i, H.as_list(u.read_sets(k))[0], who + 'set %d: ' % k)
                    i += 1
        check('')
        for k, g in enumerate(good):
            if g is None:
                try:
                    u.read_sets(k)
                except Exception:
                    pass
        check('after the damaged ones: ')
        i = [k for k, g in enumerate(good) if g]
        for j, g in enumerate(H.as_list(u.read_sets(i))):
            model.check_one(ctx, j, g, 'by list: ')
        # an append leaves them as they are
        lib.write(path, NAMED['15'][1].dset(NAMED['15'][2]), 'add')
        v = lib.pyuff.UFF(path)
        ctx.check(v.get_n_sets() == len(good) + 1 and [int(x) for x in v.get_set_types()] == types + [15], 'after an append the types are %s', v.get_set_types())
        ctx.op(6)
        ctx.observe(data)
        ctx.note('%s' % word)
    return [Suite('several', driver, rule='every row of good sets and sets damaged in %d ways' % len(WRECKS))]


def suites(tier):
    return several(tier) + [lines_suite(tier), Suite('stripped', stripped, rule='every run of lines of every kind removed'), cut_suite(tier), columns_suite(tier), Suite('samples', samples_suite, rule='binary samples of wrong length, wrong byte counts')]
