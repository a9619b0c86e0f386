"""C30: any file can be opened and asked."""
import os

from .. import history as H, lib, sets
from ..engine import Suite
from ..layout import Enc

BOUND = {'quick': 'every sequence of up to 3 lines out of 26 (delimiters, near delimiters, set numbers, binary headers, text, nothing, odd bytes) in 6 ways to end lines, of 4 lines with LF, and of up to 5 out of 8 in 3 ways; '
                  'every string of up to 4 of 6 bytes after three openings and of up to 7 of 4 parts of delimiters; binary sets with every number of header lines x 13 byte counts x samples x what follows; '
                  'every byte of a file of four sets replaced by 8 others, removed or doubled; pieces of that file',
         'thorough': 'sequences of up to 4 out of 26 lines in every way and 6 out of 8, strings of one more, pairs of bytes replaced, every piece of the file'}
ASSUMPTIONS = ['the file can be opened (it is a regular file that the user may read)']

T = sets.TYPES
HEAD58B = '   58b     1     2          11%12d     0     0           0           0'
BODY58 = [x.decode('utf-8') for x in T[58].block58b(T[58].base((False, True, False, True), 3)).split(b'\n')[2:13]]
SAMPLES = T[58].block58b(T[58].base((False, True, False, True), 3)).split(b'\n', 13)[13][:24].decode('latin-1')
CARD = '    -1'
LINES = [CARD, '', '    15', '   151', '    58', HEAD58B % 24, 'text', CARD + ' ' * 74,
         CARD + ' x', '   -1', '-1', '     -1', '  1234', ' 12345', '123456', '  abc ', '   58b', HEAD58B % 10 ** 10, '         1         2', ' ' * 80, '\u017e\u20ac' * 3, '\0' * 8, '  2412', 'name' + CARD, '\ufeff' + CARD, '    58B']
FEW = [CARD, '', '   151', HEAD58B % 24, 'text', 'name' + CARD, CARD + '  ', '    58']
ENDS = ['\n', '\r\n', '\r', 'no last', 'no last cr', 'mixed']
OPEN = [b'    -1\n', b'    -1\n    15\n', b'    -1\n   58b\n', b'']
BYTES = [b' ', b'-', b'1', b'\n', b'\r', b'b']


def judge(ctx, data, note=True):
    path = ctx.file()
    lib.put(path, data)
    u = lib.pyuff.UFF(path)
    n = u.get_n_sets()
    types, formats = u.get_set_types(), u.get_set_formats()
    ctx.check(n == len(types) == len(formats) and n >= 0, '%r sets, %d types, %d formats', n, len(types), len(formats))
    types, formats = [int(x) for x in types], [int(x) for x in formats]
    ctx.check(all(x in (0, 1) for x in formats), 'formats %s', formats)
    ctx.check(u.get_status() is True and u.file_exists() is True, 'status %r of a file that exists', u.get_status())
    got = []
    for k in range(n):
        try:
            d = u.read_sets(k)
        except Exception:
            got.append(None)
            continue
        ctx.check(isinstance(d, dict), 'set %d is read as %r', k, d)
        if 'type' in d:
            ctx.check(int(d['type']) == types[k], 'set %d is reported as %s and read as %s', k, types[k], d['type'])
        got.append(d)
    for k in (n, n + 1, -1):
        ctx.check(lib.refused(u.read_sets, k), 'set %d of %d is read', k, n)
    try:
        every = u.read_sets()
    except Exception:
        ctx.check(any(g is None for g in got), 'every set is read by its index, but not all at once')
    else:
        every = [every] if isinstance(every, dict) else every
        ctx.check(len(every) == n and not any(g is None for g in got), 'all at once: %d sets of %d, by index %s', len(every), n, [g is not None for g in got])
        for k, g in enumerate(every):
            ctx.check(H.same(g, got[k]), 'set %d is read differently with all others: %r, alone %r', k, g, got[k])
    # again, and by another object
    v = lib.pyuff.UFF(path)
    ctx.check(u.refresh() is True, 'the file cannot be refreshed')
    for w, who in ((u, 'after refresh'), (v, 'a new object')):
        ctx.check(w.get_n_sets() == n and [int(x) for x in w.get_set_types()] == types and [int(x) for x in w.get_set_formats()] == formats, '%s: %r sets %s', who, w.get_n_sets(), w.get_set_types())
    for k, g in enumerate(got):
        try:
            d = v.read_sets(k)
        except Exception:
            d = None
        ctx.check(H.same(d, g), 'set %d is read differently the second time', k)
    ctx.check(lib.data_of(path) == data, 'the file was changed')
    ctx.op(6 + 2 * n)
    ctx.observe(types, formats, [g is None for g in got])


def lines(name, menu, depth, ends, least=0):
    def driver(ctx):
        n = ctx.choose('lines', list(range(least, depth + 1)))
        text = [ctx.choose('line', menu) for _ in range(n)]
        end = ctx.choose('end', ends if n else ends[:1])
        data = b''
        for i, s in enumerate(text):
            last = i == n - 1
            if end == 'mixed':
                e = ('\r\n', '\n', '\r')[i % 3]
            elif end == 'no last':
                e = '' if last else '\n'
            elif end == 'no last cr':
                e = '\r' if last else '\r\n'
            else:
                e = end
            data += s.encode('utf-8') + e.encode()
        judge(ctx, data)
        ctx.note('%r' % data[:100])
    return Suite(name, driver, rule='every sequence of up to %d of %d lines' % (depth, len(menu)))


def headers(ctx):
    """A binary set with every number of header lines and pieces of samples, and what may follow."""
    n_bytes = ctx.choose('n_bytes', ['%12d' % 24, '%12d' % 0, '%12d' % 8, '%12d' % 23, '%12d' % 25, '%12d' % 10 ** 11, '%12d' % -1, ' ' * 12, '           x', '        24.0', '999999999999', '\u0663' * 6, '\u00b2' * 6])
    head = '   58b     1     2          11%s     0     0           0           0' % n_bytes
    rows = [head] + BODY58[:ctx.choose('header lines', list(range(12)))]
    data = b''.join(b + b'\n' for b in [b'    -1'] + [r.encode('utf-8') for r in rows])
    data += SAMPLES.encode('latin-1')[:ctx.choose('bytes', [24, 0, 1, 8, 23])]
    data += ctx.choose('then', [b'', b'\n', b'    -1', b'\n    -1\n', b'    -1\n', b'    -1   \r\n', b'\r\n    -1', b'\n    -1\n    -1\n   151\nx\n    -1\n', b'    -1\n    -1\n'])
    judge(ctx, data)
    ctx.note('%r' % data[:100])


def strings(tier):
    more = tier != 'quick'

    def after(ctx):
        head = ctx.choose('after', OPEN[:3])
        n = ctx.choose('bytes', list(range(5 + more)))
        judge(ctx, head + b''.join(ctx.choose('byte', BYTES) for _ in range(n)) + ctx.choose('then', [b'', b'    -1', b'\n    -1\n']))

    def alone(ctx):
        n = ctx.choose('bytes', list(range(8 + more)))
        judge(ctx, b''.join(ctx.choose('byte', [b'    ', b'-1', b'\n', b'15']) for _ in range(n)))
    return [Suite('strings after an opening', after, rule='every string of bytes'), Suite('strings', alone, rule='every string of parts of delimiters')]


def sample_file():
    out = b''
    for num, v, n in ((151, None, None), (58, (False, True, False, True), 2), (15, None, 1), (2412, None, None)):
        t = T[num]
        m = t.base(v, n) if v is not None else t.base(n=n) if n else t.base()
        out += t.block58b(m) if num == 58 else t.block(m, Enc()).encode('utf-8')
    return out


FILE = sample_file()


def bytes_suite(tier):
    other = [b'', b' ', b'\n', b'\r', b'-', b'1', b'\0', b'\xff', b'9', None]

    def driver(ctx):
        i = ctx.choose('byte', list(range(len(FILE))))
        x = ctx.choose('becomes', other)
        x = FILE[i:i + 1] * 2 if x is None else x
        if x == FILE[i:i + 1]:
            return
        data = FILE[:i] + x + FILE[i + 1:]
        if tier != 'quick':
            j = ctx.choose('and', [None] + list(range(i + 1, min(i + 12, len(FILE)))))
            if j is not None:
                y = ctx.choose('becomes', other[:4])
                data = FILE[:i] + x + FILE[i + 1:j] + y + FILE[j + 1:]
        judge(ctx, data)
        ctx.note('byte %d replaced by %r' % (i, x))

    def pieces(ctx):
        step = 7 if tier == 'quick' else 1
        i = ctx.choose('from', list(range(0, len(FILE), step)))
        j = ctx.choose('to', list(range(i, len(FILE) + 1, step)))
        judge(ctx, FILE[i:j])
        ctx.note('bytes %d to %d' % (i, j))
    return [Suite('bytes', driver, rule='every byte of a file replaced'), Suite('pieces', pieces, rule='every piece of a file between multiples of %d bytes' % (7 if tier == 'quick' else 1))]


def suites(tier):
    q = tier == 'quick'
    return [lines('lines', LINES, 3 if q else 4, ENDS), lines('four lines', LINES, 4, ['\n'], 4), lines('lines of few', FEW, 5 if q else 6, ['\n', '\r\n', 'no last']), Suite('headers', headers, rule='parts of binary sets x byte counts')] + strings(tier) + bytes_suite(tier)
