"""C02: finding the sets of a file, for every file of a grammar."""
import os
import re
import struct

import numpy as np

from .. import alpha, history as H, lib, sets
from ..engine import HarnessError, Suite
from ..layout import Enc

BOUND = {'quick': 'all files of up to two sets over 34 kinds of body (one set: 49) x line ends x padding x endings x text between; three sets over 9 kinds; files of up to 257 sets and sets and gaps of up to 260 kB before, after and between others; the boundary between two sets at every offset of -24..24 around 512 ... 65536 and (every third) 2^20 bytes; sets behind a gap of 2^31 bytes (a hole in the file); every text of up to 4 pieces of a delimiter as lines of a set; every byte value at both ends of binary samples; every prefix of 24 files',
         'thorough': 'three sets over all kinds, four over 8; every prefix of every two-set file; gaps up to 2^32 bytes'}
ASSUMPTIONS = ['text between sets has no line that starts with a delimiter',
               'a last set that is cut short does not end in a line that ends with "    -1" (such a set may be taken as closed there: the files fix_58b makes)',
               'and its samples do not spell a closing delimiter followed by an opening one and a set number']

T = sets.TYPES


class Body:
    """One delimited set: type number, binary flag, the bytes without delimiters, and the model if pyuff reads it."""

    def __init__(self, label, num, lines=None, t=None, m=None, binary=None, extra=''):
        self.label, self.num, self.lines, self.t, self.m, self.binary, self.extra = label, num, lines, t, m, binary, extra

    def __repr__(self):
        return self.label

    def block(self, eol, pad, last=True):
        tag = ('    -1'.ljust(80) if pad else '    -1').encode() + eol
        if self.binary:
            head, raw, own_line = self.binary(eol)
            return tag + head + raw + (eol if own_line else b'') + tag
        lines = [('%6d' % self.num + self.extra)] + (self.lines if self.lines is not None else self.t.encode(self.m, Enc()))
        if pad:
            lines[0] = lines[0].ljust(80)
        return tag + b''.join(s.encode('utf-8') + eol for s in lines) + tag


def binary58(values, variant=(False, True, False, True), own_line=False, order='<', **header):
    m = T[58].base(variant, 1)
    per = (2 if variant[0] else 1) + (0 if variant[1] else 1)
    rows = [values[i:i + per] for i in range(0, len(values), per)]
    m['data'] = [complex(*r[-2:]) if variant[0] else r[-1] for r in rows]
    m['x'] = [r[0] for r in rows] if not variant[1] else [0.5 + 0.25 * i for i in range(len(rows))]
    m.update(header)

    def make(eol):
        c = T[58].complete(m)
        raw = struct.pack(order + '%d%s' % (len(values), 'f' if variant[2] else 'd'), *values)
        head = '%6db%6d%6d%12d%12d%6d%6d%12d%12d' % (58, 1 if order == '<' else 2, 2, 11, len(raw), 0, 0, 0, 0)
        lines = [head] + [Enc().record(rec, c) for rec in T[58].REC]
        return b''.join(s.encode('utf-8') + eol for s in lines), raw, own_line
    return m, make


def d(raw):
    return list(struct.unpack('<%dd' % (len(raw) // 8), raw))


def bodies():
    out = []

    def plain(label, num, m, extra=''):
        out.append(Body(label, num, t=T[num], m=m, extra=extra))

    def unknown(label, num, lines, extra=''):
        out.append(Body(label, num, lines=lines, extra=extra))
    plain('151', 151, T[151].base())
    m = T[151].base()
    m.update(model_name='ends like a delimiter    -1', description='    '.join(['-1'] * 5), db_app='x    -1')
    plain('151 text -1', 151, m)
    m = T[151].base()
    m.update(model_name='-1', description='-1    -1', db_app='-1')
    plain('151 short -1', 151, m)
    m = T[82].base(n=9)
    m['nodes'] = [1, 2, 3, 4, 5, 6, 7, 8, 417]
    plain('82', 82, m)
    m = T[82].base(n=9)
    m['nodes'] = [-1, 5, -1, -1, -1, -1, -1, -1, -1]
    plain('82 -1', 82, m)
    plain('82 remark', 82, m, extra='  written by hand -1')
    m = T[58].base((False, True, False, False), 3)
    plain('58', 58, m)
    m = T[58].base((False, False, False, False), 2)
    m.update(id1='id    -1', id2='-1', id3='name    -1', id5='x' * 70 + '    -1', rsp_ent_name='r    -1', rsp_dir=-1, ref_dir=-1, func_id=-1, z_axis_axis_units_lab='u    -1', z_axis_axis_lab='-1')
    plain('58 -1', 58, m)
    m = T[55].base((2, False, 3), 2)
    m['node_nums'] = [-1, -1]
    m.update(id5='    '.join(['last', '-1']), load_case=-1, mode_n=-1)
    plain('55 -1', 55, m)
    m = T[2411].base(n=2)
    plain('2411', 2411, m)
    m = T[2412].base()
    plain('2412', 2412, m)
    m = T[2414].base((1, False), 2)
    m['node_nums'] = [-1, 5]
    m['id5'] = 'v    -1'
    plain('2414 -1', 2414, m)
    g = [T[2429].group(0, 3), T[2429].group(1, 0)]
    g[0]['entity_tag'] = [-1, 7, -1]
    g[1]['group_name'] = 'group    -1'
    plain('2429 -1', 2429, {'groups': g})
    m = T[1858].base()
    plain('1858', 1858, m)
    unknown('unknown 781', 781, ['         1    -1    -1', '        -1', '       -1', '     -1', '   -1', '-1', '    -12', '    -10 1'])
    unknown('unknown empty', 2, [])
    unknown('unknown six digits', 123456, ['         1'])
    unknown('unknown remark', 781, ['         1'], extra='          1 b    -1')
    unknown('unknown text', 99999, ['some text', '', '', ' -1 ', '    - 1', '    -1x', '    -1 5', 'x    -1', '(    -1'])
    unknown('unknown blanks', 1, ['', '   ', '      '])
    unknown('unknown last -1', 4, ['text', '      1    -1'])
    for label, values, kw in (
            ('58b', [1.5, -2.25, 1024.0], {}),
            ('58b one', [7.0], {}),
            ('58b delimiter', [1.5] + d(b'\n    -1\n    -1\n '.ljust(16)) + [2.5], {}),
            ('58b delimiter first', d(b'    -1\r\n') + d(b'    -1\n ') + [1.0], {}),
            ('58b set inside', d(b'\n    -1\n    -1\n    15\n\n'.ljust(24)) + d(b'1234567\n    -1\n '), {}),
            ('58b ends in newline', [1.0] + d(b'1234567\n') + d(b'      \r\n'), {}),
            ('58b ends in blanks', d(b'        ') + d(b'    -1  '), {}),
            ('58b complex uneven', [0.0, 1.0, 2.0] + d(b'    -1\n \n    -1\n '[:16]) + [5.0], {'variant': (True, False, False, True)}),
            ('58b single', [1.0, 2.5, -3.25, 0.5, 17.0], {'variant': (False, True, True, True)}),
            ('58b big endian', [1.0, 2.5, -3.25], {'order': '>'})):
        for own in (False, True) if label in ('58b', '58b delimiter', '58b ends in newline') else (False,):
            m, make = binary58(values, own_line=own, **kw)
            out.append(Body(label + (' own line' if own else ''), 58, t=T[58], m=m, binary=make))
    m, make = binary58([1.0, 2.0, 3.0], id1='name    -1', id4='-1')
    out.append(Body('58b text -1', 58, t=T[58], m=m, binary=make))
    return out


def characters():
    out = []
    for label, ch in (('26', '\x1a'), ('BOM', '\ufeff'), ('tab', '\t'), ('127', '\x7f'), ('0', '\0')):
        m = T[151].base()
        m.update(model_name=(ch.strip() and ch) + 'a%sb%s    -1' % (ch, ch), description='d' + ch + 'e')
        out.append(Body('151 char ' + label, 151, t=T[151], m=m))
        m = T[164].base()
        m.update(units_description='a%sb' % ch)
        out.append(Body('164 char ' + label, 164, t=T[164], m=m))
        m = T[58].base((False, True, False, False), 3)
        m.update(id1='a%sb' % ch, rsp_ent_name='r' + ch + 's')
        out.append(Body('58 char ' + label, 58, t=T[58], m=m))
    return out


BODIES = bodies()
CHARACTERS = characters()
EOLS = [b'\n', b'\r\n']
BETWEEN = [b'', b'\n', b'some text between\n', b'     \r\n-1\n', b'x    -1\n   58\n']
ENDS = ['as is', 'no newline', 'blank line', 'text', 'cut']


def pick(labels):
    return [b for b in BODIES if b.label in labels]


def check_file(ctx, path, data, seq, cut=False):
    lib.put(path, data)
    u = lib.pyuff.UFF(path)
    ctx.op(2)
    n = len(seq)
    ctx.check(u.get_n_sets() == n, '%r sets are reported, the file has %d (%s)', u.get_n_sets(), n, [b.label for b in seq])
    types, formats = [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()]
    ctx.check(types == [b.num for b in seq], 'types are %s, expected %s', types, [b.num for b in seq])
    ctx.check(formats == [int(bool(b.binary)) for b in seq], 'formats are %s, expected %s', formats, [int(bool(b.binary)) for b in seq])
    for k, b in enumerate(seq):
        got = H.as_list(u.read_sets(k))[0]
        ctx.op()
        if b.m is None:
            ctx.check(got.get('type') == b.num, 'set %d is read as %r', k, got)
        else:
            r = sets.compare(b.t, b.t.expect(b.m, False) if b.num == 58 else b.m, got)
            ctx.check(r is None, 'set %d (%s): %s', k, b.label, r)
    ctx.observe(data)


def may_be_closed(part):
    """Whether a set cut short spells its end in what is left of it: see ASSUMPTIONS."""
    tail = part.rstrip(b'\r\n ')
    return tail.endswith(b'    -1') and len(tail) > 6 or re.search(rb'    -1 *[\r\n]+    -1 *[\r\n]+ *[0-9]', part) is not None


def finish(data, how, eol):
    """The end of the file after its last delimiter."""
    if how == 'no newline':
        return data.rstrip(b'\r\n ') if True else data
    if how == 'blank line':
        return data + eol + b'   ' + eol
    if how == 'text':
        return data + b'the end' + eol
    return data


def grammar(name, menu, lengths, between, ends, rule):
    def driver(ctx):
        n = ctx.choose('sets', lengths)
        if n == 0:
            check_file(ctx, ctx.file(), ctx.choose('contents', [b'', b'\n', b'text', b'text\n\n', b'\r\n   \r\n', b'-1\n-1\n', b'    -1', b'    -1\n', b'    -1\n   151\n', b'x    -1\n']), [])
            return
        eol = ctx.choose('line end', EOLS)
        pad = ctx.choose('padded delimiters', [False, True])
        start = ctx.choose('before', [b'', b'\n', b'a header line\n', b'\xef\xbb\xbf'] if n < 2 else [b''])
        seq = [ctx.choose('set %d' % k, menu) for k in range(n)]
        gap = ctx.choose('between', between if n > 1 else [b''])
        end = ctx.choose('end', ends)
        data = start + gap.join(b.block(eol, pad) for b in seq)
        whole = seq
        if end == 'cut':
            last = seq[-1].block(eol, pad)
            tag = last[-(6 + len(eol)) if not pad else -(80 + len(eol)):]
            body = last[:-len(tag)]
            if may_be_closed(body):
                return
            data, whole = data[:-len(tag)], seq[:-1]
        else:
            data = finish(data, end, eol)
        check_file(ctx, ctx.file(), data, whole)
        ctx.note('%s, line end %r, padded %s, between %r, end %s' % ([b.label for b in seq], eol, pad, gap, end))
    return Suite(name, driver, rule=rule)


def mixed(menu, n):
    """Every set with line ends and padding of its own."""
    def driver(ctx):
        seq, data = [], b''
        for k in range(n):
            b = ctx.choose('set %d' % k, menu)
            seq.append(b)
            data += b.block(ctx.choose('line end %d' % k, EOLS), ctx.choose('padded %d' % k, [False, True]))
        check_file(ctx, ctx.file(), data, seq)
    return Suite('mixed', driver, rule='line ends and padding chosen for every set')


def prefixes(pairs):
    """Every prefix of a file: the sets whose closing delimiter is inside it."""
    def driver(ctx):
        a, b = ctx.choose('sets', pairs)
        eol = ctx.choose('line end', EOLS)
        one, two = a.block(eol, False), b.block(eol, False)
        data = one + two
        lo = len(one)
        k = ctx.choose('length', list(range(lo - len(eol), len(data) + 1)))
        part = data[:k]
        done = [a] + ([b] if k >= len(data) - len(eol) else [])
        if len(done) == 1 and may_be_closed(part[lo:]):
            return
        check_file(ctx, ctx.file(), part, done)
        ctx.note('%s, %s cut at %d of %d' % (a, b, k, len(data)))
    return Suite('prefixes', driver, rule='a set followed by every prefix of another')


def words(tier):
    """All short texts over the alphabet of delimiters as the body of an unknown set and of a name."""
    cells = ['    -1', '-1', ' ', '1', '    ', 'x']

    def driver(ctx):
        n = ctx.choose('cells', [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5])
        text = ''.join(ctx.choose('cell %d' % k, cells) for k in range(n))
        if text.startswith('    -1') and text[6:].strip() == '' or text.startswith('    -1' + ' ' * 74):
            return        # a delimiter
        where = ctx.choose('where', ['only line', 'first line', 'last line', 'twice', 'in 151'])
        eol = ctx.choose('line end', EOLS)
        if where == 'in 151':
            m = T[151].base()
            if text != text.strip():
                return
            m['description'] = text
            b = Body('151 ' + repr(text), 151, t=T[151], m=m)
        else:
            b = Body('lines ' + repr(text), 700, {'only line': [text], 'first line': [text, 'more'], 'last line': ['more', text], 'twice': [text, text]}[where])
        after = ctx.choose('after', [None, 'same', '82'])
        seq = [b] + ({None: [], 'same': [b], '82': pick(['82'])}[after])
        check_file(ctx, ctx.file(), b''.join(x.block(eol, False) for x in seq), seq)
        ctx.note('%r %s' % (text, where))
    return Suite('words', driver, rule='all texts of up to 4 (thorough 5) pieces of a delimiter as lines of a set')


def endings(tier):
    """Every final byte of a long binary set, and every length."""
    def driver(ctx):
        byte = ctx.choose('byte', list(range(0, 256)))
        n = ctx.choose('points', [1, 2])
        place = ctx.choose('place', ['first', 'last'])
        single = ctx.choose('single', [False, True])
        raw = bytearray((struct.pack('<%df' % n, *[1.5] * n) if single else struct.pack('<%dd' % n, *[1.5] * n)))
        if place == 'first':
            raw[0] = byte
        else:
            raw[-1] = byte
            raw[-2] = 0x10
        vals = list(struct.unpack('<%d%s' % (n, 'f' if single else 'd'), bytes(raw)))
        if not np.all(np.isfinite(vals)) or any(np.float32(v) != v for v in vals if single):
            return
        m, make = binary58(vals, variant=(False, True, single, True))
        b = Body('58b byte %d' % byte, 58, t=T[58], m=m, binary=make)
        seq = [b] + pick(['82'])
        check_file(ctx, ctx.file(), b''.join(x.block(b'\n', False) for x in seq), seq)
    return Suite('58b-ends', driver, rule='every byte value at the first and at the last place of the samples')


def many(tier):
    """Files of many sets."""
    menu = [b for b in BODIES if b.label not in ('82', '2411')]

    def driver(ctx):
        n = ctx.choose('sets', [4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257] + ([511, 512, 513, 1000, 1001, 1024, 1025, 4097] if tier != 'quick' else []))
        which = ctx.choose('kinds', ['82'] + (['all', 'all backwards', 'binary'] if n < 520 else []))
        eol = ctx.choose('line end', EOLS)
        pool = {'82': pick(['82']), 'all': menu, 'all backwards': menu[::-1], 'binary': pick(['58b', '58', '58b own line', '58b big endian'])}[which]
        seq = [pool[k % len(pool)] for k in range(n)]
        check_file(ctx, ctx.file(), b''.join(b.block(eol, False) for b in seq), seq)
        ctx.note('%d sets of %s' % (n, which))
    return Suite('many', driver, rule='files of many sets of one kind and of all kinds in turn')


SIZES = [60, 120, 123, 124, 250, 500, 506, 507, 508, 509, 1018, 1020, 1024, 2042, 2044, 2046, 2048, 4090, 8186, 16380, 32764]


def sizes(tier):
    """Long sets next to others: the block ends on both sides of the powers of two."""
    def driver(ctx):
        n = ctx.choose('points', SIZES if tier == 'quick' else SIZES + [65500, 131000, 262200])
        what = ctx.choose('what', ['plain', 'delimiter at the end', 'delimiters', 'blanks', 'newlines', 'unknown', 'text between', 'ASCII'])
        eol = ctx.choose('line end', EOLS)
        gap = b''
        if what == 'text between':
            gap = b'x' * (8 * n) + eol
            big = pick(['58b'])[0]
        elif what == 'unknown':
            big = Body('unknown long', 700, ['%10d    -1' % k for k in range(n // 2)])
        elif what == 'ASCII':
            m = T[58].base((False, True, False, False), n)
            T[58].fill(m, n, [1.5, -2.25, 1024.0, 3.0, 0.0, -7.75e8])
            big = Body('58 long', 58, t=T[58], m=m)
        else:
            vals = [1.5 + k for k in range(n)]
            spell = d(b'\n    -1\n    -1\n '.ljust(16))
            if what == 'delimiter at the end':
                vals[-2:] = spell
            elif what == 'delimiters':
                vals = (spell * n)[:n - n % 2]
            elif what == 'blanks':
                vals = d(b'        ') * n
            elif what == 'newlines':
                vals = d(b'1234567\n') * n
            m, make = binary58(vals)
            big = Body('58b long', 58, t=T[58], m=m, binary=make)
        other = ctx.choose('other', pick(['58', '58b', '82']))
        order = ctx.choose('order', ['before', 'after', 'between'])
        seq = {'before': [big, other], 'after': [other, big], 'between': [other, big, other]}[order]
        check_file(ctx, ctx.file(), gap.join(b.block(eol, False) for b in seq), seq)
        ctx.note('%d points %s %s' % (n, what, order))
    return Suite('sizes', driver, rule='long sets and long gaps before, after and between others')


CHUNKS = [512, 1024, 4096, 8192, 65536, 1 << 20]


def chunks(tier):
    """Every place of the boundary between two sets around the sizes in which files are commonly read."""
    def driver(ctx):
        size = ctx.choose('size', CHUNKS if tier == 'quick' else CHUNKS + [1 << 14, 1 << 15, 1 << 17, 1 << 22, 10 ** 6])
        big = size > 1 << 17
        eol = ctx.choose('line end', EOLS[:1] if big else EOLS)
        what = ctx.choose('what', ['lines', 'text before', 'samples'])
        nxt = ctx.choose('next', pick(['58b delimiter', '151'] if big else ['58b delimiter', '151', 'unknown empty', '82 remark']))
        shift = ctx.choose('shift', list(range(-24, 25, 3 if big and tier == 'quick' else 1)))
        end = size + shift                        # where the first set, or the text before, ends
        seq = []
        if what == 'lines':
            room = end - len(Body('', 700, []).block(eol, False))
            w = 10 + len(eol)
            if room < w:
                return
            n, last = divmod(room - w, w)
            if 0 < last < len(eol):
                n, last = n - 1, last + w
            if n < 0:
                return
            seq = [Body('lines', 700, ['%10d' % (k % 7 - 1) for k in range(n)] + ['5' * (last - len(eol))] * (last > 0) + ['%10d' % -2])]
            data = seq[0].block(eol, False)
        elif what == 'samples':
            m, make = binary58([1.5])
            room = end - len(Body('', 58, binary=make).block(eol, False))
            if room < 0:
                return
            n = room // 8 + 1
            pad = room % 8
            m, make = binary58(([1.5, -2.25] * n)[:n])
            seq = [Body('58b', 58, t=T[58], m=m, binary=make)]
            data = (b'x' * (pad - len(eol)) + eol if pad >= len(eol) else b'') + seq[0].block(eol, False)
        else:
            data = b'text ' * (end // 5 - 2)
            data += b'.' * (end - len(eol) - len(data)) + eol
        if not ctx.hung and len(data) != end and what != 'samples':
            raise HarnessError('%d bytes instead of %d (%s)' % (len(data), end, what))
        other = pick(['82'])[0]
        check_file(ctx, ctx.file(), data + nxt.block(eol, False) + other.block(eol, False), seq + [nxt, other])
        ctx.note('%s up to %d, then %s' % (what, end, nxt))
    return Suite('chunks', driver, rule='the boundary between two sets at every place around the sizes files are read in')


def available():
    try:
        with open('/proc/meminfo') as fh:
            return int(re.search(r'MemAvailable:\s+(\d+)', fh.read())[1]) << 10
    except (OSError, TypeError):
        return 0


def huge(tier):
    """Offsets that need more than 31 (and 32) bits: a long gap (a hole of the file, so that it takes no room) between sets."""
    def driver(ctx):
        size = ctx.choose('size', [1 << 31] if tier == 'quick' else [1 << 31, (1 << 31) - 4096, 1 << 32])
        if available() < 5 * size:
            ctx.note('not enough memory for %d bytes' % size)
            return
        a, b = pick(['58b delimiter', '82'])
        path = ctx.file()
        first = a.block(b'\n', False)
        lib.put(path, first)
        os.truncate(path, len(first) + size)
        rest = b'\n' + a.block(b'\n', False) + b.block(b'\n', False)
        with open(path, 'ab') as fh:
            fh.write(rest)
        seq = [a, a, b]
        u = lib.pyuff.UFF(path)
        ctx.op(2)
        ctx.check([int(x) for x in u.get_set_types()] == [x.num for x in seq], 'types are %s, expected %s', list(u.get_set_types()), [x.num for x in seq])
        ctx.check([int(x) for x in u.get_set_formats()] == [int(bool(x.binary)) for x in seq], 'formats are %s', list(u.get_set_formats()))
        for k in (2, 0, 1):
            x = seq[k]
            r = sets.compare(x.t, x.t.expect(x.m, False) if x.num == 58 else x.m, u.read_sets(k))
            ctx.op()
            ctx.check(r is None, 'set %d (%s): %s', k, x.label, r)
        ctx.check(os.path.getsize(path) == len(first) + size + len(rest), 'the file has another size')
        os.remove(path)
        ctx.observe(size)
        ctx.note('a gap of %d bytes' % size)
    return Suite('huge', driver, limit=240.0, rule='sets behind more than 2^31 bytes')


def suites(tier):
    few = pick(['151 text -1', '82 -1', '58 -1', 'unknown 781', 'unknown last -1', '58b delimiter', '58b own line', '2429 -1', 'unknown empty'])
    deep = tier != 'quick'
    out = [grammar('files1', BODIES + CHARACTERS, [0, 1], BETWEEN, ENDS, 'all files of one set'),
           grammar('files2', BODIES, [2], BETWEEN if deep else BETWEEN[:3], ENDS, 'all files of two sets'),
           grammar('files3', BODIES if deep else few, [3], [b'', b'some text between\n'] if deep else [b''], ENDS if not deep else ENDS[:4:3], 'all files of three sets'),
           mixed(few, 2), prefixes([(a, b) for a in BODIES for b in BODIES] if deep else [(a, b) for a in pick(['82 -1', '58b delimiter']) for b in BODIES[:1] + few + BODIES[6:8]]),
           words(tier), endings(tier), many(tier), sizes(tier), chunks(tier), huge(tier)]
    if deep:
        out.append(grammar('files4', few[:8], [4], [b''], ENDS[:2], 'all files of four sets'))
    return out
