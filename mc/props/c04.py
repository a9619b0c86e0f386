"""C04: binary data-set 58."""
import struct

import numpy as np

from .. import reuse, patterns, alpha, lib, roundtrip as rt, sets
from ..engine import Suite
from ..layout import split_blocks
from .families import T, XS, counts, f58_axis, f58_containers, f58_header, f58_ordtype, f58_shape, f58_values, pool58, variants58, xs58

BOUND = {'quick': 'counts 1..25 and edges up to 1025; 22 byte patterns at every place of functions of up to 4 points; all sequences of 3 sets around a binary one',
         'thorough': 'counts 1..129 and edges up to 65537; pairs of byte patterns; sequences of 4'}
ASSUMPTIONS = ['the machine is little-endian; big-endian files are generated by the independent encoder',
               'single-precision values lie in the single-precision range']

B8 = [b'    -1\r\n', b'\n    -1\n', b'\r\n    -1', b'    -1  ', b'-1\n    -', b'\n\n\n\n\n\n\n\n', b'\r\r\r\r\r\r\r\r', b'\r\n\r\n\r\n\r\n', b'        ',
      b'    58b ', b'\x00\x00\x00\x00\x00\x00\x00\n', b'\x00\x00\x00\x00\x00\x00\n\x00', b'\n\x00\x00\x00\x00\x00\x00\x00', b'\x1a\x1a\x1a\x1a\x1a\x1a\x1a\x1a', b'\x80\x81\xfe\xff\x00\x01\x02\x03',
      b'1234567\n', b'1234567\r', b'      \r\n', b'   -1\n  ', b'  -1    ', b'\x0b\x0c\x1c\x1d\x1e\x85\x0a\x20', b'\xe2\x80\xa8\xe2\x80\xa9  ']
# longer texts over consecutive samples
B16 = [b'1234567\n    -1\n ', b'\n    -1\n    -1\n ', b'   \n    -1\n     ', b'\n    -1\n    151\n', b'    -1\r\n    -1\r\n'[:16], b'-1\n    -1\n    15']
B24 = [b'\n    -1\n    -1\n    15\n ', b'\r\n    -1\r\n    -1\r\n    58', b'\n    -1' + b' ' * 17]


def doubles(raw):
    return list(struct.unpack('<%dd' % (len(raw) // 8), raw))


def singles(raw):
    return list(struct.unpack('<%df' % (len(raw) // 4), raw))


def finite(v):
    return all(np.isfinite(v))


def adversarial(tier):
    texts = [t[:8 * (len(t) // 8)] if len(t) % 8 < 4 else t.ljust(8 * (len(t) // 8 + 1)) for t in B8 + B16 + B24]

    def driver(ctx):
        v = ctx.choose('variant', variants58(True))
        fd = ctx.choose('force_double', [True] if not v[2] else [True, False])
        single = v[2] and not fd
        n = ctx.choose('points', [1, 2, 3, 4])
        per = (2 if v[0] else 1) + (0 if v[1] else 1)
        total = n * per
        raw = ctx.choose('bytes', texts)
        vals = singles(raw) if single else doubles(raw)
        if not finite(vals):
            ctx.nontrivial = False
            return
        if len(vals) > total:
            return
        at = ctx.choose('place', list(range(total - len(vals) + 1)))
        flat = [1.5 + k for k in range(total)]
        flat[at:at + len(vals)] = vals
        second = ctx.choose('and', [None] + ([] if tier == 'quick' else texts))
        if second:
            more = singles(second) if single else doubles(second)
            if not finite(more) or at + len(vals) + len(more) > total:
                return
            flat[at + len(vals):at + len(vals) + len(more)] = more
        m = T[58].base(v, n)
        rows = [flat[i * per:(i + 1) * per] for i in range(n)]
        if not v[1]:
            m['x'] = [r[0] for r in rows]
        m['data'] = [complex(*r[-2:]) if v[0] else r[-1] for r in rows]
        want = sets.expect(T[58], m, fd)
        path = ctx.file()
        lib.write(path, T[151].dset(T[151].base()))
        lib.write(path, T[58].dset(m), 'add', fd)
        lib.write(path, T[82].dset(T[82].base()), 'add')
        u = lib.pyuff.UFF(path)
        ctx.op(5)
        ctx.check(list(u.get_set_types()) == [151, 58, 82], 'types are %s', list(u.get_set_types()))
        ctx.check([int(f) for f in u.get_set_formats()] == [0, 1, 0], 'formats are %s', list(u.get_set_formats()))
        got = u.read_sets()
        for k, (t, w) in enumerate([(T[151], T[151].base()), (T[58], want), (T[82], T[82].base())]):
            r = sets.compare(t, w, got[k])
            ctx.check(r is None, 'set %d: %s', k, r)
        ctx.observe(lib.data_of(path))
        ctx.note('bytes %r at %d of variant %s' % (raw, at, v))
    return [Suite('58b-bytes', driver, rule='byte patterns that spell delimiters, newlines and set numbers at every place of the samples, between two other sets')]


def orders(tier):
    """Sets of the independent encoder in either byte order."""
    def driver(ctx):
        v = ctx.choose('variant', variants58(True))
        order = ctx.choose('byte order', ['<', '>'])
        n = ctx.choose('points', counts(tier, False))
        eol = ctx.choose('line end', [b'\n', b'\r\n'])
        end = ctx.choose('line end before the closing delimiter', [True, False])
        pool = pool58(v, False)
        shift = ctx.choose('shift', [0, 7] if n < 50 else [0])
        m = T[58].base(v, n)
        T[58].fill(m, n, pool[shift:] + pool[:shift], x0=-1.5, dx=0.0625, xs=xs58(v, False))
        letter = ctx.choose('letter', ['b', 'B'] if n < 4 else ['b'])
        count = ctx.choose('byte count', [None, 0] if n < 4 else [None])
        raw = T[58].block58b(m, order, eol, end, letter, count)
        path = ctx.file()
        lib.put(path, raw)
        u = lib.pyuff.UFF(path)
        ctx.op(2)
        ctx.check(u.get_n_sets() == 1 and int(u.get_set_formats()[0]) == 1, '%d sets, formats %s', u.get_n_sets(), u.get_set_formats())
        r = sets.compare(T[58], T[58].expect(m, False), u.read_sets(0))
        ctx.check(r is None, '%s', r)
        ctx.observe(raw)
        ctx.note('order %s, %d points, variant %s' % (order, n, v))
    return [Suite('58b-orders', driver, rule='sets laid out by the independent encoder: byte order x precision x every count x line ends')]


BITS = [0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), struct.unpack('<d', bytes.fromhex('efbeadde0000f8ff'))[0], 5e-324, -1.7976931348623157e308]
BITS4 = [0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 1.401298464324817e-45, -3.4028234663852886e38]


def bits(tier):
    """Samples that are equal to others, or to none, and yet are stored: every bit of them is kept."""
    deep = tier != 'quick'

    def driver(ctx):
        v = ctx.choose('variant', variants58(True))
        how = ctx.choose('source', ['<', '>', 'pyuff'] + (['single'] if v[2] else []))
        single = v[2] and how != 'pyuff'
        n = ctx.choose('points', [1, 2, 3] if not deep else [1, 2, 3, 4])
        per = (2 if v[0] else 1) + (0 if v[1] else 1)
        pool = BITS4 if single else BITS
        if how in ('pyuff', 'single'):
            pool = [b for b in pool if np.isfinite(b)]
        one = ctx.choose('everywhere', [None] + pool) if n > 1 else None
        if n == 1:
            flat = [ctx.choose('value %d' % k, pool) for k in range(per)]
        elif one is not None:
            flat = [one] * (n * per)
        else:
            # rows of two kinds
            row = [[ctx.choose('value %d' % k, pool) for k in range(per)], [1.5 + k for k in range(per)]]
            at = ctx.choose('row', list(range(n)))
            flat = [x for k in range(n) for x in row[k != at]]
        rows = np.array(flat).reshape(n, per)
        m = T[58].base(v, n)
        m['data'] = list(rows[:, -1])
        x = None
        if not v[1]:
            x = rows[:, 0].copy()
            m['x'] = list(x)
        data = rows[:, -1].copy()
        if v[0]:
            data = np.empty(n, complex)
            data.real, data.imag = rows[:, -2], rows[:, -1]
            m['data'] = list(data)
        path = ctx.file()
        if how in '<>':
            lib.put(path, T[58].block58b(m, how))
        else:
            d = T[58].dset(m)
            d['data'] = data.copy()
            lib.write(path, d, 'overwrite', not single)
        got = lib.read(path, 0)
        ctx.op(2)
        for key, want in (('x', x), ('data', data)):
            if want is None:
                continue
            have = np.asarray(got[key])
            ctx.check(have.shape == want.shape, '%s has the shape %s', key, have.shape)
            ctx.check(have.dtype == want.dtype, '%s has the type %s', key, have.dtype)
            a, b = have.view('f8'), want.view('f8')
            same = (a.view('u8') == b.view('u8')) | (np.isnan(a) & np.isnan(b) if single else False)
            ctx.check(bool(np.all(same)), '%s stored as %s is read as %s', key, want, have)
        ctx.observe(lib.data_of(path))
        ctx.note('%s of variant %s from %s' % (flat, v, how))
    return [Suite('58b-bits', driver, rule='zeros of both signs, infinities, NaNs and the smallest and largest numbers at every place of a row, at every row')]


def like_ascii(tier):
    """Header and byte count: binary and ASCII of the same set."""
    keys = [f[0] for f in T[58].header(None)]

    def driver(ctx):
        v = ctx.choose('variant', variants58(True))
        fd = ctx.choose('force_double', [True, False])
        n = ctx.choose('points', [1, 2, 3, 8, 33])
        given = ctx.choose('n_bytes given', [None, 0, 77])
        m = T[58].base(v, n)
        if not v[1] and n > 1:
            m['x'] = m['x'][::-1]
        d = T[58].dset(m)
        if given is not None:
            d.update(n_bytes=given, byte_ordering=2, fp_format=1, n_ascii_lines=5)
        path = ctx.file()
        lib.write(path, d, 'overwrite', fd)
        raw = lib.data_of(path)
        ctx.op(2)
        b = lib.read(path)
        a_m = dict(m, variant=v[:3] + (False,))
        lib.write(path, T[58].dset(a_m), 'overwrite', fd)
        a = lib.read(path)
        ctx.op(2)
        for key in keys:
            ctx.check(a.get(key) == b.get(key), '%s is %r in the binary and %r in the ASCII set', key, b.get(key), a.get(key))
        head = raw.split(b'\n')
        ctx.check(head[1][:7] == b'    58b', 'the set number line is %r', head[1])
        size = len(T[58].samples(m)) * (4 if v[2] and not fd else 8)
        field = head[1][31:43]
        ctx.check(field.strip().isdigit() and int(field) == size, 'byte count %r, the samples take %d', field, size)
        ctx.check(b.get('n_bytes') == size, 'n_bytes is %r, the samples take %d', b.get('n_bytes'), size)
        start = sum(len(s) + 1 for s in head[:13])
        body = raw[start:]
        ctx.check(head[1][19:31].strip() == b'11', 'number of ASCII lines %r', head[1][19:31])
        ctx.check(head[1][7:13].strip() == b'1' and head[1][13:19].strip() == b'2', 'byte order and format %r', head[1])
        want = struct.pack('<%d%s' % (len(T[58].samples(m)), 'f' if v[2] and not fd else 'd'), *T[58].samples(m))
        ctx.check(body[:size] == want, 'the stored samples differ from the data')
        ctx.check(body[size:].strip() == b'-1', 'the samples are followed by %r', body[size:size + 20])
        ctx.observe(raw)
    return [Suite('58b-like-ascii', driver, rule='binary and ASCII header of the same set; byte count and stored samples')]


def places(tier):
    """Sequences of sets around a binary one, in every mode."""
    menu = [('151', 151, None), ('82', 82, None), ('58 ascii', 58, (False, True, False, False)), ('58b', 58, (False, False, False, True)),
            ('58b complex', 58, (True, True, False, True)), ('55', 55, (2, False, 3)), ('58b odd', 58, (False, True, False, True))]

    def driver(ctx):
        length = ctx.choose('sets', [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4])
        seq = [ctx.choose('set %d' % k, menu) for k in range(length)]
        how = ctx.choose('how', ['one by one', 'list overwrite', 'list add', 'first overwrite'])
        u = lib.pyuff.UFF(ctx.file())
        models = []
        for k, (label, num, v) in enumerate(seq):
            n = 1 if 'odd' in label else 3
            models.append((T[num], T[num].base(v, n)))
        ds = [t.dset(m) for t, m in models]
        if how == 'one by one':
            for d in ds:
                u.write_sets(d, 'add')
        elif how == 'first overwrite':
            u.write_sets(T[18].dset(T[18].base()))
            for k, d in enumerate(ds):
                u.write_sets(d, 'add' if k else 'overwrite')
        else:
            u.write_sets(ds, how.split()[1])
        ctx.op(len(ds) + 1)
        for w in (u, lib.pyuff.UFF(ctx.file())):
            ctx.check(list(w.get_set_types()) == [t.num for t, _ in models], 'types %s', list(w.get_set_types()))
            ctx.check([int(f) for f in w.get_set_formats()] == [int(t.num == 58 and m['variant'][3]) for t, m in models], 'formats %s', list(w.get_set_formats()))
            for k, (t, m) in enumerate(models):
                r = sets.compare(t, sets.expect(t, m), w.read_sets(k))
                ctx.check(r is None, 'set %d (%s): %s', k, t.num, r)
        ctx.observe(lib.data_of(ctx.file()))
        ctx.note('%s written %s' % ([s[0] for s in seq], how))
    return [Suite('58b-places', driver, rule='all sequences of up to three (thorough four) sets of seven kinds x the ways to write them')]


def suites(tier):
    return f58_header(tier, True) + f58_shape(tier, True) + f58_values(tier, True) + f58_axis(tier, True) + f58_containers(tier, True) + \
        f58_ordtype(tier, True) + adversarial(tier) + orders(tier) + bits(tier) + like_ascii(tier) + places(tier) + \
        patterns.suites([4], tier) + patterns.large([4], tier) + reuse.suites([4], tier) + patterns.headers([58], tier, binary=True)
