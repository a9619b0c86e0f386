"""Drivers that write a generated set and read it back."""
import re

from . import alpha, lib, sets
from .layout import Enc, split_blocks

# header fields that follow from the data or select the layout, and code fields with a closed range
FIXED = {58: {'ord_data_type', 'num_pts', 'abscissa_spacing', 'abscissa_min', 'abscissa_inc'},
         55: {'analysis_type', 'data_type', 'n_data_per_node'}, 82: {'n_nodes'},
         2414: {'dataset_location', 'analysis_type', 'data_type', 'number_of_data_values_for_the_data_component'}}
CODES = {(58, 'func_type'): [0, 1, 2, 3, 4, 6, 9]}


def header_options(t, m, deep=False, codes={}):
    """[(key, options)] of the header of a model; the first option is the model's own value."""
    out = []
    for f in t.header(m):
        key = f[0]
        if key in FIXED.get(t.num, ()) or key.startswith('status_mask.'):
            continue
        opts = codes.get((t.num, key)) or CODES.get((t.num, key)) or alpha.field(f, deep)
        if t.num == 2414 and key == 'analysis_type':
            opts = [0, 1, 2, 3, 4, 6, 7, 9]
        out.append((key, [m[key]] + [o for o in opts if o != m[key] or type(o) is not type(m[key])]))
    return out


def deviate_header(ctx, t, m, deep=False, codes={}):
    for key, opts in header_options(t, m, deep, codes):
        m[key] = ctx.dev(key, opts)
    return m


def go(ctx, t, m, force_double=True, mode='overwrite', file=True, layout=False, dset=None):
    """Writes m, reads it, compares."""
    path = ctx.file()
    d = t.dset(m) if dset is None else dset
    lib.write(path, d, mode, force_double)
    raw = lib.data_of(path)
    want = sets.expect(t, m, force_double)
    if layout:
        layout_check(ctx, t, want, raw)
    else:
        u = lib.pyuff.UFF(path)
        ctx.check(u.get_n_sets() == 1, 'the file has %r sets', u.get_n_sets())
        got = u.read_sets()
        r = sets.compare(t, want, got)
        ctx.check(r is None, 'written and read back: %s', r)
    ctx.op(2)
    ctx.observe(raw)
    return raw


def binary_check(ctx, t, want, raw):
    """A single data-set 58 in binary form, decoded by the published layout."""
    import struct
    from .layout import BadLayout
    lines = raw.split(b'\n', 13)
    ctx.check(len(lines) == 14 and lines[0].rstrip() == b'    -1', 'the header has not its 13 lines: %r', lines[0][:80])
    head = lines[1].decode('ascii')
    ctx.check(head[:7] == '    58b' and len(head.rstrip()) <= 80, 'the set number line is %r', head)
    cplx, even, single, _ = want['variant']
    values = t.samples(want)
    try:
        got = [int(head[a:b]) for a, b in ((7, 13), (13, 19), (19, 31), (31, 43), (43, 49), (49, 55), (55, 67), (67, 79))]
    except ValueError:
        ctx.fail('the fields of the set number line are not in their columns: %r' % head)
    size = len(values) * (4 if single else 8)
    ctx.check(got[0] in (1, 2) and got[1:] == [2, 11, size, 0, 0, 0, 0],
              'byte ordering, floating-point format, lines of text, bytes and the unused fields are %s, expected [1 or 2, 2, 11, %d, 0, 0, 0, 0]', got, size)
    body = lines[13]
    ctx.check(len(body) >= size, 'there are %d bytes, %d announced', len(body), size)
    back = struct.unpack('<>'[got[0] - 1] + '%d%s' % (len(values), 'f' if single else 'd'), body[:size])
    bad = [k for k, (a, b) in enumerate(zip(back, values)) if (abs(a - b) > 1e-6 * abs(b) if single else a != b)]
    ctx.check(not bad, 'sample %s is %r, expected %r', bad and bad[0], back[bad[0]] if bad else 0, values[bad[0]] if bad else 0)
    ctx.check(re.fullmatch(rb'\n?    -1 *\n', body[size:]) is not None, 'the samples are followed by %r', body[size:size + 90])
    # the text records do not depend on the samples: decode them in front of the samples as text
    plain = dict(want, variant=(cplx, even, single, False))
    if 'binary' in plain:
        plain['binary'] = 0
    text = [s.decode('utf-8') for s in lines[2:13]] + t.encode(plain, Enc())[11:]
    r = sets.compare_file(t, plain, text)
    ctx.check(r is None, 'decoded by the published layout: %s', r)


def layout_check(ctx, t, want, raw):
    from .layout import BadLayout
    if t.num == 58 and want['variant'][3]:
        return binary_check(ctx, t, want, raw)
    try:
        blocks = split_blocks(raw)
    except BadLayout as e:
        ctx.fail('delimiters: %s' % e)
    ctx.check(len(blocks) == 1, 'the file has %d blocks', len(blocks))
    num, head, lines = blocks[0]
    ctx.check(num == t.num, 'set number %r', num)
    ctx.check(head.strip() == '', 'text after the set number: %r', head)
    r = sets.compare_file(t, want, lines)
    ctx.check(r is None, 'decoded by the published layout: %s', r)
