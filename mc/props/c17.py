"""C17: header-only reading."""
import copy

import numpy as np

from .. import alpha, history as H, lib, sets
from ..engine import Suite
from ..layout import Enc
from ..roundtrip import deviate_header
from .c11 import FEW
from .families import T

BOUND = {'quick': 'every variant of 58 x counts up to 25 and edges x sources; every header field at its alphabet (pairs of neighbours); files of 3 sets with every list of indices',
         'thorough': 'counts up to 129 and edges up to 65537, deeper alphabets, all pairs of header fields'}
ASSUMPTIONS = ['x and data are absent or None in a header']


def without(d):
    return {k: v for k, v in d.items() if k not in ('x', 'data')}


def agree(ctx, head, full, who=''):
    if full.get('type') == 58:
        for k in ('x', 'data'):
            ctx.check(head.get(k) is None, '%sheader_only returns %s', who, k)
        head, full = without(head), without(full)
        ctx.check(set(head) == set(full), '%sheader_only returns the fields %s', who, sorted(set(head) ^ set(full)))
        head = {k: head[k] for k in full}
    ok = H.same(head, full)
    ctx.check(ok, '%sheader-only and full%s', who, ok or H.first_difference(head, full))


def compare(ctx, path, t, m, order):
    """One set in all orders of reading, against the model as well."""
    u = lib.pyuff.UFF(path)
    if order == 'header first':
        head = copy.deepcopy(u.read_sets(0, header_only=True))
        full = copy.deepcopy(u.read_sets(0))
    else:
        full = copy.deepcopy(u.read_sets(0))
        head = copy.deepcopy(u.read_sets(0, header_only=True))
    agree(ctx, head, full)
    ok = H.same(full, u.read_sets(0))
    ctx.check(ok, 'a full read after a header-only one differs')
    agree(ctx, lib.read(path, header_only=True), full, 'all sets: ')
    want = without(sets.expect(t, m, False))
    for k, kind in t.fields(want).items():
        if k in want and k not in ('x', 'data'):
            r = sets.diff({k: kind}, want, t.view(head))
            ctx.check(r is None, 'header: %s', r)
    ctx.op(4)


def source(ctx, t, m, path):
    how = ctx.choose('written by', ['pyuff', 'single'] + ([{'order': '<'}, {'order': '>'}, {'eol': b'\r\n', 'letter': 'B'}] if m['variant'][3] else FEW))
    if isinstance(how, str):
        lib.write(path, t.dset(m), 'overwrite', how == 'pyuff')
        return dict(m, variant=m['variant'][:2] + (False,) + m['variant'][3:]) if how == 'pyuff' else m
    if m['variant'][3]:
        lib.put(path, t.block58b(m, **how))
    else:
        lib.put(path, t.block(m, Enc(**how)).encode('utf-8'))
    return m


def shapes(tier):
    ns = alpha.COUNTS + [64, 65, 500, 1000] + ([] if tier == 'quick' else list(range(26, 130)) + alpha.EDGES + alpha.BIG)

    def driver(ctx):
        v = ctx.choose('variant', sets.VARIANTS[58])
        n = ctx.choose('points', sorted(set(ns)))
        m = T[58].base(v, n)
        path = ctx.file()
        m = source(ctx, T[58], m, path)
        compare(ctx, path, T[58], m, ctx.choose('order', ['header first', 'full first']))
        ctx.observe(lib.data_of(path))
        ctx.note('58 %s of %d points' % (v, n))
    return Suite('shapes', driver, rule='variants x counts x sources x orders')


def header(tier):
    def driver(ctx):
        v = ctx.choose('variant', [(True, True, False, False), (False, False, False, True), (True, False, True, True), (False, False, True, False)])
        m = deviate_header(ctx, T[58], T[58].base(v, 3), tier != 'quick')
        path = ctx.file()
        m = source(ctx, T[58], m, path)
        compare(ctx, path, T[58], m, 'header first')
        ctx.observe(lib.data_of(path))
    return Suite('header', driver, bound=1 if tier == 'quick' else 2, window=None, rule='every header field at every value x sources')


COLUMNS = [(10, [5, 10, 5, 10, 11, 10, 4, 11, 10, 4]), (11, [10, 10, 10, 13, 13, 13]), (12, [10, 5, 5, 5, 21, 21]), (13, [10, 5, 5, 5, 21, 21]), (14, [10, 5, 5, 5, 21, 21]), (15, [10, 5, 5, 5, 21, 21])]
COLUMNS = [(at - 3, widths) for at, widths in COLUMNS]
PUT = ['0', '1', '2', '3', '4', '5', '6', '7', '99', '-1', '', '1e3', 'x', '123456789']


def other(tier):
    """Headers that say something else than the samples that follow, or are damaged: whatever a full read answers, header_only answers."""
    def driver(ctx):
        v = ctx.choose('variant', sets.VARIANTS[58])
        n = ctx.choose('points', [1, 3])
        path = ctx.file()
        lib.write(path, T[58].dset(T[58].base(v, n)), 'overwrite', False)
        lines = lib.data_of(path).split(b'\n')
        changes = []
        for k in range(2 if tier != 'quick' else 1):
            at, widths = ctx.choose('line', COLUMNS)
            j = ctx.choose('column', list(range(len(widths))))
            what = ctx.choose('text', PUT).encode()
            pos, w = sum(widths[:j]), widths[j]
            if len(what) <= w:
                lines[at] = lines[at][:pos] + what.rjust(w) + lines[at][pos + w:]
            changes.append((at, j, what))
        raw = b'\n'.join(lines)
        lib.put(path, raw)
        u = lib.pyuff.UFF(path)
        try:
            full = copy.deepcopy(u.read_sets(0))
        except Exception:
            ctx.nontrivial = False
            ctx.op()
            return
        agree(ctx, u.read_sets(0, header_only=True), full)
        agree(ctx, lib.read(path, header_only=True), full)
        ctx.op(4)
        ctx.observe(raw)
        ctx.note('%s, %s' % (v, changes))

    def first(ctx):
        """The same of the line of a binary set that gives its number, order and size."""
        v = ctx.choose('variant', [v for v in sets.VARIANTS[58] if v[3]])
        path = ctx.file()
        lib.write(path, T[58].dset(T[58].base(v, 3)), 'overwrite', False)
        lines = lib.data_of(path).split(b'\n')
        pos = 7
        fields = []
        for w in [6, 6, 12, 12, 6, 6, 12, 12]:
            fields.append((pos, w))
            pos += w
        p, w = ctx.choose('column', fields)
        what = ctx.choose('text', PUT).encode()
        lines[1] = lines[1][:p] + what[:w].rjust(w) + lines[1][p + w:]
        lib.put(path, b'\n'.join(lines))
        u = lib.pyuff.UFF(path)
        try:
            full = copy.deepcopy(u.read_sets(0))
        except Exception:
            ctx.nontrivial = False
            ctx.op()
            return
        agree(ctx, u.read_sets(0, header_only=True), full)
        ctx.op(3)
        ctx.observe(b'\n'.join(lines))
    return [Suite('other', driver, rule='every column of the header replaced by every text'), Suite('first', first, rule='every column of the first line replaced by every text')]


def samples(tier):
    """Samples must not leak into the header: extreme values, and bytes that spell text."""
    spell = [b'    -1\n ', b'\r\n\r\n\r\n\r\n', b'\0' * 8, b'\xff' * 8, b'\n' * 8, b'  58b   ', b'\x0b\x0c\x1c\x1d\x1e\x85\r\n', 'žš€x'.encode('utf-8')[:8]]

    def driver(ctx):
        v = ctx.choose('variant', [x for x in sets.VARIANTS[58] if x[3] and not x[2]])
        m = T[58].base(v, 4)
        values = [ctx.choose('sample %d' % k, spell) for k in range(2)]
        m['data'] = [complex(*np.frombuffer(values[k % 2].ljust(8) * 2, '<f8')) if v[0] else float(np.frombuffer(values[k % 2].ljust(8), '<f8')[0]) for k in range(4)]
        path = ctx.file()
        eol = ctx.choose('line ends', [b'\n', b'\r\n'])
        raw = T[58].block58b(m, '<', eol)
        lib.put(path, raw)
        u = lib.pyuff.UFF(path)
        full, head = u.read_sets(0), u.read_sets(0, header_only=True)
        agree(ctx, head, full)
        ctx.op(2)
        ctx.observe(raw)
    return Suite('samples', driver, rule='binary samples that spell delimiters and line ends')


def files(tier):
    kinds = H.models(H.ALL)

    def driver(ctx):
        a = ctx.choose('kind', kinds)
        b = ctx.choose('function', [k for k in kinds if k[1].num == 58])
        path = ctx.file()
        group = [a, b, kinds[8]]
        for k, (_, t, m) in enumerate(group):
            lib.write(path, t.dset(H.mark(t, m, k)), 'add')
        full = copy.deepcopy(lib.read(path))
        u = lib.pyuff.UFF(path)
        which = ctx.choose('which', [None, 0, 1, 2, [0], [1], [0, 1], [2, 1, 0], [1, 1], []])
        got = u.read_sets(which, header_only=True)
        lst = H.as_list(got)
        idx = [0, 1, 2] if which is None else which if isinstance(which, list) else [which]
        ctx.check(len(lst) == len(idx), '%r gave %d sets', which, len(lst))
        for k, g in zip(idx, lst):
            agree(ctx, g, full[k], 'set %d: ' % k)
        ok = H.same(u.read_sets(), full)
        ctx.check(ok, 'a header-only read influenced later reads')
        for h in (False, 0):
            ctx.check(H.same(u.read_sets(1, h), full[1]), 'header_only=%r does not read the data', h)
        agree(ctx, u.read_sets(1, True), full[1], 'positional: ')
        ctx.op(5)
        ctx.observe(lib.data_of(path), which)
    return Suite('files', driver, rule='every kind with every function in a file x every selection')


def suites(tier):
    return [shapes(tier), header(tier), samples(tier), files(tier)] + other(tier)
