"""C15: reading is pure."""
import copy
import os

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite
from ..layout import Enc

BOUND = {'quick': 'all sequences of 3 reads (of every set, all, lists, header-only, through two objects, failing ones) over 7 files, what is returned overwritten after each; every list of up to 4 indices; large sets and many of them; every ordered pair of reads of two set kinds',
         'thorough': 'all sequences of 4 reads; triples of kinds'}
ASSUMPTIONS = ['what the caller may alter is what read_sets returned (arrays, lists and dictionaries, at any depth)']

KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
FILES = [['151', '58(False, True, False, True)', '82'], ['58(True, False, False, True)', '58(True, False, False, False)', '2412'], ['2429', '2414(2, False)', '18'],
         ['2467', '15', '2420'], ["2414('freq', 3)", '55(5, True, 6)', '1858'], ['58(False, True, False, False)', 'unsupported', '2400'], ['2411', '164', '2414(3, False)']]
STAMP = 1000000000123456789


def spoil(v, depth=0):
    """Overwrites everything a caller can reach."""
    if isinstance(v, dict):
        for k in list(v):
            spoil(v[k], depth + 1)
            v[k] = 'spoilt'
        v['extra'] = 'spoilt'
    elif isinstance(v, list):
        for x in v:
            spoil(x, depth + 1)
        v[:] = ['spoilt']
    elif isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                spoil(x, depth + 1)
        try:
            v[...] = 'X' if v.dtype.kind in 'US' else 99
        except (ValueError, TypeError):
            pass


def build(path, names, how):
    raw = b''
    entries = []
    for k, name in enumerate(names):
        if name == 'unsupported':
            raw += b'    -1\n   781\n         1\n    -1\n'
            entries.append((781, None))
            continue
        _, t, m = NAMED[name]
        m = H.mark(t, m, k)
        if how == 'other':
            binary = t.num == 58 and m['variant'][3]
            raw += t.block58b(m, '>', b'\r\n') if binary else t.block(m, Enc(eol='\r\n', pad=True)).encode('utf-8')
            if t.num == 2412:
                m = {'elements': t.grouped(m)}
        else:
            p = path + '.one'
            lib.write(p, t.dset(m))
            raw += lib.data_of(p)
            os.remove(p)
        entries.append((t, sets.expect(t, m)))
    lib.put(path, raw)
    os.utime(path, ns=(STAMP, STAMP))
    return raw, H.Model(entries)


def untouched(ctx, path, raw):
    ctx.check(os.listdir(os.path.dirname(path)) == [os.path.basename(path)], 'reading left files: %s', os.listdir(os.path.dirname(path)))
    ctx.check(lib.data_of(path) == raw, 'reading changed the file')
    ctx.check(os.stat(path).st_mtime_ns == STAMP, 'reading changed the modification time')


class Named(tuple):
    def __repr__(self):
        return '%s.read_sets(%s%s)' % (self[0], self[1], ', header_only' if self[2] else '')


def sequences(tier):
    depth = 3 if tier == 'quick' else 4
    whats = [0, 1, 2, [2, 0], [1, 1], None]
    ops = [Named(('u', w, h)) for w in whats for h in (False, True)]
    ops += [Named(('v', w, False)) for w in (0, 2, None)] + [Named(('v', None, True)), Named(('u', 3, False)), Named(('u', [0, -1], False)), Named(('new', None, False))]
    if tier == 'quick':
        ops = [o for o in ops if o[0] == 'u' and (o[1] in (0, 1, 2, [1, 1]) and not o[2] or o[1] is None or o[1] == 1 or o[1] == [0, -1]) or o[:2] == ('v', None)]

    def driver(ctx):
        names = ctx.choose('file', FILES)
        how = ctx.choose('written by', ['pyuff', 'other'])
        path = ctx.file()
        raw, model = build(path, names, how)
        want = {h: [lib.pyuff.UFF(path).read_sets(k, header_only=h) for k in range(3)] for h in (False, True)}
        for k in range(3):
            model.check_one(ctx, k, want[False][k])
        want = copy.deepcopy(want)
        objects = {'u': lib.pyuff.UFF(path), 'v': lib.pyuff.UFF(path)}
        for i in range(depth):
            op = ctx.choose('read %d' % i, ops)
            who, what, h = op
            u = lib.pyuff.UFF(path) if who == 'new' else objects[who]
            ctx.op()
            if what in (3, [0, -1]):
                ctx.check(lib.refused(u.read_sets, what), '%r is answered', op)
                continue
            got = u.read_sets(what) if not h else u.read_sets(what, header_only=True)
            which = list(range(3)) if what is None else what if isinstance(what, list) else [what]
            lst = H.as_list(got)
            ctx.check(len(lst) == len(which), '%r returned %d sets', op, len(lst))
            for k, g in zip(which, lst):
                ctx.check(H.same(g, want[h][k]), 'read %d, %r: set %d%s', i, op, k, '' if H.same(g, want[h][k]) else H.first_difference(g, want[h][k]))
            spoil(got)
        model.check_info(ctx, objects['u'], 'after the reads: ')
        for h in (False, True):
            for k, g in enumerate(objects['u'].read_sets(header_only=h)):
                ctx.check(H.same(g, want[h][k]), 'after the reads: set %d%s', k, '' if H.same(g, want[h][k]) else H.first_difference(g, want[h][k]))
        untouched(ctx, path, raw)
        ctx.observe(raw, repr(op))
    return Suite('sequences', driver, rule='all sequences of reads, what is returned spoilt after each')


def pairs(tier):
    """Every kind read before every other."""
    menu = [H.Kind(x) for x in sets.menu(2)] + [H.Kind(('2412 b', sets.TYPES[2412], H.mark(sets.TYPES[2412], sets.TYPES[2412].base(), 5)))]

    def driver(ctx):
        kinds = [ctx.choose('kind %d' % k, menu) for k in range(2 if tier == 'quick' else 3)]
        path = ctx.file()
        parts = []
        for k, (_, t, m) in enumerate(kinds):
            p = ctx.file('%d.uff' % k)
            lib.write(p, t.dset(H.mark(t, m, k)), 'overwrite', False)
            parts.append(p)
        raw = b''.join(lib.data_of(p) for p in parts)
        alone = [copy.deepcopy(lib.read(p)) for p in parts]
        for p in parts:
            os.remove(p)
        lib.put(path, raw)
        os.utime(path, ns=(STAMP, STAMP))
        u = lib.pyuff.UFF(path)
        order = ctx.choose('order', [[0, 1, 0], [1, 0, 1], 'all'] if len(kinds) == 2 else [[2, 0, 1, 2], 'all'])
        first = None
        for k in order if order != 'all' else [None, None]:
            got = u.read_sets(k)
            ctx.op()
            for j, g in enumerate(got if k is None else [got]):
                j = j if k is None else k
                ctx.check(H.same(g, alone[j]), 'set %d read together with others differs from reading it alone%s', j, '' if H.same(g, alone[j]) else H.first_difference(g, alone[j]))
            if first is None:
                first, kept = got, copy.deepcopy(got)
        ctx.check(H.same(first, kept), 'what was returned first was changed by later reads%s', '' if H.same(first, kept) else H.first_difference(first, kept))
        spoil(first)
        again = u.read_sets()
        for j, g in enumerate(again):
            ctx.check(H.same(g, alone[j]), 'set %d after altering what was returned%s', j, '' if H.same(g, alone[j]) else H.first_difference(g, alone[j]))
        untouched(ctx, path, raw)
        ctx.observe(raw)
    return Suite('pairs', driver, rule='every ordered pair (thorough: triple) of kinds in one file and in the orders of reading')


def lists(tier):
    """Every list of indices, the list of the caller unchanged."""
    names = ['151', '58(False, True, False, True)', '82', '58(True, False, False, False)']

    def driver(ctx):
        how = ctx.choose('written by', ['pyuff', 'other'])
        path = ctx.file()
        raw, model = build(path, names, how)
        n = ctx.choose('indices', [0, 1, 2, 3, 4] + ([5] if tier != 'quick' else []))
        which = [ctx.choose('index', list(range(len(names)))) for _ in range(n)]
        h = ctx.choose('header_only', [False, True])
        alone = [copy.deepcopy(lib.pyuff.UFF(path).read_sets(k, header_only=h)) for k in range(len(names))]
        u = lib.pyuff.UFF(path)
        given = list(which)
        for turn in (1, 2):
            got = H.as_list(u.read_sets(given, header_only=h) if turn == 1 or not h else u.read_sets(given, h))
            ctx.op()
            ctx.check(given == which, 'the list of indices became %r', given)
            ctx.check(len(got) == n, '%d indices gave %d sets', n, len(got))
            for k, g in zip(which, got):
                ctx.check(H.same(g, alone[k]), 'set %d read in the list %s differs from reading it alone%s', k, which, '' if H.same(g, alone[k]) else H.first_difference(g, alone[k]))
            for i, a in enumerate(got):
                for b in got[i + 1:]:
                    ctx.check(a is not b, 'the list %s gives the same dictionary twice', which)
            if turn == 1 and len(got):
                spoil(got[0])
                for k, g in zip(which[1:], got[1:]):
                    ctx.check(H.same(g, alone[k]), 'altering the first set returned changed another')
        untouched(ctx, path, raw)
        ctx.observe(raw, which)
        ctx.note('%s %s' % (which, h))
    return Suite('lists', driver, rule='every list of up to 4 (thorough 5) indices, repeated ones included')


def big(tier):
    """Large sets and long files, read in several orders."""
    def driver(ctx):
        n = ctx.choose('points', [1, 400, 600, 1100, 4200, 9000] + ([40000] if tier != 'quick' else []))
        binary = ctx.choose('binary', [False, True])
        many = ctx.choose('sets', [2, 9, 17, 40])
        path = ctx.file()
        t = sets.TYPES[58]
        small = t.base((False, True, False, not binary), 2)
        m = t.fill(t.base((False, True, False, binary), n), n, [1.5, -2.25, 1024.0, 3.0, 0.0, -7.75e8])
        lib.write(path, [t.dset(H.mark(t, small if k % 4 else m, k)) for k in range(many)])
        raw = lib.data_of(path)
        os.utime(path, ns=(STAMP, STAMP))
        want = [lib.pyuff.UFF(path).read_sets(k) for k in range(many)]
        heads = [lib.pyuff.UFF(path).read_sets(k, header_only=True) for k in range(many)]
        model = H.Model([(t, sets.expect(t, H.mark(t, small if k % 4 else m, k))) for k in range(many)])
        for k in range(many):
            model.check_one(ctx, k, want[k])
        u = lib.pyuff.UFF(path)
        for order, h in ((range(many), False), (range(many - 1, -1, -1), True), (range(many - 1, -1, -1), False), ([0, 0, many - 1, 0], False)):
            for k in order:
                g = u.read_sets(k, header_only=h)
                w = heads[k] if h else want[k]
                ctx.op()
                ctx.check(H.same(g, w), 'set %d%s', k, '' if H.same(g, w) else H.first_difference(g, w))
                spoil(g)
        for g, w in zip(u.read_sets(), want):
            ctx.check(H.same(g, w), 'all sets: %s', '' if H.same(g, w) else H.first_difference(g, w))
        untouched(ctx, path, raw)
        ctx.note('%d points, %d sets' % (n, many))
    return Suite('big', driver, rule='sizes of sets x number of sets x orders of reading')


def suites(tier):
    return [sequences(tier), pairs(tier), lists(tier), big(tier)]
