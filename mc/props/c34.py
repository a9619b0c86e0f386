"""C34: which set types are stored and read, and what an object says of its file."""
import copy
import itertools
import os

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite
from ..layout import Enc
from .c16 import alone

BOUND = {'quick': 'every type number from -10 to 3000, every power of two and ten and their neighbours up to 10 ** 9, the numbers near the supported ones, 16 types that are no whole numbers, written in 2 modes after 4 contents and read '
                  'in 3 ways; every supported type; every history of 4 of 9 operations, from an absent, filled, foreign or empty file, with all queries after each; 5 ways to know nothing of the file x 5 contents x every order of up to 3 of 7 questions',
         'thorough': 'every type number up to 100000, histories of 5'}
ASSUMPTIONS = ['an unsupported type in overwrite mode may leave the file empty, and adding one to a missing file may make an empty one']

T = sets.TYPES
SUPPORTED = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
NUMBERS = [int(x) for x in SUPPORTED if x.isdigit()]
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}


def numbers(tier):
    out = set(range(-10, 3001 if tier == 'quick' else 100001))
    for b in (2, 10):
        for e in range(1, 30):
            out |= {b ** e + d for d in (-1, 0, 1) if b ** e <= 10 ** 9}
    for n in NUMBERS:
        out |= {int('%d%d' % (n, d)) for d in range(10)} | {int('%d%d' % (d, n)) for d in range(1, 10)} | {10 * n, n * 100, n + 2 ** 16, n + 2 ** 32, -n}
    return sorted(out - set(NUMBERS))


class Odd:
    def __init__(self, name, v):
        self.name, self.v = name, v

    def __repr__(self):
        return self.name


ODD = [Odd(repr(x), x) for x in ('58', '15', '58b', ' 58', '', 'text', 58.5, 15.000001, None, (58,), 1j, b'58', float('inf'), 1e300, -58.0, 58 + 1j)]


def contents():
    a = T[151].block(NAMED['151'][2], Enc()).encode()
    b = T[58].block58b(NAMED['58(False, True, False, True)'][2])
    return [H.Kind(('a set', a)), H.Kind(('absent', None)), H.Kind(('sets', a + b)), H.Kind(('no line end', a.rstrip(b'\n')))]


CONTENTS = contents()
# the fields of every kind at once
FIELDS = {}
for _, _t, _m in KINDS:
    for _k, _v in _t.dset(_m).items():
        FIELDS.setdefault(_k, _v)


def ignored(tier):
    ns = numbers(tier)

    def driver(ctx):
        number = ctx.choose('type', ns + ODD)
        c = ctx.choose('content', CONTENTS[:2] if tier == 'quick' and not isinstance(number, Odd) and number > 200 else CONTENTS)
        d = {'type': number.v if isinstance(number, Odd) else number}
        if ctx.choose('fields', ['none', 'of every set']) == 'of every set':
            d = dict(copy.deepcopy(FIELDS), **d)
        path = ctx.file()
        if c[1] is not None:
            lib.put(path, c[1])
        u = lib.pyuff.UFF(path)
        n, types = u.get_n_sets(), list(u.get_set_types())
        was = dict(d)
        try:
            u.write_sets(d, 'add')
        except Exception:
            ctx.check(isinstance(number, Odd), 'adding a set of type %s is an error', number)
        raw = lib.data_of(path) if os.path.exists(path) else None
        ctx.check(raw == c[1] or (c[1] is None and raw == b''), 'a set of type %s was stored: %r', number, (raw or b'')[len(c[1] or b''):][:80])
        ctx.check(u.get_n_sets() == n and list(u.get_set_types()) == types, 'a set of type %s changed the sets', number)
        ctx.check(d['type'] is was['type'], 'the type became %r', d['type'])
        ctx.op()
        # in a list it does not keep the others from being stored
        good = NAMED['164'][1].dset(NAMED['164'][2])
        new = alone(ctx, good)
        if not isinstance(number, Odd):
            u.write_sets([{'type': number}, good, {'type': number}], 'overwrite')
            ctx.check(lib.data_of(path) == new, 'in a list with type %s: %d bytes, expected %d', number, len(lib.data_of(path)), len(new))
        ctx.observe(repr(number), c[0])
    return Suite('ignored', driver, rule='every type number x content')


def read(tier):
    ns = [n for n in numbers(tier) if n != -1 and len('%d' % n) <= 6]

    def driver(ctx):
        n = ctx.choose('type', ns)
        body = ctx.choose('body', [b'', b'some text\n' * 3] + ([b''.join(x.encode() + b'\n' for x in NAMED['15'][1].block(NAMED['15'][2], Enc()).split('\n')[2:-2])] if n < 200 else []))
        place = ctx.choose('place', [0, 1])
        form = ctx.choose('number', [b'%6d', b'%6d' + b' ' * 74])
        block = b'    -1\n' + form % n + b'\n' + body + b'    -1\n'
        good = CONTENTS[0][1]
        path = ctx.file()
        lib.put(path, good + block if place else block + good)
        u = lib.pyuff.UFF(path)
        types = [int(x) for x in u.get_set_types()]
        ctx.check(types == ([151, n] if place else [n, 151]), 'types %s, expected %d in place %d', types, n, place)
        ctx.check([int(x) for x in u.get_set_formats()] == [0, 0], 'formats %s', u.get_set_formats())
        for got in (u.read_sets(place), u.read_sets()[place], u.read_sets(place, header_only=True)):
            ctx.check(isinstance(got, dict) and list(got) == ['type'] and int(got['type']) == n, 'a set of type %d is read as %r', n, got)
        r = sets.compare(T[151], NAMED['151'][2], u.read_sets(1 - place))
        ctx.check(r is None, 'the other set: %s', r)
        ctx.op(5)
        ctx.observe(n, place, body)
    return Suite('read', driver, rule='every type number x body x place')


def supported(ctx):
    """Every listed type is stored, reported and read."""
    label, t, m = ctx.choose('set', KINDS)
    path = ctx.file()
    form = ctx.choose('type as', [int, np.int64, np.int32, float, np.float64, np.uint16])
    d = t.dset(m)
    d['type'] = form(t.num)
    u = lib.pyuff.UFF(path)
    names = u.get_supported_sets()
    ctx.check(sorted(names) == sorted(SUPPORTED), 'supported sets are %s', names)
    u.write_sets(d, ctx.choose('mode', ['add', 'overwrite']))
    ctx.check(u.get_n_sets() == 1 and int(u.get_set_types()[0]) == t.num, '%s is stored as %s', label, list(u.get_set_types()))
    r = sets.compare(t, sets.expect(t, m), u.read_sets(0))
    ctx.check(r is None, 'read back: %s', r)
    ctx.check(lib.data_of(path) == alone(ctx, t.dset(m)), 'the form of the type changes the file')
    ctx.op(3)
    ctx.observe(label, form.__name__)


OPS = ['add', 'add binary', 'overwrite', 'unsupported', 'rejected', 'read', 'read fails', 'refresh', 'deleted', 'other object adds']


def queries(tier):
    def driver(ctx):
        path = ctx.file()
        first = ctx.choose('file', ['absent', 'a set', 'text', 'empty'])
        if first != 'absent':
            lib.put(path, {'a set': CONTENTS[0][1], 'text': b'some text\n', 'empty': b''}[first])
        u = lib.pyuff.UFF(**{ctx.choose('by', ['filename', 'fileName'] if first == 'a set' else ['filename']): path})
        # what the object may know: the sets at the last look
        there = os.path.exists(path)
        status = there
        ctx.check(u.get_status() is there, 'status %r when made, the file %s', u.get_status(), 'exists' if there else 'is absent')
        done = []
        for i in range((4 if first in ('absent', 'a set') else 3) if tier == 'quick' else 5):
            op = ctx.choose('operation', OPS)
            done.append(op)
            if op == 'add':
                u.write_sets(NAMED['164'][1].dset(NAMED['164'][2]), 'add')
                status = True
            elif op == 'add binary':
                u.write_sets(NAMED['58(False, True, False, True)'][1].dset(NAMED['58(False, True, False, True)'][2]), 'add')
                status = True
            elif op == 'overwrite':
                u.write_sets(NAMED['82'][1].dset(NAMED['82'][2]), 'overwrite')
                status = True
            elif op == 'unsupported':
                u.write_sets({'type': 9999}, 'add')
                status = None           # not said for a file that is absent
            elif op == 'rejected':
                ctx.check(lib.refused(u.write_sets, {'type': 151}), 'an incomplete set is stored')
                status = None
            elif op == 'read':
                if not lib.refused(u.read_sets):
                    ctx.check(os.path.exists(path), 'sets are read from an absent file')
                    status = None
                else:
                    status = None
            elif op == 'read fails':
                ctx.check(lib.refused(u.read_sets, 99), 'set 99 is read')
                status = None
            elif op == 'refresh':
                r = u.refresh()
                status = os.path.exists(path)
                ctx.check(r is status, 'refresh returned %r, the file %s', r, 'exists' if status else 'is absent')
            elif op == 'deleted':
                if os.path.exists(path):
                    os.remove(path)
                status = None
            else:
                lib.write(path, NAMED['151'][1].dset(NAMED['151'][2]), 'add')
                status = None
            there = os.path.exists(path)
            ctx.check(u.file_exists() is there, '%s: file_exists %r', done, u.file_exists())
            ctx.check(u.get_file_name() == path, '%s: get_file_name %r', done, u.get_file_name())
            ctx.check(sorted(u.get_supported_sets()) == sorted(SUPPORTED), 'supported sets are %s', u.get_supported_sets())
            s = u.get_status()
            ctx.check(s is True or s is False, '%s: status %r', done, s)
            if status is not None:
                ctx.check(s is status, '%s: status %r, expected %r', done, s, status)
            n = u.get_n_sets()
            ctx.check(n == len(u.get_set_types()) == len(u.get_set_formats()), '%s: %r sets, types %s, formats %s', done, n, u.get_set_types(), u.get_set_formats())
            if there:
                # a query brings the status up to date
                ctx.check(u.get_status() is True, '%s: status %r after the queries', done, u.get_status())
            if op in ('add', 'add binary', 'overwrite', 'refresh', 'unsupported'):
                now = lib.pyuff.UFF(path)
                ctx.check(n == now.get_n_sets() and list(u.get_set_types()) == list(now.get_set_types()), '%s: %r sets, a new object finds %r', done, n, now.get_n_sets())
            ctx.op(7)
        ctx.observe(done)
        ctx.note('%s' % done)
    return Suite('queries', driver, rule='every history with all queries after each operation')


ASKS = {'n_sets': lambda u: u.get_n_sets(), 'types': lambda u: [int(x) for x in u.get_set_types()], 'formats': lambda u: [int(x) for x in u.get_set_formats()], 'read': lambda u: u.read_sets(), 'read first': lambda u: u.read_sets(0),
        'header': lambda u: u.read_sets(0, header_only=True), 'read list': lambda u: u.read_sets([0])}
WAYS = ['absent at first', 'deleted and refreshed', 'a folder when refreshed', 'written by another object', 'copied over']


def first_query(tier):
    """An object that has not seen the file yet, asked in every order."""
    def driver(ctx):
        way = ctx.choose('way', WAYS)
        c = ctx.choose('content', [x for x in CONTENTS if x[1] is not None] + [H.Kind(('empty', b'')), H.Kind(('text', b'some text\n'))])
        asks = list(ctx.choose('questions', [x for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)) for x in itertools.permutations(ASKS, n)]))
        path = ctx.file()
        if way in ('deleted and refreshed', 'a folder when refreshed'):
            lib.put(path, CONTENTS[2][1] * 2)
        u = lib.pyuff.UFF(path)
        if way == 'deleted and refreshed':
            os.remove(path)
            ctx.check(u.refresh() is False, 'refresh of an absent file returns something else')
        elif way == 'a folder when refreshed':
            os.remove(path)
            os.mkdir(path)
            ctx.check(lib.refused(u.refresh), 'a folder is refreshed')
            os.rmdir(path)
        if way == 'written by another object':
            for d in ([NAMED['164'][1].dset(NAMED['164'][2])] if c[0] == 'a set' else [NAMED['82'][1].dset(NAMED['82'][2]), NAMED['58(False, True, False, True)'][1].dset(NAMED['58(False, True, False, True)'][2])]):
                lib.pyuff.UFF(path).write_sets(d, 'add')
        elif way == 'copied over':
            lib.put(path + 'x', c[1])
            os.replace(path + 'x', path)
        else:
            lib.put(path, c[1])
        fresh = lib.pyuff.UFF(path)
        for a in asks:
            want, got = [], []
            for v, out in ((fresh, want), (u, got)):
                try:
                    out.append(ASKS[a](v))
                except Exception:
                    out.append('error')
            ctx.check(H.same(got, want), '%s, %s, asked %s: %.100r, a new object says %.100r', way, c[0], asks[:asks.index(a) + 1], got, want)
        ctx.check(u.get_status() is True, '%s: status %r after %s', way, u.get_status(), asks)
        ctx.op(len(asks))
        ctx.observe(way, c[0], asks)
    return Suite('first query', driver, rule='way the object came to know nothing of the file x content x every order of up to 3 questions')


def suites(tier):
    return [first_query(tier), ignored(tier), read(tier), Suite('supported', supported, rule='every supported kind x form of the type'), queries(tier)]
