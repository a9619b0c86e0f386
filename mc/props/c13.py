"""C13: rejected sets."""
import copy
import os

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'every field of every kind missing or of 14 wrong values, nested ones included, in 2 histories x add/overwrite; all sequences of 3 calls with rejected ones',
         'thorough': 'the same in 6 histories, pairs of defects in neighbouring fields; sequences of 4 calls'}
ASSUMPTIONS = ['a write call that does not raise is judged by the other properties, not by this one']

T = sets.TYPES


class Text:
    """An object without any behaviour."""

    def __repr__(self):
        return 'object'


BAD = [('None', None), ('text', 'text'), ('empty text', ''), ('object', Text()), ('number', 3.5), ('integer', 7), ('empty list', []), ('list', ['a', 'b']),
       ('dict', {}), ('complex', 1 + 2j), ('huge', 10 ** 30), ('nan', float('nan')), ('inf', float('inf')), ('array', np.arange(2.0))]


def places(d):
    """Every place of a set that can be wrong: paths of keys and indices."""
    out = []

    def walk(v, path):
        out.append(path)
        if isinstance(v, dict):
            for k in v:
                walk(v[k], path + (k,))
        elif isinstance(v, (list, tuple)) and v and len(path) < 4:
            walk(v[0], path + (0,))
            if len(v) > 1:
                walk(v[-1], path + (len(v) - 1,))
    for k in d:
        if k != 'type':
            walk(d[k], (k,))
    return out


def spoil(d, path, what, value=None):
    """Removes or replaces what is at path; False if that is not possible."""
    v = d
    for p in path[:-1]:
        v = v[p]
    try:
        if what == 'missing':
            del v[path[-1]]
        elif what == 'shorter':
            v[path[-1]] = v[path[-1]][:-1]
        else:
            v[path[-1]] = copy.copy(value)
    except (TypeError, ValueError, IndexError, KeyError):
        return False
    return True


KINDS = H.models(H.ALL)
GOOD = H.models([(151, None, None), (58, (False, True, False, True), 2), (82, None, 9)])
HISTORIES = ['absent', 'two sets', 'no newline', 'empty', 'foreign', 'text']


def start(ctx, how):
    path = ctx.file()
    model = H.Model()
    if how == 'two sets' or how == 'no newline':
        for k in (1, 2) if how == 'two sets' else (0,):
            _, t, m = GOOD[k]
            lib.pyuff.UFF(path).write_sets(t.dset(m), 'add')
            model.entries.append((t, sets.expect(t, m)))
        if how == 'no newline':
            lib.put(path, lib.data_of(path).rstrip(b'\n'))
    elif how == 'empty':
        lib.put(path, b'')
    elif how == 'text':
        lib.put(path, b'no sets at all')
    elif how == 'foreign':
        lib.put(path, b'    -1\r\n   781\r\n         1\r\n    -1\r\n')
        model.entries.append((781, None))
    return path, model


def state(path):
    return lib.data_of(path) if os.path.exists(path) else None


def after(ctx, path, u, model, before):
    """The property for a call that raised."""
    now = state(path)
    ctx.op()
    ctx.check(now == before, 'the rejected call left %s in the file, before it %s', 'nothing' if now is None else repr(now[-200:]), 'absent' if before is None else '%d bytes' % len(before))
    if before is not None:
        model.check_info(ctx, u, 'after the rejected call: ')
        model.check_all(ctx, u, 'after the rejected call: ')
    else:
        ctx.check(lib.refused(u.read_sets), 'after the rejected call read_sets answers for an absent file')
    _, t, m = GOOD[0]
    good = H.mark(t, m, 9)
    u.write_sets(t.dset(good), 'add')
    other = ctx.file('other.uff')
    if before is not None:
        lib.put(other, before)
    lib.pyuff.UFF(other).write_sets(t.dset(good), 'add')
    ctx.check(lib.data_of(path) == lib.data_of(other), 'a valid write after the rejected one stores something else')
    model.entries.append((t, good))
    model.check_all(ctx, u, 'a valid write after the rejected one: ')


def defects(tier):
    deep = tier != 'quick'

    def driver(ctx):
        label, t, m = ctx.choose('set', KINDS)
        d = copy.deepcopy(t.dset(m))
        where = ctx.choose('place', places(d))
        what, value = ctx.choose('defect', [('missing', None), ('shorter', None)] + BAD)
        if not spoil(d, where, what, value):
            return
        path, model = start(ctx, ctx.choose('history', HISTORIES if deep else HISTORIES[:2]))
        mode = ctx.choose('mode', ['add', 'overwrite'])
        fd = ctx.choose('force_double', [True, False] if t.num == 58 and deep else [True])
        u = lib.pyuff.UFF(path)
        before = state(path)
        ctx.op()
        if not lib.refused(u.write_sets, d, mode, fd):
            ctx.nontrivial = False
            return
        ctx.observe(label, where, what, mode)
        ctx.note('%s, %s %s, %s' % (label, where, what, mode))
        after(ctx, path, u, model, before)
    return [Suite('defects', driver, rule='every field of every kind missing, shortened or replaced by every wrong value x history x mode')]


def pairs(tier):
    """Two fields wrong at once: the writer may stop at either."""
    def driver(ctx):
        label, t, m = ctx.choose('set', KINDS)
        d = copy.deepcopy(t.dset(m))
        keys = [k for k in d if k != 'type']
        i = ctx.choose('first', list(range(len(keys))))
        j = ctx.choose('second', list(range(i)))
        for k in (keys[i], keys[j]):
            spoil(d, (k,), *ctx.choose('defect', [('missing', None), ('text', 'text'), ('None', None)]))
        path, model = start(ctx, 'two sets')
        u = lib.pyuff.UFF(path)
        before = state(path)
        if not lib.refused(u.write_sets, d, ctx.choose('mode', ['add', 'overwrite'])):
            return
        after(ctx, path, u, model, before)
    return [Suite('pairs', driver, rule='pairs of wrong fields')] if tier != 'quick' else []


NOT_SETS = [None, 'text', 5, {}, {'type': None}, {'Type': 58}, (), [[]], {'type': '58'}, {'type': 58}, {'type': 151}, {'type': 2412}]


def bad_calls(ctx):
    """Calls that are wrong as a whole."""
    path, model = start(ctx, ctx.choose('history', HISTORIES))
    u = lib.pyuff.UFF(path)
    what = ctx.choose('call', ['not a set', 'mode', 'no sets', 'not a set in a list'])
    _, t, m = GOOD[2]
    before = state(path)
    if what == 'mode':
        args = (t.dset(m), ctx.choose('mode', ['append', '', 'a', 'write', None, 5, 'overwrit']))
    elif what == 'no sets':
        args = ([], ctx.choose('mode', ['add', 'overwrite']))
    elif what == 'not a set':
        args = (ctx.choose('set', NOT_SETS), ctx.choose('mode', ['add', 'overwrite']))
    else:
        args = ([ctx.choose('set', NOT_SETS), t.dset(m)], ctx.choose('mode', ['add', 'overwrite']))
    ctx.op()
    if not lib.refused(u.write_sets, *args):
        return
    ctx.observe(before, repr(args)[:100])
    after(ctx, path, u, model, before)


def lists(tier):
    """Lists with a rejected set at every place."""
    def driver(ctx):
        path, model = start(ctx, ctx.choose('history', HISTORIES[:3]))
        n = ctx.choose('sets', [1, 2, 3, 4])
        bad = ctx.choose('bad', list(range(n)))
        label, t, m = ctx.choose('kind', KINDS)
        d = copy.deepcopy(t.dset(m))
        places_ = [k for k in d if k != 'type']
        spoil(d, (ctx.choose('key', [places_[0], places_[len(places_) // 2], places_[-1]]),), *ctx.choose('defect', [('missing', None), ('object', Text())]))
        mode = ctx.choose('mode', ['add', 'overwrite'])
        u = lib.pyuff.UFF(path)
        before = state(path)
        ds, stored = [], []
        for k in range(n):
            g = GOOD[k % 3]
            mk = H.mark(g[1], g[2], k)
            if k == bad:
                ds.append(d)
            else:
                ds.append(g[1].dset(mk))
            if k < bad:
                stored.append((g[1], sets.expect(g[1], mk)))
        ctx.op()
        if not lib.refused(u.write_sets, ds, mode):
            return
        if bad == 0:
            ctx.check(state(path) == before, 'a list whose first set is rejected changed the file')
        else:
            model.entries = (model.entries if mode == 'add' else []) + stored
        model.check(ctx, path, u, 'after the rejected list: ')
        before = state(path)
        ctx.observe(before or b'')
        after(ctx, path, u, model, before)

    def odd(ctx):
        """Members that are no sets at all."""
        path, model = start(ctx, ctx.choose('history', HISTORIES[:4]))
        n = ctx.choose('sets', [1, 2, 3, 4])
        bad = ctx.choose('bad', list(range(n)))
        what = ctx.choose('member', NOT_SETS + [{'node_nums': [1]}, {'type': [58]}, {'type': 58.5}, {'type': 10 ** 20}, {'type': -58}, [GOOD[2][1].dset(GOOD[2][2])], 0, True, b'text', {'TYPE': 82}, Text()])
        mode = ctx.choose('mode', ['add', 'overwrite'])
        two = ctx.choose('and the last', [False, True])
        u = lib.pyuff.UFF(path)
        before = state(path)
        ds, stored = [], []
        for k in range(n):
            g = GOOD[k % 3]
            mk = H.mark(g[1], g[2], k)
            ds.append(copy.deepcopy(what) if k == bad or two and k == n - 1 else g[1].dset(mk))
            if k < bad:
                stored.append((g[1], sets.expect(g[1], mk)))
        ctx.op()
        # each set is written on its own: would this one be rejected?
        alone = ctx.file('alone.uff')
        lib.put(alone, b'')
        if not lib.refused(lib.pyuff.UFF(alone).write_sets, [copy.deepcopy(what)]):
            return
        ctx.check(lib.refused(u.write_sets, ds, mode), 'a list with %r at place %d is accepted', what, bad)
        if bad == 0:
            ctx.check(state(path) == before, 'a list whose first set is rejected changed the file')
        else:
            model.entries = (model.entries if mode == 'add' else []) + stored
        model.check(ctx, path, u, 'after the rejected list: ')
        before = state(path)
        ctx.observe(before or b'', repr(what)[:60])
        after(ctx, path, u, model, before)
    return [Suite('lists', driver, rule='lists of up to four sets with a rejected one at every place'), Suite('lists-odd', odd, rule='lists of up to four members with one that is no set at every place')]


def sequences(tier):
    """Sequences of good and rejected calls through one object; the rejected ones must leave no trace."""
    good = [('add', k) for k in range(3)] + [('overwrite', k) for k in range(3)]
    bad = []
    for num in (58, 58.5, 55, 2414, 2412, 151):
        for mode in ('add', 'overwrite'):
            bad.append((mode, num))

    def broken(num):
        t = T[int(num)]
        v = {58: (False, True, False, False), 58.5: (True, False, False, True), 55: (5, True, 3), 2414: (1, False)}.get(num)
        m = t.base(v, 2) if v else t.base()
        d = copy.deepcopy(t.dset(m))
        if num in (58, 58.5):
            d['z_axis_axis_units_lab'] = 5
            d['z_axis_temp_unit_exp'] = 'text'
        elif num == 55:
            d['r3'] = d['r3'][:-1]
        elif num == 2414:
            d['data_at_node'] = d['data_at_node'][:-1]
        elif num == 2412:
            for k, v in d.items():
                if k != 'type':
                    v[-1].pop('nodes_nums')
        else:
            del d['program']
        return d

    def driver(ctx):
        u = lib.pyuff.UFF(ctx.file())
        ref = lib.pyuff.UFF(ctx.file('ref.uff'))
        raised = 0
        for k in range(3 if tier == 'quick' else 4):
            mode, what = ctx.choose('call %d' % k, good + bad)
            ctx.op()
            if (mode, what) in good:
                _, t, m = GOOD[what]
                m = H.mark(t, m, k)
                u.write_sets(t.dset(m), mode)
                ref.write_sets(t.dset(m), mode)
            else:
                before = state(ctx.file())
                if not lib.refused(u.write_sets, broken(what), mode):
                    return
                raised += 1
                ctx.check(state(ctx.file()) == before, 'rejected call %d changed the file', k)
        ctx.check(state(ctx.file()) == state(ctx.file('ref.uff')), 'the file differs from that of the sequence without the rejected calls')
        if state(ctx.file()) is not None:
            ctx.check(H.same(u.read_sets(), ref.read_sets()), 'reading differs from the sequence without the rejected calls')
        ctx.observe(state(ctx.file()) or b'', raised)
    return [Suite('sequences', driver, rule='all sequences of three (thorough four) good and rejected calls')]


def suites(tier):
    return defects(tier) + pairs(tier) + [Suite('calls', bad_calls, rule='wrong calls x histories')] + lists(tier) + sequences(tier)
