"""C18: omitted optional fields, and required ones."""
import copy
import os
import time

import numpy as np

from .. import alpha, history as H, lib, sets
from ..engine import Suite
from ..roundtrip import CODES, FIXED

BOUND = {'quick': 'per kind: all given but up to 2 optional fields, all omitted but up to 2 of them; every field at its alphabet with all other optional ones omitted; every required field and every pair missing; every kind again after the caller changed the first dictionary',
         'thorough': 'up to 3 fields; deeper alphabets; required fields missing in 5 histories'}
ASSUMPTIONS = ['the defaults are those of the writers\' documentation: NONE for texts of 55, 58 and 82, zero for numbers, model_type 1, method 1, temp_mode 1, Part_UID 1',
               'dates of 151 left out are the current local date and time']

T = sets.TYPES
KINDS = [k for k in H.models(H.EVERY)]
# defaults that are arrays of one value per entry
MORE = [k for n in (1, 3, 4, 5, 9, 33) for k in H.models([(15, None, n), (18, None, n), (2411, None, n), (2420, None, n)])]


def optional(t, m):
    """{key: default as the caller would give it}"""
    o = dict(getattr(t, 'optional', {}))
    if t.num == 55:
        o.update(t.opt_spec[m['variant'][0]])
    if t.num == 2414 and m['variant'][0] == 'freq':
        o = {}
    if t.num in (15, 18):
        n = len(next(iter(m.values())))
        o = {k: [v] * n for k, v in o.items()}
    if t.num == 58:
        o.pop('abscissa_spacing')
        o.pop('binary')
    return o


def with_default(t, m, key, value):
    """The model with the default."""
    m = dict(m)
    if t.num == 55 and key in ('modal_a', 'modal_b'):
        m[key + '_r'], m[key + '_i'] = 0.0, 0.0
    else:
        m[key] = value
    return m


def written(ctx, d, mode='overwrite', name='b.uff'):
    p = ctx.file(name)
    if os.path.exists(p):
        os.remove(p)
    lib.write(p, d, mode)
    return lib.data_of(p)


def judge(ctx, t, want, d, given):
    """d lacks fields; given has them at their defaults."""
    path = ctx.file()
    lib.write(path, d)
    raw = lib.data_of(path)
    ctx.op(3)
    r = sets.compare(t, sets.expect(t, want), lib.read(path))
    ctx.check(r is None, 'read back: %s', r)
    if given is not None:
        other = written(ctx, given)
        if raw != other:
            from .c12 import text_diff
            ctx.fail('the omitted field differs from the default given:\n%s' % text_diff(raw, other))
    ctx.observe(raw)


def omitted(tier):
    kinds = [k for k in KINDS + MORE if optional(k[1], k[2])]

    def driver(ctx):
        label, t, m = ctx.choose('set', kinds)
        opts = optional(t, m)
        most = ctx.choose('otherwise', ['given', 'omitted'])
        d = t.dset(m)
        given = copy.deepcopy(d)
        want = m
        for key in opts:
            gone = ctx.dev(key, [False, True]) != (most == 'omitted')
            if gone:
                d.pop(key, None)
                given[key] = copy.deepcopy(opts[key])
                want = with_default(t, want, key, opts[key])
        judge(ctx, t, want, d, given)
        ctx.note('%s, all %s but %s' % (label, most, [k for k in opts if (k in d) == (most == 'omitted')]))
    return [Suite('omitted', driver, bound=2 if tier == 'quick' else 3, window=None if tier == 'quick' else 8, rule='subsets of the optional fields')]


def honoured(tier):
    kinds = [k for k in KINDS if optional(k[1], k[2])]

    def driver(ctx):
        """One field, optional or required, at every value; all other optional ones omitted."""
        label, t, m = ctx.choose('set', kinds)
        opts = optional(t, m)
        head = {f[0]: f for f in t.header(m) if f[0] not in FIXED.get(t.num, ()) and not f[0].startswith('status_mask.') and (t.num, f[0]) != (2414, 'analysis_type')}
        key = ctx.choose('field', list(opts) + [k for k in head if k not in opts])
        want = m
        d = t.dset(m)
        if key in head:
            f = head[key]
            values = [m[key]] + (CODES.get((t.num, key)) or alpha.field(f, tier != 'quick'))
            want = dict(want)
            v = ctx.choose('value', values)
            want[key] = v
            d = t.dset(want)
        gone = [k for k in opts if k != key]
        if tier != 'quick':
            # one field omitted only, or all of them
            one = ctx.choose('omitted', ['all'] + gone)
            gone = gone if one == 'all' else [one]
        given = copy.deepcopy(d)
        for k in gone:
            d.pop(k, None)
            given[k] = copy.deepcopy(opts[k])
            want = with_default(t, want, k, opts[k])
        judge(ctx, t, want, d, given)
        ctx.note('%s, only %s given' % (label, key))
    return [Suite('honoured', driver, rule='every field at every value with all other optional fields omitted')]


def groups(tier):
    def driver(ctx):
        t = T[ctx.choose('set', [2429, 2467])]
        m = t.base(n=3)
        m['groups'] = [dict(g) for g in m['groups']] + [t.group(2, 0)]
        which = ctx.choose('group', [0, 1, 2, 'all'])
        most = ctx.choose('otherwise', ['given', 'omitted'])
        d = t.dset(m)
        given = copy.deepcopy(d)
        for k, g in enumerate(d['groups']):
            if which in (k, 'all'):
                for key in t.optional_group:
                    if ctx.dev(key, [False, True]) != (most == 'omitted'):
                        del g[key]
                        given['groups'][k][key] = 0
                        m['groups'][k][key] = 0
        judge(ctx, t, m, d, given)
    return [Suite('groups', driver, bound=2 if tier == 'quick' else 6, rule='subsets of the optional fields of groups')]


def special(ctx):
    """Defaults that are no header fields."""
    what = ctx.choose('what', ['58 binary', '58 spacing', '151 dates', '2412 color', '2412 num_nodes', '2420 types', '58 inc', '82 empty'])
    if what == '58 binary':
        v = ctx.choose('variant', [x for x in sets.VARIANTS[58] if not x[3] and not x[2]])
        m = T[58].base(v, ctx.choose('points', [1, 2, 5, 8]))
        d = T[58].dset(m)
        given = dict(copy.deepcopy(d), binary=0)
        del d['binary']
        judge(ctx, T[58], m, d, given)
    elif what == '58 spacing':
        v = ctx.choose('variant', [x for x in sets.VARIANTS[58] if not x[1] and not x[2]])
        m = T[58].base(v, ctx.choose('points', [1, 2, 5, 8]))
        d = T[58].dset(m)
        given = dict(copy.deepcopy(d), abscissa_spacing=0)
        del d['abscissa_spacing']
        judge(ctx, T[58], m, d, given)
    elif what == '58 inc':
        v = ctx.choose('variant', [x for x in sets.VARIANTS[58] if x[1] and not x[2]])
        m = T[58].base(v, 1)
        d = T[58].dset(m)
        del d['abscissa_inc']
        m['dx'] = 0.0
        judge(ctx, T[58], m, d, None)
    elif what == '151 dates':
        keys = ['date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written', 'time_file_written']
        m = T[151].base()
        gone = [k for k in keys if ctx.choose(k, ['given', 'omitted']) == 'omitted']
        d = {k: v for k, v in T[151].dset(m).items() if k not in gone}
        path = ctx.file()
        a = int(time.time())
        lib.write(path, d)
        b = int(time.time())
        got = lib.read(path)
        for k in keys:
            if k not in gone:
                ctx.check(got[k] == m[k], '%s is %r, given was %r', k, got[k], m[k])
            else:
                form = '%d-%b-%y' if k.startswith('date') else '%H:%M:%S'
                now = [time.strftime(form, time.localtime(s)) for s in range(a, b + 1)]
                ctx.check(got[k] in now, '%s is %r, now is %r', k, got[k], now)
        for k in m:
            ctx.check(k in keys or sets.diff({k: T[151].fields(m)[k]}, m, got) is None, '%s is %r', k, got[k])
        ctx.op(2)
        ctx.observe(sorted(gone))
    elif what in ('2412 color', '2412 num_nodes'):
        key = what.split()[1]
        fe, n = ctx.choose('element', [(44, 4), (41, 3), (118, 10), (91, 1)])
        count = ctx.choose('elements', [1, 2, 5])
        d = {'type': 2412, 'element_nums': [7 + 3 * k for k in range(count)], 'fe_descriptor': [fe] * count, 'phys_table': [2] * count, 'mat_table': [3] * count,
             'color': [0] * count, 'num_nodes': [n] * count, 'nodes_nums': [[10 * k + j + 1 for j in range(n)] for k in range(count)]}
        d = {k: np.array(v) if k != 'type' else v for k, v in d.items()}
        given = copy.deepcopy(d)
        del d[key]
        if ctx.choose('layout', ['plain', 'full']) == 'full':
            d[key] = None
        m = {'elements': [{'element_nums': 7 + 3 * k, 'fe_descriptor': fe, 'phys_table': 2, 'mat_table': 3, 'color': 0, 'num_nodes': n,
                           'nodes_nums': [10 * k + j + 1 for j in range(n)]} for k in range(count)]}
        judge(ctx, T[2412], m, d, given)
    elif what == '2420 types':
        m = T[2420].base(n=1)
        d = T[2420].dset(m)
        gone = ctx.choose('omitted', [['CS_types'], ['CS_colors'], ['CS_types', 'CS_colors']])
        for k in gone:
            del d[k]
        path = ctx.file()
        lib.write(path, d)
        got = lib.read(path)
        for k in gone:
            m[k] = {'CS_types': [0], 'CS_colors': [8]}[k]
        r = sets.compare(T[2420], m, got)
        ctx.check(r is None, 'read back: %s', r)
    else:
        m = T[82].fill(T[82].base(n=0), 0)
        d = T[82].dset(m)
        del d['id'], d['color']
        m.update(id='NONE', color=0)
        judge(ctx, T[82], m, d, None)


def spoil(v):
    """Changes in place what can be changed."""
    if isinstance(v, dict):
        for k in list(v):
            if not spoil(v[k]):
                v[k] = 77
    elif isinstance(v, list):
        for k in range(len(v)):
            if not spoil(v[k]):
                v[k] = 77
        v.append(77)
    elif isinstance(v, np.ndarray):
        v[...] = 77
    else:
        return False
    return True


def shared(tier):
    kinds = [k for k in KINDS + MORE if optional(k[1], k[2]) or k[1].num in (2412, 2420, 2429, 2467)]

    def driver(ctx):
        """What the caller does to a written set does not become the default of others."""
        label, t, m = ctx.choose('set', kinds)
        opts = list(optional(t, m)) + (['CS_types', 'CS_colors'] if t.num == 2420 and len(m['CS_types']) == 1 else [])

        def fresh():
            d = copy.deepcopy(t.dset(m))
            for k in opts:
                d.pop(k, None)
            for g in d.get('groups', []):
                for k in t.optional_group:
                    g.pop(k, None)
            return d
        if ctx.choose('sets of other kinds', ['none', 'before', 'between']) == 'none':
            other = None
        else:
            other = T[2420].dset(T[2420].base(n=2)) if t.num != 2420 else T[15].dset(T[15].base(n=2))
        d = fresh()
        raw = written(ctx, d)
        keep = ctx.choose('changed', ['what was added', 'all'])
        was = fresh()
        for k in list(d):
            if k != 'type' and (keep == 'all' or k not in was):
                if not spoil(d[k]):
                    d[k] = 77
        if other:
            written(ctx, other, name='c.uff')
        again = written(ctx, fresh())
        ctx.op(3)
        ctx.check(raw == again, 'the same set is stored in another way after the first one was changed')
        ctx.observe(raw)
        ctx.note(label)
    return [Suite('afterwards', driver, rule='every kind with its optional fields omitted, written again after the first one was changed by the caller')]


def required(t, m):
    r = t.required(m) if callable(getattr(t, 'required', None)) else getattr(t, 'required', [])
    return list(r)


def nested(t, d):
    """Places of required fields inside groups and elements."""
    if t.num in (2429, 2467):
        return [('groups', k, key) for k in range(len(d['groups'])) for key in ['group_number', 'group_name'] + t.ENT] + [('groups',)]
    if t.num == 2412:
        out = []
        for fe in d:
            if fe != 'type':
                for k, el in enumerate(d[fe]):
                    out += [(fe, k, key) for key in el]
        return out
    return []


def refused(tier):
    def driver(ctx):
        label, t, m = ctx.choose('set', KINDS)
        d = copy.deepcopy(t.dset(m))
        places = [(k,) for k in required(t, m)] + nested(t, d)
        if not places:
            return
        a = ctx.choose('missing', places)
        rest = [None] + [p for p in places if p != a and len(p) == len(a) and p[:-1] == a[:-1]]
        b = ctx.choose('and', rest if tier != 'quick' or len(places) < 12 else rest[:3])
        for p in (a, b):
            if p:
                v = d
                for x in p[:-1]:
                    v = v[x]
                if p[-1] not in v:
                    ctx.fail('harness: %r' % (p,))
                del v[p[-1]]
        drop = ctx.choose('optional fields', ['given', 'omitted'])
        if drop == 'omitted':
            for k in optional(t, m):
                d.pop(k, None)
        path = ctx.file()
        if ctx.choose('file', ['absent', 'with a set']) == 'with a set':
            lib.write(path, T[151].dset(T[151].base()))
        before = lib.data_of(path) if os.path.exists(path) else None
        mode = ctx.choose('mode', ['add', 'overwrite'])
        ctx.op()
        u = lib.pyuff.UFF(path)
        ctx.check(lib.refused(u.write_sets, d, mode), 'a set without %s %s is stored', a, b or '')
        ctx.check((lib.data_of(path) if os.path.exists(path) else None) == before, 'the refused set changed the file')
        ctx.observe(label, a, b)
        ctx.note('%s without %s %s' % (label, a, b or ''))
    return [Suite('required', driver, rule='every required field, and pairs of them, missing')]


def type_field(ctx):
    """The type itself is required."""
    label, t, m = ctx.choose('set', KINDS)
    d = t.dset(m)
    del d['type']
    u = lib.pyuff.UFF(ctx.file())
    ctx.op()
    ctx.check(lib.refused(u.write_sets, d, ctx.choose('mode', ['add', 'overwrite'])), 'a set without a type is stored')
    ctx.observe(label)


def suites(tier):
    return omitted(tier) + shared(tier) + honoured(tier) + groups(tier) + [Suite('special', special, rule='defaults of special fields')] + refused(tier) + [Suite('type', type_field, rule='sets without a type')]
