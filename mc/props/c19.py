"""C19: prepare_* functions return the fields they were given."""
import copy

import numpy as np

from .. import alpha, history as H, lib, prep, sets
from ..engine import Suite
from ..roundtrip import deviate_header
from .c12 import text_diff

BOUND = {'quick': 'every function: every argument at every value alone, with all others and left out of all others; every pair of arguments; both settings of return_full_dict; '
                  'every set made by prepare_* written and read back, every header field at its alphabet, counts up to 9',
         'thorough': 'triples of arguments, pairs of header fields, all counts of C03-C09'}
ASSUMPTIONS = ['names of arguments and fields are those of the documentation']
T = sets.TYPES
CODED = {(f.type, a): list(k[1:]) for f in prep.FUNCTIONS for a, k in f.args.items() if k[0] == 'code' and f.type != 58}
CODED[58, 'rsp_dir'] = CODED[58, 'ref_dir'] = list(range(-6, 7))
for _a in prep.AXES:
    CODED[58, _a + '_spec_data_type'] = list(range(21))


def same(a, b):
    return a is b or H.same(a, b)


def judge(ctx, f, given, full):
    """given: {argument: Value}"""
    args = {k: v.make() for k, v in given.items()}
    passed = copy.deepcopy(args)
    kw = {} if full is None else {'return_full_dict': full}
    d = f.f(**passed, **kw)
    ctx.op()
    ctx.check(isinstance(d, dict), '%s returned %r', f, d)
    if f.type is not None:
        ctx.check(d.get('type') == f.type, '%s: the type is %r', f, d.get('type'))
    for k, v in args.items():
        ctx.check(k in d, '%s(%s): %s is missing', f, given, k)
        ctx.check(same(d[k], v), '%s(%s): %s is %r', f, given, k, d[k])
    for k in set(f.args) - set(args):
        auto = k.startswith('active')
        ctx.check((k in d) if full else (auto or k not in d), '%s(%s), return_full_dict=%s: %s is %s', f, given, full, k, 'missing' if full else 'present')
        if k in d:
            ctx.check(d[k] == 0 if auto else d[k] is None, '%s(%s): %s was not given and is %r', f, given, k, d[k])
    extra = set(d) - set(f.args) - {'type'}
    ctx.check(not extra, '%s(%s): unexpected fields %s', f, given, extra)
    ctx.observe(f.name, sorted(d), full)
    return d


def fields(tier):
    def driver(ctx):
        f = ctx.choose('function', prep.FUNCTIONS)
        full = ctx.choose('return_full_dict', [None, False, True])
        base = {a: f.good(a)[0] for a in f.args if a in f.needed}
        ctx.note('%s, full %s' % (f, full))
        how = ctx.choose('given', ['none', 'one', 'all', 'all but one', 'pair'] + (['triple'] if tier != 'quick' else []))
        names = list(f.args)
        if how == 'one' or how == 'all':
            a = ctx.choose('argument', names)
            v = ctx.choose('value', f.good(a))
            if how == 'all':
                base = {b: f.good(b)[0] for b in names}
            base[a] = v
        elif how == 'all but one':
            a = ctx.choose('argument', [x for x in names if x not in f.needed] or names)
            base = {b: f.good(b)[0] for b in names if b != a or b in f.needed}
        elif how in ('pair', 'triple'):
            k = -1
            forms = ctx.choose('forms', [(0, 0), (1, 1), (-1, -1), (0, -1), (-1, 0)])
            for i in range(2 if how == 'pair' else 3):
                left = list(range(k + 1, len(names)))
                if not left:
                    return
                k = ctx.choose('argument', left)
                opts = f.good(names[k])
                base[names[k]] = opts[forms[i % 2] % len(opts)]
        judge(ctx, f, base, full)
    return Suite('fields', driver, rule='every argument alone, with all, left out, and every pair')


def groups(ctx):
    """The group functions and prepare_2429/2467."""
    num = ctx.choose('type', [2429, 2467])
    n = ctx.choose('groups', [0, 1, 2, 3])
    full = ctx.choose('full', [None, False, True])
    make = prep.Function('prepare_group' if num == 2429 else 'prepare_group of 2467')
    gs = []
    for k in range(n):
        g = prep.group(k + 1, num == 2467)
        if ctx.choose('made by', ['prepare_group', 'hand']) == 'prepare_group':
            g = make.f(**g)
        gs.append(g)
    was = copy.deepcopy(gs)
    kw = {} if full is None else {'return_full_dict': full}
    d = getattr(lib.pyuff, 'prepare_%d' % num)(gs, **kw)
    ctx.check(d['type'] == num and same(d['groups'], was) and set(d) == {'type', 'groups'}, 'prepare_%d returned %r for %r', num, d, was)
    ctx.check(same(gs, was), 'the groups were changed to %r', gs)
    path = ctx.file()
    if n:
        lib.write(path, d)
        got = lib.read(path)
        m = {'groups': was}
        r = sets.compare(T[num], m, got)
        ctx.check(r is None, 'read back: %s', r)
    ctx.op(2)
    ctx.observe(num, n, full)


def arguments(f, d):
    """The arguments that make the set d, and the fields prepare has no argument for."""
    given = {k: v for k, v in d.items() if k in f.args}
    rest = {k: v for k, v in d.items() if k not in f.args and k != 'type'}
    if f.type == 151:
        for k in ('date', 'time'):
            given['%s_db_written' % k] = rest.pop('%s_file_written' % k)
    return given, rest


def typed(f, given):
    """Values as the functions want them (python floats are refused where arrays of them are meant, and so on)."""
    out = {}
    for k, v in given.items():
        kind = f.args[k][0]
        if kind == 'real':
            v = float(v)
        elif kind == 'num' and not isinstance(v, str):
            v = np.array(v, float) if np.ndim(v) else float(v)
        out[k] = v
    return out


def stored(tier):
    kinds = [k for k in H.models(H.EVERY if tier != 'quick' else H.ALL + [a for a in H.EVERY if a[0] != 58 and a not in H.ALL]) if not (k[1].num == 2412 or (k[1].num == 2414 and k[2]['variant'][0] != 'freq'))]

    def driver(ctx):
        label, t, m = ctx.choose('set', kinds)
        if t.array:
            n = ctx.choose('count', [1, 2, 3, 6, 7, 8, 9] + ([5, 10, 11, 16, 17, 25] if tier != 'quick' else []))
            m = t.base(m['variant'], n) if 'variant' in m else t.base(n=n)
        else:
            m = dict(m)
        if t.num not in (2429, 2467):
            m = deviate_header(ctx, t, m, tier != 'quick', CODED)
        f = prep.Function('prepare_%d' % t.num) if t.num not in (2429, 2467) else None
        d = t.dset(m)
        if f:
            given, rest = arguments(f, d)
            full = ctx.choose('full', [False, True]) if t.num != 55 and not rest else False
            p = f.f(**typed(f, given), return_full_dict=full)
            if t.num == 58:
                p = {k: v for k, v in p.items() if v is not None}
            p.update(rest)
            for k, v in list(p.items()):
                if v is None:
                    del p[k]
        else:
            p = getattr(lib.pyuff, 'prepare_%d' % t.num)(d['groups'])
        path = ctx.file()
        lib.write(path, p)
        r = sets.compare(t, sets.expect(t, m, True), lib.read(path))
        ctx.check(r is None, 'prepared, written and read back: %s', r)
        raw = lib.data_of(path)
        lib.write(path, d)
        if lib.data_of(path) != raw:
            ctx.fail('the prepared set is stored differently from the same set made by hand:\n%s' % text_diff(raw, lib.data_of(path)))
        ctx.op(3)
        ctx.observe(raw)
        ctx.note('%s made by prepare' % label)
    return Suite('stored', driver, bound=1 if tier == 'quick' else 2, window=None if tier == 'quick' else 2, rule='every kind and count made by prepare; every header field at every value')


def elements(ctx):
    """prepare_2412 as its documentation uses it."""
    fe, n = ctx.choose('element', [(44, 4), (94, 4), (41, 3), (91, 3), (118, 10), (115, 8), (21, 2), (11, 2)])
    count = ctx.choose('elements', [1, 2, 3, 7])
    form = ctx.choose('form', [np.array, list])
    given = {'element_nums': [7 + 3 * k for k in range(count)], 'fe_descriptor': [fe] * count, 'phys_table': [2 + k for k in range(count)], 'mat_table': [30 + k for k in range(count)],
             'color': [k % 16 for k in range(count)], 'num_nodes': [n] * count, 'nodes_nums': [[10 * k + j + 1 for j in range(n)] for k in range(count)]}
    if fe in sets.BEAMS:
        given.update(beam_orientation=[41 + k for k in range(count)], beam_foreend_cross=[51 + k for k in range(count)], beam_aftend_cross=[61 + k for k in range(count)])
    m = {'elements': [{k: v[i] for k, v in given.items()} for i in range(count)]}
    args = {k: form(v) for k, v in given.items()}
    for k in ('color', 'num_nodes'):
        if ctx.choose(k, ['given', 'omitted']) == 'omitted':
            del args[k]
            if k == 'color':
                for el in m['elements']:
                    el['color'] = 0
    d = lib.pyuff.prepare_2412(**args)
    path = ctx.file()
    lib.write(path, d)
    r = sets.compare(T[2412], m, lib.read(path))
    ctx.check(r is None, 'read back: %s', r)
    ctx.op(3)
    ctx.observe(lib.data_of(path))


def independent(ctx):
    """What one call returns does not change with later calls or with changes to earlier results."""
    f = ctx.choose('function', prep.FUNCTIONS)
    g = ctx.choose('other', prep.FUNCTIONS)
    full = ctx.choose('full', [False, True])
    from .c15 import spoil
    args = {a: f.good(a)[0].make() for a in f.args}
    first = f.f(**copy.deepcopy(args), return_full_dict=full)
    want = copy.deepcopy(first)
    other = g.f(**{a: g.good(a)[-1].make() for a in g.args}, return_full_dict=True)
    ctx.check(same(first, want), 'a later call of %s changed what %s had returned', g, f)
    spoil(other)
    spoil(first)
    again = f.f(**copy.deepcopy(args), return_full_dict=full)
    ctx.check(same(again, want), '%s returns something else the second time: %s', f, '' if same(again, want) else H.first_difference(want, again))
    ctx.op(3)
    ctx.observe(f.name, g.name)


def suites(tier):
    return [fields(tier), stored(tier), Suite('groups', groups, rule='numbers of groups x how they were made'), Suite('elements', elements, rule='element kinds x counts x forms'),
            Suite('independent', independent, rule='every ordered pair of functions')]
