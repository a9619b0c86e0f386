"""C22: conversion of 2412 to 82."""
import copy

import numpy as np

from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'all lists of up to 4 sets over 13 kinds, built by hand and read from a file; lists of up to hundreds of sets and of sets that recur; single sets of up to 12 quads with all node patterns; forms of the node table',
         'thorough': 'lists of 5 over 13 kinds'}
ASSUMPTIONS = ["a set holds quads if it has the entry 'quad', as read_sets fills it for element descriptor 44"]

T = sets.TYPES


def elements(k, spec):
    """A 2412 set as written: spec is a string of q (quad), t (triangle), b (beam), l (rod), s (solid of 8 nodes), p (descriptor 94)."""
    kinds = {'q': (44, 4), 't': (41, 3), 'b': (21, 2), 'l': (11, 2), 's': (115, 8), 'p': (94, 4)}
    els = []
    for i, c in enumerate(spec):
        fe, n = kinds[c]
        els.append(T[2412].element(i, fe, n, [1000 * (k + 1) + 10 * i + j + 1 for j in range(n)]))
    return T[2412].dset({'elements': els}), [el['nodes_nums'] for el in els if el['fe_descriptor'] == 44]


SPECS = ['q', 'qq', 'qqq', 't', 'qt', 'tqtq', 'bql', 's', 'p', 'sqp']
FOREIGN = [82, 2411, 151]


def edges(nodes, ctx):
    """The edges a trace line draws."""
    out, last = [], 0
    for x in nodes:
        x = int(x)
        if x and last:
            out.append(frozenset((last, x)) if last != x else (x, x))
        last = x
    return out


def quad_edges(q):
    return [frozenset(p) if p[0] != p[1] else p for p in zip(q, list(q[1:]) + [q[0]])]


def judge(ctx, result, want, who=''):
    """want: per set with quads the list of quads."""
    ctx.check(isinstance(result, list), '%sthe result is %r', who, result)
    if any(not w for w in want):
        # a set whose list of quads is empty may give an empty trace line or none
        result = [r for r in result if len(r['nodes'])]
        want = [w for w in want if w]
    ctx.check(len(result) == len(want), '%s%d trace-line sets for %d sets with quads', who, len(result), len(want))
    for k, (r, quads) in enumerate(zip(result, want)):
        ctx.check(r.get('type') == 82, '%sset %d has type %r', who, k, r.get('type'))
        nodes = [int(x) for x in r['nodes']]
        ctx.check(r['n_nodes'] == len(nodes), '%sset %d: n_nodes is %r for %d nodes', who, k, r['n_nodes'], len(nodes))
        got = edges(nodes, ctx)
        ctx.check(len(got) == 4 * len(quads), '%sset %d draws %d edges for %d quads: %s', who, k, len(got), len(quads), nodes)
        for i, q in enumerate(quads):
            part = got[4 * i:4 * i + 4]
            ctx.check(sorted(map(sorted, part)) == sorted(map(sorted, quad_edges(q))), '%sset %d: the edges of quad %s are drawn as %s', who, k, q, nodes)
    nums = [int(r['trace_num']) for r in result]
    ctx.check(len(set(nums)) == len(nums), '%strace numbers are %s', who, nums)


def by_hand(d, form):
    """The quad entry as a caller may build it."""
    q = d.get(44)
    out = {'type': 2412}
    if q is not None:
        out['quad'] = {key: [el[key] for el in q] for key in q[0]}
        nodes = out['quad']['nodes_nums']
        out['quad']['nodes_nums'] = np.array(nodes) if form == 'array' else np.array(nodes, 'i4') if form == 'int32' else [tuple(x) for x in nodes] if form == 'tuples' else nodes
    if d.get(41):
        out['triangle'] = {key: [el[key] for el in d[41]] for key in d[41][0]}
    return out


def lists(tier):
    def driver(ctx):
        n = ctx.choose('sets', [0, 1, 2, 3] + ([4] if tier == 'quick' else [4, 5]))
        menu = SPECS + FOREIGN if n < 4 or tier != 'quick' else SPECS[:6:2] + SPECS[4:6] + FOREIGN[:2]
        source = ctx.choose('source', ['file', 'array', 'list'] if n < 4 else ['file'])
        sets_, want = [], []
        for k in range(n):
            spec = ctx.choose('set %d' % k, menu)
            if isinstance(spec, str):
                d, quads = elements(k, spec)
                if quads:
                    want.append(quads)
                sets_.append(d if source == 'file' else by_hand(d, source))
            else:
                t = T[spec]
                sets_.append(t.dset(H.mark(t, t.base(), k)))
        if source == 'file' and n:
            path = ctx.file()
            lib.write(path, sets_)
            sets_ = H.as_list(lib.read(path))
        was = copy.deepcopy(sets_)
        result = lib.pyuff.tools.convert_dataset_2412_to_82(sets_)
        ctx.check(H.same(was, sets_), 'the input was changed')
        judge(ctx, result, want)
        again = lib.pyuff.tools.convert_dataset_2412_to_82(sets_)
        ctx.check(H.same(result, again), 'the second conversion gives something else')
        ctx.op(2)
        if result:
            out = ctx.file('out.uff')
            lib.write(out, result)
            judge(ctx, H.as_list(lib.read(out)), want, 'written and read back: ')
            ctx.op(2)
            ctx.observe(lib.data_of(out))
        ctx.note('%s from %s' % ([s.get('type') for s in sets_], source))
    return Suite('lists', driver, rule='every list of sets x sources')


def again(ctx):
    """One set object, or one table of nodes, at several places of the list."""
    n = ctx.choose('places', [2, 3, 4])
    source = ctx.choose('source', ['file', 'array', 'list'])
    objects = []
    for k, spec in enumerate(['q', 'qtq', 't']):
        d, quads = elements(k, spec)
        if source == 'file':
            lib.write(ctx.file('in.uff'), d, 'overwrite')
            d = lib.read(ctx.file('in.uff'))
        else:
            d = by_hand(d, source)
        objects.append((d, quads))
    # equal to the first, and sharing its quads
    objects.append((dict(objects[0][0]), objects[0][1]))
    objects.append((copy.deepcopy(objects[0][0]), objects[0][1]))
    which = [ctx.choose('object at %d' % k, [0, 1, 2, 3, 4]) for k in range(n)]
    given = [objects[k][0] for k in which]
    was = copy.deepcopy(given)
    result = lib.pyuff.tools.convert_dataset_2412_to_82(given)
    ctx.check(H.same(was, given), 'the input was changed')
    judge(ctx, result, [objects[k][1] for k in which if objects[k][1]])
    ctx.op()
    ctx.observe(which, source)
    ctx.note('objects %s from %s' % (which, source))


def many(ctx):
    """Lists of many sets."""
    n = ctx.choose('sets', [6, 9, 10, 11, 16, 17, 32, 33, 65, 100, 129, 257, 1000])
    word = ctx.choose('kinds', ['q', 'qo', 'oq', 'oooq', 'qQ', 'oQqo', 't', 'tqo'])
    given, want = [], []
    for k in range(n):
        c = word[k % len(word)]
        quads = [[4 * k + j + 10000 * i for j in (1, 2, 3, 4)] for i in range({'q': 1, 'Q': 3}.get(c, 0))]
        if quads:
            want.append(quads)
            given.append({'type': 2412, 'quad': {'nodes_nums': quads}})
        else:
            given.append({'type': 2412, 'triangle': {'nodes_nums': [[1, 2, 3]]}} if c == 't' else {'type': 15 if k % 2 else 82, 'nodes': [1, 2]})
    was = copy.deepcopy(given)
    result = lib.pyuff.tools.convert_dataset_2412_to_82(given)
    ctx.op()
    ctx.check(H.same(was, given), 'the input was changed')
    judge(ctx, result, want)
    ctx.note('%d sets %s' % (n, word))


def shapes(ctx):
    """One set of quads: counts, node patterns, forms."""
    n = ctx.choose('quads', [0, 1, 2, 3, 4, 5, 12, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 5000])
    pattern = ctx.choose('nodes', ['distinct', 'shared edges', 'same quad again', 'degenerate', 'one node', 'large', 'reversed'])
    form = ctx.choose('form', ['array', 'int32', 'tuples', 'list'])
    quads = []
    for i in range(n):
        q = {'distinct': [4 * i + 1, 4 * i + 2, 4 * i + 3, 4 * i + 4], 'shared edges': [i + 1, i + 2, i + 102, i + 101], 'same quad again': [1, 2, 3, 4], 'degenerate': [i + 1, i + 2, i + 3, i + 3],
             'one node': [7, 7, 7, 7], 'large': [2147483647 - 4 * i - j for j in range(4)], 'reversed': [4 * i + 4, 4 * i + 3, 4 * i + 2, 4 * i + 1]}[pattern]
        quads.append(q)
    d = {'type': 2412, 'quad': {'nodes_nums': np.array(quads, int).reshape(-1, 4) if form == 'array' else np.array(quads, 'i4').reshape(-1, 4) if form == 'int32' else
                                [tuple(q) for q in quads] if form == 'tuples' else [list(q) for q in quads]}}
    where = ctx.choose('place', ['alone', 'first', 'last', 'in a tuple'])
    other = {'type': 151, 'model_name': 'x'}
    given = {'alone': [d], 'first': [d, other], 'last': [other, other, d], 'in a tuple': (d,)}[where]
    was = copy.deepcopy(given)
    result = lib.pyuff.tools.convert_dataset_2412_to_82(given)
    ctx.check(H.same(was, given), 'the input was changed')
    judge(ctx, result, [quads])
    for r in result:
        if len(r['nodes']):
            r['nodes'][0] = -5
    ctx.check(H.same(was, given), 'the result shares memory with the input')
    ctx.op()
    ctx.observe(quads, form, where)


def suites(tier):
    return [lists(tier), Suite('again', again, rule='every word of length 2-4 over 3 set objects and 2 equal to the first'), Suite('many', many, rule='lists of up to 1000 sets'), Suite('shapes', shapes, rule='counts x node patterns x forms')]
