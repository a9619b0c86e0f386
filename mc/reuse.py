"""A set that was read, given other contents, and written: what was computed for the old contents is computed anew."""
import copy

from . import lib, patterns, sets
from .engine import Suite

T = sets.TYPES


# what the writers find out on their own
DERIVED = {55: ('data_type', 'n_data_per_node'), 82: ('n_nodes',), 58: ('num_pts', 'abscissa_min', 'ord_data_type', 'n_bytes')}


def renew(t, old_model, new_model, got):
    """The set that was read, with the fields of the new contents; everything the reader added stays."""
    d = dict(got)
    new, old = t.dset(new_model), t.dset(old_model)
    for key in old:
        if key not in new:
            d.pop(key, None)
    for key, value in new.items():
        if key in d and key in DERIVED.get(t.num, ()):
            continue
        if key == 'groups':
            value = [dict(g, **n) for g, n in zip(list(d['groups']) + [{}] * len(value), value)]
        d[key] = value
    return d


def suites(which, tier):
    cases = [c for k in which for c in patterns.CASES[k] if c.t.num != 2412]
    every = [c for k in sorted(patterns.CASES) for c in patterns.CASES[k]]
    ns = [1, 2, 3, 5] if tier == 'quick' else [1, 2, 3, 4, 5, 7, 8, 9, 17]

    def driver(ctx):
        b = ctx.choose('then', cases)
        a = ctx.choose('first', [c for c in every if c.t is b.t])
        n = ctx.choose('entries of the first', ns)
        k = ctx.choose('entries then', ns)
        p = ctx.choose('pattern', [0, 3])
        old, new = a.make(n)[0], b.make(k)[0]
        new, cols = b.make(k)
        if p:
            for j, (key, kind, put) in enumerate(cols):
                put(patterns.ALL[kind][(p + j) % len(patterns.ALL[kind])](k))
        t = a.t
        path = ctx.file()
        lib.write(path, t.dset(old))
        d = renew(t, old, new, lib.read(path))
        if t.num == 58 and k == 1:
            # the increment of a single point is the one that is given
            d['abscissa_inc'] = t.dset(new).get('abscissa_inc', 0.0)
        mode = ctx.choose('mode', ['overwrite', 'add'])
        lib.write(path, d, mode)
        u = lib.pyuff.UFF(path)
        ctx.op(4)
        ctx.check(u.get_n_sets() == (1 if mode == 'overwrite' else 2), '%d sets', u.get_n_sets())
        r = sets.compare(t, sets.expect(t, new), u.read_sets(u.get_n_sets() - 1))
        ctx.check(r is None, 'a set that was read (%s, %d), given other contents (%s, %d) and written: %s', a, n, b, k, r)
        ctx.observe(lib.data_of(path))
    return [Suite('reused', driver, rule='every layout and number of entries read, given the contents of every other, and written')]
