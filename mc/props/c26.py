"""C26: two objects on different files, in every interleaving."""
import copy
import os

from .. import history as H, lib, prep, sets, threads
from ..engine import Suite
from ..layout import Enc

BOUND = {'quick': 'two threads, one preemption at every executed line of the library, for same-kind pairs of write-and-read programs of all kinds, every kind with two partners, and prepare/fix/convert programs; '
                  'two preemptions at every pair of lines for short programs; all interleavings of 3+3 operations of two objects in one thread for every pair of kinds',
         'thorough': 'one preemption for all ordered pairs of kinds; two preemptions at all pairs of lines for same-kind pairs of all kinds'}
ASSUMPTIONS = ['threads switch at lines of the library (not inside numpy, the interpreter or a line)', 'each file is used by one thread']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}


def view(path, u):
    """All that can be seen of a file and its object."""
    return (lib.data_of(path), u.get_n_sets(), [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()])


class Program:
    """A named program on a file of its own; alone() is what it gives by itself."""

    def __init__(self, name, run):
        self.name, self.run = name, run

    def __repr__(self):
        return self.name


def write_read(kind, k, fd=True):
    _, t, m = kind
    m = H.mark(t, m, k)

    def run(path):
        u = lib.pyuff.UFF(path)
        u.write_sets(t.dset(m), 'add', fd)
        got = u.read_sets(0)
        return view(path, u), got
    return Program('%s #%d' % (kind[0], k), run)


def two_sets(kind, k):
    _, t, m = kind
    a, b = H.mark(t, m, k), H.mark(t, m, k + 1)

    def run(path):
        u = lib.pyuff.UFF(path)
        u.write_sets([t.dset(a), t.dset(b)], 'overwrite')
        got = u.read_sets()
        return view(path, u), got
    return Program('two %s #%d' % (kind[0], k), run)


def read_only(kind, k):
    """Reads a file another program made (the file is made before the threads run)."""
    _, t, m = kind
    m = H.mark(t, m, k)

    def run(path):
        u = lib.pyuff.UFF(path + '.given')
        head = u.read_sets(0, header_only=True)
        return head, u.read_sets()

    def before(path):
        lib.put(path + '.given', t.block58b(m) if t.num == 58 and m['variant'][3] else t.block(m, Enc()).encode())
    p = Program('reads %s #%d' % (kind[0], k), run)
    p.before = before
    return p


REFUSED = {'151': ('model_name', 'program'), '82': ('nodes', 'id'), '58': ('data', 'func_type'), '2412': ('triangle', 'quad')}


def rejected(kind, k):
    """A set that is refused, then a good one."""
    _, t, m = kind
    m = H.mark(t, m, k)

    def run(path):
        u = lib.pyuff.UFF(path)
        d = t.dset(m)
        out = []
        for key in REFUSED[kind[0].split('(')[0]]:
            bad = dict(d)
            bad.pop(key, None)
            out.append(lib.refused(u.write_sets, bad, 'add'))
        u.write_sets(d, 'add')
        return out, view(path, u), u.read_sets()
    return Program('rejected %s #%d' % (kind[0], k), run)


def prepares(name, k):
    f = prep.Function(name)

    def run(path):
        args = {a: f.good(a)[k % len(f.good(a))].make() for a in f.args}
        some = {a: args[a] for i, a in enumerate(args) if a in f.needed or i < len(args) // 2 + 3}
        return f.f(**args, return_full_dict=bool(k)), f.f(**some)
    return Program('%s %d' % (name, k), run)


def fixes(k):
    t, m = T[58], T[58].base((bool(k), True, False, True), 2 + k)

    def before(path):
        lib.put(path + '.given', (t.block58b(m) + t.block58b(m)).replace(b'    -1\n    -1', b'\n    -1\n    -1'))

    def run(path):
        lib.pyuff.fix_58b(path + '.given', path)
        return lib.data_of(path)
    p = Program('fix_58b %d' % k, run)
    p.before = before
    return p


def converts(k):
    els = [T[2412].element(i + 10 * k) for i in range(2 + k)]
    d = {'type': 2412, 'quad': {'nodes_nums': [el['nodes_nums'] for el in els]}}

    def run(path):
        return lib.pyuff.tools.convert_dataset_2412_to_82([copy.deepcopy(d)])
    return Program('convert %d' % k, run)


STEPS = {}


def n_steps(ctx, p, who):
    """How many lines of the library p executes by itself, and what it gives."""
    key = who, p.name
    if key not in STEPS:
        path = ctx.file('alone%d' % who)
        for f in (path, path + '.given'):
            if os.path.exists(f):
                os.remove(f)
        if hasattr(p, 'before'):
            p.before(path)
        out = []
        n = threads.steps(lambda: out.append(p.run(path)))
        STEPS[key] = n, out[0]
    return STEPS[key]


def judge(ctx, pair, plan, relative=False):
    """The files have one name, in two folders; relative: they are named from the current folder."""
    os.makedirs(ctx.file('x'))
    os.makedirs(ctx.file('y'))
    paths = ['x/a.uff', 'y/a.uff'] if relative else [ctx.file('x/a.uff'), ctx.file('y/a.uff')]
    where = os.getcwd()
    if relative:
        os.chdir(ctx.scratch)
    try:
        schedule(ctx, pair, plan, paths)
        ctx.check(os.path.realpath(os.getcwd()) == os.path.realpath(ctx.scratch if relative else where), 'the current folder was changed')
    finally:
        os.chdir(where)


def schedule(ctx, pair, plan, paths):
    want = []
    for i, p in enumerate(pair):
        want.append(n_steps(ctx, p, i)[1])
        if hasattr(p, 'before'):
            p.before(paths[i])
    ts = threads.run([lambda p=p, path=path: p.run(path) for p, path in zip(pair, paths)], plan)
    for i, (t, p) in enumerate(zip(ts, pair)):
        ctx.check(t.over, 'thread %d (%s) does not end', i, p)
        if t.error is not None:
            ctx.fail('thread %d (%s) raises %r; alone it does not' % (i, p, t.error))
        ok = H.same(t.result, want[i])
        ctx.check(ok, 'thread %d (%s) gives something else than alone: %s', i, p, ok or H.first_difference(want[i], t.result))
    ctx.op(len(plan) + 1)
    ctx.observe([p.name for p in pair], plan)


def one_preemption(name, pairs, rule, firsts=(0, 1), relative=False):
    def driver(ctx):
        pair = ctx.choose('programs', pairs)
        first = ctx.choose('first thread', list(firsts))
        n = n_steps(ctx, pair[first], first)[0]
        i = ctx.choose('preempted after', list(range(1, n + 1)))
        judge(ctx, pair, [(first, i), (1 - first, None), (first, None)], relative)
        ctx.note('%s: thread %d preempted after %d of %d lines' % (pair, first, i, n))
    return Suite(name, driver, rule=rule)


def two_preemptions(name, pairs, rule):
    def driver(ctx):
        pair = ctx.choose('programs', pairs)
        n, m = n_steps(ctx, pair[0], 0)[0], n_steps(ctx, pair[1], 1)[0]
        i = ctx.choose('first preempted after', list(range(1, n + 1)))
        j = ctx.choose('second preempted after', list(range(1, m + 1)))
        judge(ctx, pair, [(0, i), (1, j), (0, None), (1, None)])
        ctx.note('%s: switches after %d and %d lines' % (pair, i, j))
    return Suite(name, driver, rule=rule)


def operations(ctx):
    """Two objects in one thread, every interleaving of three operations each."""
    kinds = [ctx.choose('first', KINDS), ctx.choose('second', KINDS)]
    os.makedirs(ctx.file('x'))
    os.makedirs(ctx.file('y'))
    paths = [ctx.file('x/a.uff'), ctx.file('y/a.uff')]
    order, left = [], [3, 3]
    while any(left):
        who = ctx.choose('next', [i for i in (0, 1) if left[i]])
        left[who] -= 1
        order.append(who)

    def go(order):
        for p in paths:
            if os.path.exists(p):
                os.remove(p)
        objs = [lib.pyuff.UFF(p) for p in paths]
        ms = [H.mark(k[1], k[2], i) for i, k in enumerate(kinds)]
        out, at = [[], []], [0, 0]
        for who in order:
            u, (_, t, _), m = objs[who], kinds[who], ms[who]
            if at[who] == 0:
                u.write_sets(t.dset(m), 'add')
            elif at[who] == 1:
                out[who].append(u.read_sets())
            else:
                u.write_sets(t.dset(H.mark(t, m, 5)), 'add')
            at[who] += 1
        for i, u in enumerate(objs):
            out[i].append(u.read_sets())
            out[i].append(view(paths[i], u))
        return out
    got, want = go(order), go([0, 0, 0, 1, 1, 1])
    ok = H.same(got, want)
    ctx.check(ok, 'interleaved %s the objects behave differently: %s', order, ok or H.first_difference(want, got))
    ctx.op(6)
    ctx.observe([k[0] for k in kinds], order)


def suites(tier):
    deep = tier != 'quick'
    wr = [write_read(k, 0) for k in KINDS]
    wr2 = [write_read(k, 3) for k in KINDS]
    same_kind = [(a, b) for a, b in zip(wr, wr2)]
    partners = [write_read(NAMED['151'], 3), read_only(NAMED['58(True, False, False, True)'], 3)]
    others = [(a, wr2[(i + 9) % len(wr2)]) for i, a in enumerate(wr)]
    small = ('151', '58(False, True, False, True)', '58(True, False, False, True)', '82', '2412', '2429')
    tools = [(prepares(n, 0), prepares(n, 1)) for n in prep.ARGS] + [(fixes(0), fixes(1)), (converts(0), converts(1)), (converts(0), prepares('prepare_82', 1)), (fixes(0), write_read(NAMED['58(False, True, False, True)'], 1))]
    reads = [(read_only(k, 0), read_only(k, 3)) for k in KINDS if deep or k[0] in small]
    refusals = [(rejected(NAMED[k], 0), write_read(NAMED[k], 3)) for k in ('151', '82', '58(False, True, False, False)', '2412')]
    short = ['164'] if not deep else list(NAMED)
    out = [one_preemption('same kind', same_kind, 'same-kind pairs, every line', (0, 1) if deep else (0,), relative=True), one_preemption('partners', others if not deep else [(a, b) for a in wr for b in wr2 + partners], 'pairs of kinds, every line', (0, 1) if deep else (0,)),
           one_preemption('reads', reads, 'two readers of the same kind, every line', (0, 1) if deep else (0,), relative=True), one_preemption('tools', tools, 'prepare, fix and convert, every line'),
           one_preemption('rejected', refusals, 'a rejected write, every line'),
           two_preemptions('two', [(prepares('prepare_82', 0), prepares('prepare_82', 1)), (converts(0), converts(1))] + ([(write_read(NAMED[s], 0), write_read(NAMED[s], 3)) for s in short] if deep else []),
                           'two preemptions at every pair of lines'),
           Suite('operations', operations, rule='operation interleavings of every pair of kinds')]
    if deep:
        out.append(one_preemption('two sets', [(two_sets(a, 0), two_sets(a, 3)) for a in KINDS], 'lists of two sets'))
    return out
