"""C32: reading while a set is appended."""
import os

from .. import history as H, lib, sets, threads
from ..engine import Suite
from .c16 import alone

BOUND = {'quick': 'one thread appends, another looks and reads (old, refreshed and new objects): every kind, the appender preempted before every executed line of the library; two kinds, the reader preempted before every line; '
                  'two preemptions at every pair of lines for one pair; lists of sets; up to 40 sets appended since an object looked; every byte of the append of 4 kinds as the moment of the refresh x the reads after one more byte and at the end, '
                  'every byte as the moment of the read for objects made at a line end',
         'thorough': 'two preemptions for four pairs, every byte of the append of all kinds'}
ASSUMPTIONS = ['threads switch at lines of the library; bytes reach the file in order', 'the appended set does not spell its own closing delimiter before its end']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
BEFORE = {'two': ['82', '58(True, False, False, False)'], 'binary': ['164', '58(False, True, False, True)'], 'cut': ['58(False, True, False, True)', '164'], 'one': ['164']}


CACHE = {}


def start(ctx, how):
    """A file and its model."""
    path = ctx.file()
    if how not in CACHE:
        model = H.Model()
        for k in BEFORE[how]:
            _, t, m = NAMED[k]
            m = H.mark(t, m, 7)
            lib.write(path, t.dset(m), 'add')
            model.entries.append((t, sets.expect(t, m)))
        raw = lib.data_of(path)
        CACHE[how] = (raw.rstrip(b'\n') if how == 'cut' else raw), model
    lib.put(path, CACHE[how][0])
    return path, H.Model(CACHE[how][1].entries)


def added(kind, k=3):
    _, t, m = kind
    m = H.mark(t, m, k)
    return t.dset(m), (t, sets.expect(t, m))


class Reader:
    """What a reader saw: [(who, sets it found, what it read)]."""

    def __init__(self, name, look):
        self.name, self.look = name, look

    def __repr__(self):
        return self.name


def everything(u):
    n = u.get_n_sets()
    types = [int(x) for x in u.get_set_types()]
    formats = [int(x) for x in u.get_set_formats()]
    one = [u.read_sets(i) for i in range(n)]
    return n, types, formats, one, H.as_list(u.read_sets())


def short(u):
    """The report and every set, once."""
    n = u.get_n_sets()
    return n, [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()], [], H.as_list(u.read_sets())


def old_object(path, u):
    return [('an object made before', short(u))]


def refreshed(path, u):
    return [('a refreshed object', short(u))] if u.refresh() else None


def new_object(path, u):
    return [('a new object', short(lib.pyuff.UFF(path)))]


def all_of_them(path, u):
    out = [('an object made before', everything(u))]
    return out + [('a new object', everything(lib.pyuff.UFF(path)))] + (refreshed(path, u) or []) + [('the refreshed object', everything(u))]


READERS = [Reader('old object', old_object), Reader('refreshes', refreshed), Reader('new object', new_object)]
ALL = Reader('all of them', all_of_them)


def judge(ctx, seen, model, news):
    """seen is right for a file of the earlier sets and the first n of the new ones."""
    ctx.check(seen is not None, 'the file cannot be refreshed')
    for who, (n, types, formats, one, every) in seen:
        k = n - len(model.entries)
        ctx.check(0 <= k <= len(news), '%s: %r sets; there were %d, %d are appended', who, n, len(model.entries), len(news))
        now = H.Model(model.entries + news[:k])
        ctx.check(types == now.types() and formats == now.formats(), '%s: types %s, formats %s', who, types, formats)
        ctx.check(len(one) in (0, n) and len(every) == n, '%s: %d sets by index, %d all at once, %d reported', who, len(one), len(every), n)
        for i in range(n):
            if one:
                now.check_one(ctx, i, one[i], who + ', by index: ')
            now.check_one(ctx, i, every[i], who + ', all at once: ')
    ctx.op(len(seen))


STEPS = {}


def line_counts(ctx, how, kinds, reader, fd=True):
    """Lines of the appender, and of the reader on the complete file."""
    key = how, tuple(k[0] for k in kinds), reader.name
    if key not in STEPS:
        path, _ = start(ctx, how)
        ds = [added(k, 3 + i)[0] for i, k in enumerate(kinds)]
        w = lib.pyuff.UFF(path)
        a = threads.steps(lambda: w.write_sets(ds, 'add', fd))
        u = lib.pyuff.UFF(path)
        b = threads.steps(lambda: reader.look(path, u))
        os.remove(path)
        STEPS[key] = a, b
    return STEPS[key]


def schedule(ctx, how, kinds, reader, plan):
    """Thread 0 appends, thread 1 reads."""
    path, model = start(ctx, how)
    old = lib.data_of(path)
    pairs = [added(k, 3 + i) for i, k in enumerate(kinds)]
    ds, news = [p[0] for p in pairs], [p[1] for p in pairs]
    w, u = lib.pyuff.UFF(path), lib.pyuff.UFF(path)
    states = []

    def look():
        raw = lib.data_of(path)
        states.append(raw)
        r = reader.look(path, u)
        states.append(lib.data_of(path))
        return r
    ts = threads.run([lambda: w.write_sets(ds, 'add'), look], plan)
    for t, who in zip(ts, ('appender', 'reader')):
        ctx.check(t.over, 'the %s does not end', who)
        if t.error is not None:
            ctx.fail('the %s raises %r' % (who, t.error))
    for raw in states:
        ctx.check(raw.startswith(old), 'the earlier bytes of the file are not there while a set is appended')
    judge(ctx, ts[1].result, model, news)
    judge(ctx, new_object(path, None), H.Model(model.entries + news), [])
    ctx.observe(how, [k[0] for k in kinds], reader.name, plan)


def one_preemption(name, first, cases, files, readers, rule):
    def driver(ctx):
        kinds = ctx.choose('appended', cases)
        how = ctx.choose('file', files)
        reader = ctx.choose('reader', readers)
        n = line_counts(ctx, how, kinds, reader)[first]
        i = ctx.choose('preempted after', list(range(1, n + 1)))
        schedule(ctx, how, kinds, reader, [(first, i), (1 - first, None), (first, None)])
        ctx.note('%s appended, %s preempted after %d of %d lines' % (kinds, ('appender', 'reader')[first], i, n))
    return Suite(name, driver, rule=rule)


def two_preemptions(cases, firsts):
    def driver(ctx):
        kind, how, reader = ctx.choose('case', cases)
        first = ctx.choose('first', firsts)
        n = line_counts(ctx, how, [kind], reader)
        i = ctx.choose('first preempted after', list(range(1, n[first] + 1)))
        j = ctx.choose('second preempted after', list(range(1, n[1 - first] + 1)))
        schedule(ctx, how, [kind], reader, [(first, i), (1 - first, j), (first, None), (1 - first, None)])
        ctx.note('%s appended, %s, switches after %d and %d lines' % (kind, reader, i, j))
    return Suite('two preemptions', driver, rule='two preemptions at every pair of lines')


def bytes_suite(tier):
    kinds = ['151', '82', '2412', '58(True, False, False, True)'] if tier == 'quick' else list(NAMED)

    def driver(ctx):
        kind = NAMED[ctx.choose('appended', kinds)]
        how = ctx.choose('file', ['two', 'binary'] if tier == 'quick' else list(BEFORE))
        path, model = start(ctx, how)
        old = lib.data_of(path)
        d, new = added(kind)
        lib.write(path, d, 'add')
        full = lib.data_of(path)
        ctx.check(full.startswith(old), 'appending changed earlier bytes')
        n = len(full) - len(old)
        lines = [i for i in range(n + 1) if i in (0, n) or full[len(old) + i - 1:len(old) + i] == b'\n']
        i = ctx.choose('refreshed at', list(range(n + 1)))
        later = list(range(i, n + 1)) if i in lines[::4] else sorted({i, min(i + 1, n), n})
        j = ctx.choose('read at', later)
        lib.put(path, full[:len(old) + i])
        u = lib.pyuff.UFF(path)
        k = u.get_n_sets()
        lib.put(path, full[:len(old) + j])
        judge(ctx, old_object(path, u), model, [new])
        ctx.check(u.get_n_sets() == k, 'the number of sets changed without refresh')
        judge(ctx, refreshed(path, u), model, [new])
        ctx.observe(kind[0], how, i, j)
        ctx.note('%s: refreshed at byte %d, read at byte %d of %d' % (kind[0], i, j, n))
    return Suite('bytes', driver, rule='moments of the refresh and of the read')


def grown(tier):
    more = ['164', '82', '58(False, True, False, True)', '2412', '151', '15', '58(False, True, False, False)']

    def driver(ctx):
        """Objects made or refreshed long before."""
        path = ctx.file()
        model = H.Model()
        for k in (ctx.choose('first', [NAMED['164'], NAMED['58(False, True, False, True)'], None]), ctx.choose('last', KINDS)):
            if k is not None:
                _, t, m = k
                m = H.mark(t, m, len(model.entries) + 5)
                lib.write(path, t.dset(m), 'add')
                model.entries.append((t, sets.expect(t, m)))
        u = lib.pyuff.UFF(path)
        asked = ctx.choose('asked before', [False, True])
        if asked:
            judge(ctx, [('before', short(u))], model, [])
        news = []
        kind = NAMED[ctx.choose('appended', more)]
        n = ctx.choose('sets', [1, 2, 8, 40])
        pairs = [added(kind, 3 + i) for i in range(n)]
        news = [p[1] for p in pairs]
        lib.pyuff.UFF(path).write_sets([p[0] for p in pairs], 'add') if n < 40 else lib.put(path, lib.data_of(path) + b''.join(alone(ctx, p[0]) for p in pairs))
        judge(ctx, [('an object made before', everything(u))], model, [])
        judge(ctx, refreshed(path, u), H.Model(model.entries + news), [])
        ctx.observe(kind[0], n, model.types(), asked)
        ctx.note('%s, %d sets of %s appended' % (model.types(), n, kind))
    return Suite('grown', driver, rule='kinds before x kinds appended x how many')


def suites(tier):
    q = tier == 'quick'
    every = [[k] for k in KINDS]
    few = [[NAMED[k]] for k in ('164', '58(False, True, False, True)', '2412')]
    lists = [[NAMED['164'], NAMED['58(False, True, False, True)']], [NAMED['58(True, False, False, True)'], NAMED['164']]]
    cases = [(NAMED['164'], 'one', READERS[1])] if q else [(NAMED['164'], 'one', r) for r in READERS] + [(NAMED['58(False, True, False, True)'], 'one', READERS[1])]
    return [one_preemption('appender', 0, every, ['cut', 'binary'] if q else list(BEFORE), [ALL], 'the appender preempted: every kind x file x line'),
            one_preemption('reader', 1, few[:2] if q else every, ['one', 'cut'] if q else list(BEFORE), READERS if not q else READERS[1:], 'the reader preempted: kinds x file x reader x line'),
            one_preemption('lists', 0, lists, ['binary'], [ALL], 'lists of sets, every line'), two_preemptions(cases, [0] if q else [0, 1]), bytes_suite(tier), grown(tier)]
