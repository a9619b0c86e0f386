"""C14: appends that stop at any byte."""
import builtins
import io
import os
import resource
import signal
import sys

from .. import history as H, lib, sets, threads
from ..engine import Suite
from ..layout import Enc

BOUND = {'quick': 'every byte of the append of twelve kinds (killed) and five kinds (refused) after one history, lists of two, before every executed line of the library, by outside truncation at every byte; every failing open, files that cannot be written; sets of several buffers around every 4 KiB',
         'thorough': 'every byte in every history, every byte of sets of several buffers, two failures in a row'}
ASSUMPTIONS = ['the process ends or the write is refused at a byte: bytes reach the file in order and earlier bytes stay (no torn sectors)',
               'the interrupted set does not spell its own closing delimiter before its end']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
HALF = ['151', '2400', '18', '2420', '82', '2429', '2412', '58(True, False, False, False)', '58(False, True, False, True)', '58(True, False, False, True)', '55(2, False, 3)', '2414(1, False)']
ODD = ['blanks', 'remains']
BEFORE = ['58b', 'two', 'no newline', 'crlf', 'one', 'empty', 'absent']


def prior(ctx, how):
    path = ctx.file()
    model = H.Model()
    model.remains = how == 'remains'
    kinds = {'58b': ['151', '58(False, True, False, True)'], 'two': ['82', '58(True, False, False, False)'], 'no newline': ['2412', '151'], 'one': ['55(2, False, 3)'],
             'crlf': ['164', '2411'], 'empty': [], 'absent': [], 'blanks': ['58(False, True, False, True)', '18'], 'remains': ['58(True, False, False, True)', '2429']}[how]
    for k in kinds:
        _, t, m = NAMED[k]
        m = H.mark(t, m, 7)
        lib.pyuff.UFF(path).write_sets(t.dset(m), 'add')
        model.entries.append((t, sets.expect(t, m)))
    if how == 'no newline':
        lib.put(path, lib.data_of(path).rstrip(b'\n'))
    elif how == 'crlf':
        lib.put(path, lib.data_of(path).replace(b'\n', b'\r\n'))
    elif how == 'empty':
        lib.put(path, b'')
    elif how == 'blanks':
        lib.put(path, b'a file\n\n' + lib.data_of(path) + b'  \n\n   ')
    elif how == 'remains':
        # of an append that was interrupted earlier
        _, t, m = NAMED['2400']
        lib.put(path, lib.data_of(path) + t.block(m, Enc()).encode()[:150])
    return path, model


def size(path):
    return os.path.getsize(path) if os.path.exists(path) else 0


def appended(path, ds, ctx):
    """How many bytes the complete append adds."""
    other = ctx.file('other.uff')
    if os.path.exists(path):
        lib.put(other, lib.data_of(path))
    lib.pyuff.UFF(other).write_sets(ds, 'add')
    n = size(other) - size(path)
    os.remove(other)
    return n


def judge(ctx, path, before, new, u=None, who=''):
    """The sets before the append, and the new ones: a beginning of them, complete."""
    if not os.path.exists(path):
        ctx.check(not before.entries, who + 'the file is gone')
        return 0
    v = u or lib.pyuff.UFF(path)
    if getattr(before, 'remains', False):
        # they may join with what is appended
        n = len(before.entries)
        ctx.check(v.get_n_sets() >= n and [int(x) for x in v.get_set_types()[:n]] == [t.num for t, _ in before.entries], '%stypes are %s', who, list(v.get_set_types()))
        for k in range(n):
            before.check_one(ctx, k, H.as_list(v.read_sets(k))[0], who)
        ctx.op(2 + n)
        return len(new)
    n = v.get_n_sets() - len(before.entries)
    ctx.check(0 <= n <= len(new), '%s%d sets are reported, %d were in the file and %d were appended', who, v.get_n_sets(), len(before.entries), len(new))
    now = H.Model(before.entries + new[:n])
    now.check_info(ctx, v, who)
    for k in range(len(now.entries)):
        now.check_one(ctx, k, H.as_list(v.read_sets(k))[0], who)
    now.check_all(ctx, v, who)
    ctx.op(2 + len(now.entries))
    return n


def killed(path, ds, limit):
    """Appends in a process that is killed when the file would grow over the limit.  Returns whether it was."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            u = lib.pyuff.UFF(path)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            u.write_sets(ds, 'add')
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def watched(path, ds, stop=None):
    """Appends in a process that is killed before the given executed line of the library.

    Returns (whether it was, lines executed).
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            count = [0]

            def line(frame, event, arg):
                if event == 'line':
                    if count[0] == stop:
                        os.kill(os.getpid(), signal.SIGKILL)
                    count[0] += 1
                return line

            def call(frame, event, arg):
                return line if threads.ours(frame.f_code) else None
            u = lib.pyuff.UFF(path)
            sys.settrace(call)
            u.write_sets(ds, 'add')
            sys.settrace(None)
            os.write(w, b'%d' % count[0])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        n = fh.read()
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status), int(n or 0)


LINES = {}


def line_suite(groups, befores):
    """The process is killed before every executed line of the library."""
    def driver(ctx):
        group = ctx.choose('append', groups)
        how = ctx.choose('file', befores)
        path, before = prior(ctx, how)
        new, ds = make(group)
        one = ds if len(ds) > 1 else ds[0]
        key = tuple(k[0] for k in group), how
        if key not in LINES:
            other = ctx.file('other.uff')
            if os.path.exists(path):
                lib.put(other, lib.data_of(path))
            LINES[key] = watched(other, one)[1]
            if os.path.exists(other):
                os.remove(other)
        k = ctx.choose('stop before line', list(range(LINES[key])))
        dead, _ = watched(path, one, k)
        ctx.op()
        ctx.check(dead, 'the append was not stopped before line %d', k)
        who = 'killed before line %d of %d: ' % (k, LINES[key])
        judge(ctx, path, before, new, who=who)
        now = lib.data_of(path) if os.path.exists(path) else b''
        ctx.observe(now)
        _, t, m = NAMED['82']
        lib.pyuff.UFF(path).write_sets(t.dset(m), 'add')
        v = lib.pyuff.UFF(path)
        for j in range(len(before.entries)):
            before.check_one(ctx, j, H.as_list(v.read_sets(j))[0], who + 'after another append: ')
        ctx.note('%s appended to %s, killed before line %d of %d' % (group, how, k, LINES[key]))
    return Suite('lines', driver, rule='killed before every executed line of the library')


def below(ctx, step=1):
    """The file may not even keep its size: nothing of it may be lost when the system refuses any write beyond a smaller size."""
    group = ctx.choose('append', [[NAMED['82']], [NAMED['58(False, True, False, True)']], [NAMED['151'], NAMED['164']]])
    how = ctx.choose('file', [b for b in BEFORE + ODD if b not in ('empty', 'absent')])
    path, before = prior(ctx, how)
    new, ds = make(group)
    limit = ctx.choose('limit', list(range(0, size(path) + 1, step)) + [size(path) - 1])
    what = ctx.choose('how', ['killed', 'refused'])
    who = '%s at size %d: ' % (what, limit)
    if what == 'killed':
        ctx.check(killed(path, ds, limit), who + 'nothing happened')
        judge(ctx, path, before, new, who=who)
    else:
        u = lib.pyuff.UFF(path)
        with Limit(limit):
            raised = lib.refused(u.write_sets, ds, 'add')
        ctx.check(raised, who + 'no error was raised')
        judge(ctx, path, before, new, who=who)
        judge(ctx, path, before, new, u, who + 'the object: ')
    ctx.op()
    ctx.observe(how, group, limit, what)


class Limit:
    """The system refuses to let files grow over a limit."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.handler)


def make(kinds):
    new, ds = [], []
    for k, (_, t, m) in enumerate(kinds):
        m = H.mark(t, m, k)
        ds.append(t.dset(m))
        new.append((t, sets.expect(t, m)))
    return new, ds


def kill_suite(name, groups, befores, positions, rule):
    def driver(ctx):
        group = ctx.choose('append', groups)
        how = ctx.choose('file', befores)
        path, before = prior(ctx, how)
        new, ds = make(group)
        n = appended(path, ds, ctx)
        k = ctx.choose('stop at byte', positions(n))
        start = size(path)
        dead = killed(path, ds if len(ds) > 1 else ds[0], start + k)
        ctx.op()
        ctx.check(dead or k >= n, 'the append of %d bytes was not stopped at byte %d', n, k)
        done = judge(ctx, path, before, new, who='killed at byte %d of %d: ' % (k, n))
        ctx.check(dead or done == len(new), 'the append was not stopped, but %d sets are found', done)
        ctx.observe(lib.data_of(path) if os.path.exists(path) else b'')
        # a later append does not damage them either
        _, t, m = NAMED['82']
        lib.pyuff.UFF(path).write_sets(t.dset(m), 'add')
        v = lib.pyuff.UFF(path)
        ctx.check(v.get_n_sets() >= len(before.entries), 'after another append %d sets are reported', v.get_n_sets())
        for j in range(len(before.entries)):
            before.check_one(ctx, j, H.as_list(v.read_sets(j))[0], 'after another append: ')
        ctx.note('%s appended to %s, killed at byte %d of %d' % (group, how, k, n))
    return Suite(name, driver, rule=rule)


def error_suite(name, groups, befores, positions, rule, again=False, thens=('the same', 'another')):
    def driver(ctx):
        group = ctx.choose('append', groups)
        how = ctx.choose('file', befores)
        path, before = prior(ctx, how)
        new, ds = make(group)
        n = appended(path, ds, ctx)
        start = size(path)
        u = lib.pyuff.UFF(path)
        for k in [ctx.choose('stop at byte', positions(n))] + ([ctx.choose('stop again at byte', positions(n))] if again else []):
            with Limit(start + k):
                raised = lib.refused(u.write_sets, ds if len(ds) > 1 else ds[0], 'add')
            ctx.op()
            who = 'refused at byte %d of %d: ' % (k, n)
            done = judge(ctx, path, before, new, who=who)
            if not raised:
                ctx.check(done == len(new), '%sno error was raised, but %d of %d sets are stored', who, done, len(new))
                return
            ctx.check(k < n, who + 'an error was raised')
            if os.path.exists(path):
                judge(ctx, path, before, new, u, who + 'the object: ')
            before = H.Model(before.entries + new[:done])
            new, ds = new[done:], ds[done:]
            if not ds:
                return
            n, start = appended(path, ds, ctx), size(path)
        ctx.observe(lib.data_of(path) if os.path.exists(path) else b'')
        # the same, and another set can be appended afterwards
        _, t, m = NAMED['82']
        which = ctx.choose('then append', thens)
        if which == 'another':
            ds, new = [t.dset(m)], [(t, m)]
        u.write_sets(ds if len(ds) > 1 else ds[0], 'add')
        now = H.Model(before.entries + new)
        now.check(ctx, path, u, 'append after the failed one: ')
        ctx.note('%s appended to %s, refused at byte %d of %d' % (group, how, k, n))
    return Suite(name, driver, rule=rule)


def opens(ctx):
    """Every open in the course of an append fails."""
    group = ctx.choose('append', [[NAMED[k]] for k in ('82', '58(False, True, False, True)')] + [[NAMED['151'], NAMED['82']]])
    how = ctx.choose('file', BEFORE)
    path, before = prior(ctx, how)
    new, ds = make(group)
    nth = ctx.choose('failing open', list(range(12)))
    width = ctx.choose('failures', [1, 2, 100])
    real, seen = io.open, [0]

    def failing(file, *a, **k):
        i = seen[0]
        seen[0] += 1
        if nth <= i < nth + width:
            raise OSError(24, 'Too many open files')
        return real(file, *a, **k)
    u = lib.pyuff.UFF(path)
    builtins.open = io.open = failing
    try:
        raised = lib.refused(u.write_sets, ds, 'add')
    finally:
        builtins.open = io.open = real
    if seen[0] <= nth:
        ctx.check(not raised, 'an error without a reason')
        return
    who = 'open %d failed: ' % nth
    ctx.op(seen[0])
    done = judge(ctx, path, before, new, who=who)
    if not raised:
        ctx.check(done == len(new), '%sno error was raised, but %d of %d sets are stored', who, done, len(new))
    if os.path.exists(path):
        judge(ctx, path, before, new, u, who + 'the object: ')
    _, t, m = NAMED['164']
    u.write_sets(t.dset(m), 'add')
    H.Model(before.entries + new[:done] + [(t, m)]).check(ctx, path, u, who + 'append after it: ')
    ctx.observe(lib.data_of(path))


def refusals(ctx):
    """Files that cannot be written at all."""
    what = ctx.choose('file', ['directory', 'no folder', 'dangling link', 'file as folder'])
    mode = ctx.choose('mode', ['add', 'overwrite'])
    path = ctx.file()
    if what == 'directory':
        os.mkdir(path)
    elif what == 'no folder':
        path = os.path.join(path, 'b.uff')
    elif what == 'file as folder':
        lib.put(path, b'x')
        path = os.path.join(path, 'b.uff')
    else:
        os.symlink(os.path.join(path + 'x', 'c'), path)
    _, t, m = NAMED['82']

    def run():
        lib.pyuff.UFF(path).write_sets(t.dset(m), mode)
    ctx.op()
    ctx.check(lib.refused(run), 'no error when the file cannot be written')
    ctx.observe(what, mode)


def every(n):
    return list(range(n + 2))


def some(n):
    """Around every buffer boundary."""
    return sorted({k for b in range(0, n + 4096, 4096) for k in (b - 2, b - 1, b, b + 1, b + 700, b + 1369) if 0 <= k <= n + 1} |
                  {k for k in (n - 8, n - 7, n - 6, n - 1, n, n + 1)})


def suites(tier):
    deep = tier != 'quick'
    t = T[58]
    large = [[H.Kind(('58 large %s' % (v,), t, t.base(v, n)))] for v, n in (((False, True, False, False), 1500), ((True, False, False, True), 3000), ((False, True, False, True), 9000))]
    one = [[k] for k in KINDS]
    few = [[k] for k in H.models(H.FEW)]
    small = [[NAMED['82']], [NAMED['58(True, False, False, True)']]]
    two = [[NAMED['151'], NAMED['82']], [NAMED['58(False, True, False, True)'], NAMED['58(True, False, False, False)']], [NAMED['2412'], NAMED['58(True, False, False, True)'], NAMED['15']]]
    out = [kill_suite('killed', one if deep else [g for g in one if g[0][0] in HALF], BEFORE if deep else BEFORE[:1], every, 'the process is killed at every byte of the append of every kind (quick: of twelve)'),
           error_suite('refused', one if deep else few, BEFORE if deep else BEFORE[:1], every, 'the system refuses every byte of the append of every kind (quick: of five)', thens=('the same', 'another') if deep else ('the same',)),
           error_suite('refused-then-another', small, BEFORE[1:3] if deep else BEFORE[1:2], every, 'another set is appended afterwards', thens=('another',)),
           kill_suite('killed-list', two, BEFORE if deep else BEFORE[2:3], every, 'lists, killed at every byte'),
           error_suite('refused-list', two if deep else two[:2], BEFORE if deep else BEFORE[2:3], every, 'lists, every byte refused', thens=('the same', 'another') if deep else ('the same',)),
           error_suite('refused-absent', one[:6] if deep else small[:1], BEFORE[5:], every, 'an empty or absent file, every byte refused'),
           kill_suite('killed-large', large, BEFORE[:1], every if deep else some, 'sets of several buffers, killed at every byte (quick: around every buffer boundary)'),
           error_suite('refused-large', large, BEFORE[:1], every if deep else some, 'sets of several buffers'),
           Suite('opens', opens, rule='every failing open in the course of an append'), Suite('refusals', refusals, rule='files that cannot be written')]
    out += [line_suite(one if deep else [[NAMED[k]] for k in ('151', '58(False, True, False, True)')] + two[:1], BEFORE + ODD if deep else ['58b', 'no newline', 'crlf', 'blanks', 'remains']), Suite('below', lambda ctx: below(ctx, 1 if deep else 53), rule='limits below the size of the file')]
    if deep:
        out.append(error_suite('refused-twice', one[:4], BEFORE[:2], lambda n: sorted(set(list(range(0, n + 1, 13)) + [n - 1, n - 7, n])), 'two failures in a row', again=True))
    return out
