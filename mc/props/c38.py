"""C38: calls interrupted at any point."""
import copy
import os
import sys
import warnings

import numpy as np

from .. import history as H, lib, prep, sets, threads
from ..engine import HarnessError, Suite
from ..layout import Enc
from .c27 import still_open

BOUND = {'quick': 'every kind x 16 calls (making an object, queries, refreshing, reading in 5 ways, adding, overwriting, lists, rejected and unknown sets), every prepare function with good and bad arguments, fix_58b, the 2412 conversion: '
                  'KeyboardInterrupt, MemoryError and OSError raised before every executed line of the library',
         'thorough': 'raised before every executed bytecode; every damaged body of every kind'}
ASSUMPTIONS = ['the exception arrives between lines (thorough: bytecodes) of the library, not inside numpy or the standard library, and once per call', 'what an object says after an interrupted write is judged after a refresh']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}
FIRST, LAST = NAMED['164'], NAMED['58(True, False, False, True)']


class Refused(OSError):
    pass


class OutOfMemory(MemoryError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


KINDS_OF = [Interrupt, OutOfMemory, Refused]


class NoCall:
    """What a call that raised gave."""


def run(f, stop=0, exc=None, fine=False):
    """Calls f, raising exc before the given step; (what it gave or the exception, steps, where)."""
    count, where = [0], [None]
    event_name = 'opcode' if fine else 'line'

    def step(frame, event, arg):
        if event == event_name:
            count[0] += 1
            if count[0] == stop:
                where[0] = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise exc()
        return step

    def call(frame, event, arg):
        if not threads.ours(frame.f_code):
            return None
        if fine:
            frame.f_trace_opcodes = True
        return step
    sys.settrace(call)
    try:
        r = f()
    except BaseException as e:
        sys.settrace(None)
        if isinstance(e, HarnessError) or type(e).__name__ == 'Hang':
            raise
        r = NoCall
    finally:
        sys.settrace(None)
    return r, count[0], where[0]


BASE = {}


def base(ctx, kind):
    """The file of three sets with one of the kind in the middle."""
    if kind[0] not in BASE:
        p = ctx.file('base.uff')
        u = lib.pyuff.UFF(p)
        u.write_sets([k[1].dset(k[2]) for k in (FIRST, kind, LAST)], 'add')
        BASE[kind[0]] = lib.data_of(p)
        os.remove(p)
    return BASE[kind[0]]


def process():
    return {'current folder': os.getcwd(), 'environment': dict(os.environ), 'error state': np.geterr(), 'print options': np.get_printoptions(), 'warning filters': list(warnings.filters), 'streams': (id(sys.stdout), id(sys.stderr)),
            'recursion limit': sys.getrecursionlimit()}


def types_of(u):
    return u.get_n_sets(), [int(x) for x in u.get_set_types()], [int(x) for x in u.get_set_formats()]


def header(u):
    return u.read_sets(None, header_only=True)


SOME = ('164', '58(True, False, False, True)', '151', '58(False, True, False, False)', '2412', '2414(1, False)')


def menu(calls, kind, tier):
    """The calls explored for that kind."""
    few = ('read one', 'read header', 'add', 'overwrite', 'rejected')
    return [c for c in calls if tier != 'quick' or kind[0] in SOME or c in few and (c != 'read header' or kind[1].num == 58)]


def rejected(t, m):
    d = t.dset(m)
    for k in [k for k in d if k != 'type'][::2]:
        d[k] = object()
    return d


READS = {'new object': None, 'queries': types_of, 'refresh': None, 'read': lambda u: u.read_sets(), 'read one': lambda u: u.read_sets(1), 'read list': lambda u: u.read_sets([2, 1]), 'read header': header, 'read beyond': lambda u: u.read_sets(7)}
WRITES = {'add': lambda d: (d, 'add', True), 'overwrite': lambda d: (d, 'overwrite', True), 'add single': lambda d: (d, 'add', False), 'list': lambda d: ([d, FIRST[1].dset(FIRST[2])], 'add', True),
          'overwrite list': lambda d: ([d, FIRST[1].dset(FIRST[2])], 'overwrite', True), 'rejected': None, 'unsupported': lambda d: (dict(d, type=9999), 'add', True), 'first': lambda d: (d, 'add', True), 'add after text': lambda d: (d, 'add', True),
          'list after text': lambda d: ([d, FIRST[1].dset(FIRST[2])], 'add', True)}
STEPS = {}
WANT = {}


def reading(what, path, u):
    if what == 'new object':
        return lambda: types_of(lib.pyuff.UFF(path))
    if what == 'refresh':
        return u.refresh
    return lambda: READS[what](u)


def after(ctx, before, who):
    now = process()
    for k, v in before.items():
        ctx.check(now[k] == v, '%s: %s was %.100s, is %.100s', who, k, v, now[k])
    left = still_open(ctx.scratch + os.sep, False)
    ctx.check(not left, '%s: still open: %s', who, left)


def same(a, b):
    return H.same(list(a) if isinstance(a, tuple) else a, list(b) if isinstance(b, tuple) else b)


def reads(tier):
    fine = tier != 'quick'

    def driver(ctx):
        kind = ctx.choose('set', KINDS)
        what = ctx.choose('call', menu(READS, kind, tier))
        raw = base(ctx, kind)
        path = ctx.file()
        lib.put(path, raw)
        u = lib.pyuff.UFF(path)
        key = kind[0], what
        if key not in STEPS:
            run(reading(what, path, u))
            WANT[key], STEPS[key], _ = run(reading(what, path, u), fine=fine)
            if (WANT[key] is NoCall) != (what == 'read beyond'):
                ctx.fail('%s without an interrupt: %r' % (what, WANT[key]))
        exc = ctx.choose('raised', KINDS_OF if kind in (FIRST, LAST) else KINDS_OF[:2])
        stop = ctx.choose('before step', list(range(1, STEPS[key] + 1)))
        before = process()
        got, _, where = run(reading(what, path, u), stop, exc, fine)
        who = '%s of %s, %s at %s' % (what, kind[0], exc.__name__, where)
        if where is None:
            # fewer steps this time: nothing was raised
            ctx.check((got is NoCall) == (WANT[key] is NoCall), '%s: %s', who, got)
        ctx.check(got is NoCall or WANT[key] is not NoCall and same(got, WANT[key]), '%s: the call returned something else: %.200s', who, got)
        ctx.check(lib.data_of(path) == raw, '%s: the file changed', who)
        after(ctx, before, who)
        # the object is as good as before
        if what != 'new object':
            ctx.check(types_of(u) == types_of(lib.pyuff.UFF(path)), '%s: the object finds %s in the file', who, types_of(u))
        try:
            again = reading(what, path, u)()
        except Exception:
            again = NoCall
        ctx.check(again is NoCall if WANT[key] is NoCall else again is not NoCall and same(again, WANT[key]), '%s: the same call again gave %.200s', who, again)
        ctx.op(3)
        ctx.observe(kind[0], what, exc.__name__, stop)
        ctx.note(who)
    return Suite('reads', driver, rule='every kind x reading call x exception x executed step')


def writes(tier):
    fine = tier != 'quick'

    def driver(ctx):
        kind = ctx.choose('set', KINDS)
        _, t, m = kind
        what = ctx.choose('call', menu(WRITES, kind, tier))
        path = ctx.file()
        raw = base(ctx, kind) if what != 'first' else None
        if what.endswith('after text'):
            raw += b'a line without an end'

        def prepare():
            if raw is not None:
                lib.put(path, raw)
            elif os.path.exists(path):
                os.remove(path)
            d = t.dset(m) if what != 'rejected' else rejected(t, m)
            args = WRITES[what](d) if what != 'rejected' else (d, 'add', True)
            u = lib.pyuff.UFF(path)
            return u, args
        key = kind[0], what
        if key not in STEPS:
            u, args = prepare()
            run(lambda: u.write_sets(*args))
            u, args = prepare()
            r, STEPS[key], _ = run(lambda: u.write_sets(*args), fine=fine)
            if (r is NoCall) != (what == 'rejected'):
                # some values of some kinds are stored as they print
                ctx.check(what == 'rejected', '%s without an interrupt: %r', what, r)
                STEPS[key] = 0
            done = lib.data_of(path) if os.path.exists(path) else None
            stages = [raw, done]
            if 'list' in what:
                # the first set alone
                u, args = prepare()
                u.write_sets(args[0][0], args[1], args[2])
                stages.insert(1, lib.data_of(path))
            WANT[key] = stages
        stages = WANT[key]
        if not STEPS[key]:
            return
        exc = ctx.choose('raised', KINDS_OF if kind in (FIRST, LAST) else KINDS_OF[:2])
        stop = ctx.choose('before step', list(range(1, STEPS[key] + 1)))
        u, args = prepare()
        before = process()
        got, _, where = run(lambda: u.write_sets(*args), stop, exc, fine)
        who = '%s of %s, %s at %s' % (what, kind[0], exc.__name__, where)
        now = lib.data_of(path) if os.path.exists(path) else None
        if got is NoCall:
            allowed = stages + ([b''] if 'overwrite' in what or raw is None else [])
            ctx.check(now in allowed, '%s: the file holds %s bytes, it had %s and would have had %s', who, now is not None and len(now), raw is not None and len(raw), stages[-1] is not None and len(stages[-1]))
        else:
            ctx.check(what != 'rejected' and now == stages[-1], '%s: the call returned, the file holds %s bytes, expected %s', who, now is not None and len(now), stages[-1] is not None and len(stages[-1]))
        after(ctx, before, who)
        # the object after a refresh, and a new one
        u.refresh()
        v = lib.pyuff.UFF(path)
        ctx.check(types_of(u) == types_of(v), '%s: the object finds %s, a new one %s', who, types_of(u), types_of(v))
        # the same call again stores what it would have stored
        if now == raw or now == b'':
            try:
                u.write_sets(*args)
                ok = what != 'rejected'
            except Exception:
                ok = what == 'rejected'
            ctx.check(ok, '%s: the same call again %s', who, 'is not refused' if what == 'rejected' else 'raises')
            again = lib.data_of(path) if os.path.exists(path) else None
            want = stages[-1] if now == raw or 'overwrite' in what or raw is None else None
            if want is not None:
                ctx.check(again == want, '%s: the same call again makes a file of %s bytes, expected %s', who, again is not None and len(again), len(want))
            ctx.op()
        ctx.op(3)
        ctx.observe(kind[0], what, exc.__name__, stop)
        ctx.note(who)
    return Suite('writes', driver, rule='every kind x writing call x exception x executed step')


def broken(tier):
    """Sets that cannot be read do not become readable."""
    fine = tier != 'quick'
    from .c36 import damaged

    def driver(ctx):
        kind = ctx.choose('set', KINDS)
        bodies = damaged(kind)
        k = ctx.choose('body', list(range(len(bodies))) if fine else list(range(0, len(bodies), 5)))
        path = ctx.file()
        lib.put(path, bodies[k])
        u = lib.pyuff.UFF(path)
        if u.get_n_sets() != 1:
            return
        key = kind[0], k
        if key not in STEPS:
            run(lambda: u.read_sets(0))
            WANT[key], STEPS[key], _ = run(lambda: u.read_sets(0), fine=fine)
        stop = ctx.choose('before step', list(range(1, STEPS[key] + 1)))
        exc = ctx.choose('raised', KINDS_OF[:2])
        got, _, where = run(lambda: u.read_sets(0), stop, exc, fine)
        who = 'body %d of %s, %s at %s' % (k, kind[0], exc.__name__, where)
        ctx.check(got is NoCall or WANT[key] is not NoCall and same(got, WANT[key]), '%s: the call returned something else: %.200s', who, got)
        ctx.op()
        ctx.observe(key, stop, exc.__name__)
    return Suite('broken', driver, rule='damaged bodies x executed step')


def prepared(tier):
    fine = tier != 'quick'

    def driver(ctx):
        f = ctx.choose('function', prep.FUNCTIONS)
        arg = ctx.choose('argument', ['all', 'full'] + list(f.args))
        if arg in ('all', 'full'):
            v = None
            make = lambda: dict({a: f.good(a)[0].make() for a in f.args}, **({'return_full_dict': True} if arg == 'full' and not f.name.startswith('prepare_group') else {}))    # noqa: E731
        else:
            v = ctx.choose('value', f.good(arg)[:1] + f.bad(arg)[:1] + f.bad(arg)[-1:])
            make = lambda: dict({a: f.good(a)[0].make() for a in f.needed}, **{arg: v.make()})    # noqa: E731
        key = f.name, arg, repr(v)
        if key not in STEPS:
            run(lambda: f.f(**make()))
            WANT[key], STEPS[key], _ = run(lambda: f.f(**make()), fine=fine)
        stop = ctx.choose('before step', list(range(1, STEPS[key] + 1)))
        exc = ctx.choose('raised', KINDS_OF[:2])
        args, kept = make(), make()
        before = process()
        got, _, where = run(lambda: f.f(**args), stop, exc, fine)
        who = '%s(%s=%s), %s at %s' % (f, arg, v, exc.__name__, where)
        ctx.check(got is NoCall or WANT[key] is not NoCall and same(got, WANT[key]), '%s: the call returned something else: %.200s', who, got)
        ctx.check(same(args, kept), '%s: the arguments changed', who)
        after(ctx, before, who)
        try:
            again = f.f(**args)
        except Exception:
            again = NoCall
        ctx.check(again is NoCall if WANT[key] is NoCall else again is not NoCall and same(again, WANT[key]), '%s: the same call again gave %.200s', who, again)
        ctx.op(2)
        ctx.observe(key, stop, exc.__name__)
    return Suite('prepared', driver, rule='every prepare function, good and bad arguments x executed step')


def tools(tier):
    fine = tier != 'quick'
    from pyuff.tools import convert_dataset_2412_to_82

    def driver(ctx):
        what = ctx.choose('call', ['fix_58b', 'fix_58b to', 'convert'])
        exc = ctx.choose('raised', KINDS_OF)
        path = ctx.file()
        raw = base(ctx, NAMED['58(False, True, False, True)'])
        lib.put(path, raw)
        new = os.path.splitext(path)[0] + '_fixed' + os.path.splitext(path)[1] if what == 'fix_58b' else ctx.file('other.uff')

        def go(result):
            if os.path.exists(new):
                os.remove(new)
            if what == 'convert':
                d = NAMED['2412'][1].dset(NAMED['2412'][2])
                d = H.as_list(result)
                return lambda: convert_dataset_2412_to_82(d)
            return lambda: lib.pyuff.fix_58b(path, *([] if what == 'fix_58b' else [new]))
        lib.write(ctx.file('quads.uff'), NAMED['2412'][1].dset(NAMED['2412'][2]))
        one = lib.read(ctx.file('quads.uff'))
        given = [copy.deepcopy(one), copy.deepcopy(one)]
        key = what,
        if key not in STEPS:
            run(go(given))
            r, STEPS[key], _ = run(go(given), fine=fine)
            WANT[key] = r, lib.data_of(new) if os.path.exists(new) else None
            if r is NoCall or (what != 'convert') != (WANT[key][1] is not None):
                ctx.fail('%s without an interrupt: %r' % (what, r))
        stop = ctx.choose('before step', list(range(1, STEPS[key] + 1)))
        before = process()
        f = go(given)
        got, _, where = run(f, stop, exc, fine)
        who = '%s, %s at %s' % (what, exc.__name__, where)
        ctx.check(lib.data_of(path) == raw, '%s: the original changed', who)
        if got is not NoCall:
            ctx.check(same(got, WANT[key][0]) and (what == 'convert' or lib.data_of(new) == WANT[key][1]), '%s: the call returned something else', who)
        ctx.check(same(given, [one, one]), '%s: what was given changed', who)
        after(ctx, before, who)
        again = f()
        ctx.check(same(again, WANT[key][0]) and (what == 'convert' or lib.data_of(new) == WANT[key][1]), '%s: the same call again gave something else', who)
        ctx.op(2)
        ctx.observe(what, exc.__name__, stop)
    return Suite('tools', driver, rule='fix_58b and the conversion x executed step')


def suites(tier):
    # settings that a call could change without notice if they were all the same
    np.seterr(over='warn', divide='ignore', invalid='warn', under='ignore')
    np.set_printoptions(precision=5, threshold=77)
    return [reads(tier), writes(tier), broken(tier), prepared(tier), tools(tier)]
