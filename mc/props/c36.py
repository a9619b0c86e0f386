"""C36: a call leaves the process as it was."""
import builtins
import codecs
import contextlib
import copy
import decimal
import faulthandler
import gc
import io
import locale
import math
import os
import random
import re
import resource
import signal
import struct
import sys
import tempfile
import threading
import time
import types
import warnings

import numpy as np

from .. import alpha, history as H, lib, prep, roundtrip as rt, sets
from ..engine import Suite
from ..layout import Enc

BOUND = {'quick': 'every call of the library on every layout of every kind, successful and failing (28 calls, lists of up to 12 sets among them), every prepare function with each argument good and bad, in the usual state of a process and an unusual one; '
                  'every pair of calls for two kinds; every header field written and read at every value; 0 to 1000 entries; compared: current folder, environment, umask, locale, time zone, numpy error state, print options and random state, random, decimal, warning filters, streams, '
                  'limits, signal handlers, threads, collector, the names of the modules used, temporary folder and open descriptors, and what is printed',
         'thorough': 'every pair of calls for every kind, triples for two'}
ASSUMPTIONS = ['fix_58b tells on the output where it wrote; reading a 2414 of an unsupported location says so', 'names starting with __ are not compared; modules may be imported']

KINDS = H.models(H.EVERY)
NAMED = {k[0]: k for k in KINDS}
SIGNALS = sorted(s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP))
MODULES = [builtins, os, os.path, io, sys, np, np.linalg, locale, time, warnings, re, struct, math, codecs]
HANDLERS = ['strict', 'ignore', 'replace', 'backslashreplace', 'surrogateescape', 'xmlcharrefreplace', 'namereplace', 'surrogatepass']


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def names(m):
    return {k: id(v) for k, v in vars(m).items() if not k.startswith('__') and not isinstance(v, types.ModuleType) and k not in ('last_exc', 'last_type', 'last_value', 'last_traceback')}


def state():
    """Everything outside the library that a call could change."""
    out = {'current folder': os.getcwd(), 'environment': dict(os.environ), 'umask': umask(), 'locale': locale.setlocale(locale.LC_ALL), 'time zone': time.tzname,
           'numpy error state': np.geterr(), 'numpy error call': np.geterrcall(), 'print options': np.get_printoptions(), 'numpy random state': [str(x) for x in np.random.get_state()],
           'random state': hash(random.getstate()), 'decimal context': str(decimal.getcontext()), 'warning filters': list(warnings.filters), 'showwarning': id(warnings.showwarning),
           'streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin)], 'encodings': [getattr(s, 'encoding', None) for s in (sys.stdout, sys.stderr)], 'search path': list(sys.path),
           'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(), 'hooks': [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook), id(sys.breakpointhook)], 'tracing': (sys.getprofile(), threading.gettrace()), 'buffer size': np.getbufsize(),
           'error handlers': [id(codecs.lookup_error(h)) for h in HANDLERS], 'fault handler': faulthandler.is_enabled(), 'original streams': [id(sys.__stdout__), id(sys.__stderr__)],
           'settings of the streams': [(getattr(x, 'errors', None), getattr(x, 'line_buffering', None), getattr(x, 'newlines', None)) for x in (sys.__stdout__, sys.__stderr__)],
           'local conventions': locale.localeconv(), 'int digits': sys.get_int_max_str_digits(),
           'collector': (gc.isenabled(), gc.get_threshold()), 'signal handlers': [signal.getsignal(s) for s in SIGNALS], 'blocked signals': signal.pthread_sigmask(signal.SIG_BLOCK, []),
           'timers': signal.getitimer(signal.ITIMER_REAL)[1], 'threads': threading.active_count(), 'priority': os.getpriority(os.PRIO_PROCESS, 0),
           'limits': [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE)],
           'descriptors': sorted(os.listdir('/proc/self/fd')), 'temporary folder': (tempfile.gettempdir(), sorted(os.listdir(tempfile.gettempdir()))), 'folder': sorted(os.listdir('.')),
           'command line': list(sys.argv)}
    for m in MODULES:
        out['names of ' + m.__name__] = names(m)
    out['names of pyuff'] = sorted(k for k, v in vars(lib.pyuff).items() if not k.startswith('_') and not isinstance(v, types.ModuleType))
    return out


def odd_state(root):
    """Settings a program may have made."""
    os.chdir(os.path.join(root, 'elsewhere'))
    os.environ['TMPDIR'] = os.path.join(root, 'tmp')
    os.environ['MARK'] = 'set'
    tempfile.tempdir = os.path.join(root, 'tmp')
    os.umask(0o027)
    np.seterr(over='warn', invalid='warn', divide='call', under='ignore')
    np.seterrcall(print)
    np.set_printoptions(precision=3, threshold=5, suppress=True)
    np.random.seed(5)
    random.seed(5)
    decimal.getcontext().prec = 7
    warnings.filters[:] = [('ignore', None, Warning, None, 0), ('default', None, DeprecationWarning, None, 0)]
    sys.setrecursionlimit(1500)
    sys.setswitchinterval(.0125)
    gc.set_threshold(500, 7, 7)
    gc.disable()
    signal.signal(signal.SIGUSR2, lambda *a: None)
    signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
    sys.path.append(os.path.join(root, 'nowhere'))
    try:
        locale.setlocale(locale.LC_ALL, 'C.UTF-8')
    except locale.Error:
        pass


@contextlib.contextmanager
def process(ctx, how):
    """A process in that state; afterwards all is as it was for the engine."""
    root = os.path.join(ctx.scratch, 'p')
    for d in ('tmp', 'elsewhere', 'f'):
        os.makedirs(os.path.join(root, d))
    kept = (os.getcwd(), dict(os.environ), os.umask(0o22), np.geterr(), np.geterrcall(), np.get_printoptions(), np.random.get_state(), random.getstate(), decimal.getcontext().copy(), list(warnings.filters),
            sys.getrecursionlimit(), sys.getswitchinterval(), gc.get_threshold(), gc.isenabled(), signal.getsignal(signal.SIGUSR2), list(sys.path), tempfile.tempdir, sys.stdout, sys.stderr,
            signal.pthread_sigmask(signal.SIG_BLOCK, []), locale.setlocale(locale.LC_ALL))
    try:
        os.chdir(root)
        if how == 'odd':
            odd_state(root)
        else:
            tempfile.tempdir = os.path.join(root, 'tmp')
        yield root
    finally:
        os.chdir(kept[0])
        os.environ.clear()
        os.environ.update(kept[1])
        os.umask(kept[2])
        np.seterr(**kept[3])
        np.seterrcall(kept[4])
        np.set_printoptions(**{k: v for k, v in kept[5].items() if k != 'override_repr'})
        np.random.set_state(kept[6])
        random.setstate(kept[7])
        decimal.setcontext(kept[8])
        warnings.filters[:] = kept[9]
        sys.setrecursionlimit(kept[10])
        sys.setswitchinterval(kept[11])
        gc.set_threshold(*kept[12])
        (gc.enable if kept[13] else gc.disable)()
        signal.signal(signal.SIGUSR2, kept[14])
        sys.path[:] = kept[15]
        tempfile.tempdir = kept[16]
        sys.stdout, sys.stderr = kept[17], kept[18]
        signal.pthread_sigmask(signal.SIG_SETMASK, kept[19])
        locale.setlocale(locale.LC_ALL, kept[20])


def call(ctx, who, f, *a, silent=True, **k):
    """A call; what it gave, or None if it raised."""
    out, err = io.StringIO(), io.StringIO()
    streams = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    before = state()
    try:
        try:
            r = f(*a, **k)
        except Exception:
            r = None
        after = state()
    finally:
        sys.stdout, sys.stderr = streams
    for key, v in before.items():
        if after[key] != v:
            was, now = v, after[key]
            if isinstance(v, dict):
                was = {x: v.get(x) for x in set(v) | set(now) if v.get(x) != now.get(x)}
                now = {x: now.get(x) for x in was}
            ctx.fail('%s: %s: was %.100s, is %.100s' % (who, key, was, now))
    if silent:
        ctx.check(not out.getvalue() and not err.getvalue(), '%s prints %.100r', who, out.getvalue() or err.getvalue())
    ctx.op()
    return r


DAMAGED = b'    -1\n   151\nx\n    -1\n    -1\n   164\nx y\n    -1\n'
BAD = {}


def damaged(kind):
    """Files with one set of the kind that cannot be read, for several reasons."""
    label, t, m = kind
    if label not in BAD:
        raw = t.block58b(m) if t.num == 58 and m['variant'][3] else t.block(m, Enc()).encode('utf-8')
        rows = raw.split(b'\n')[2:-2]
        out = []
        for rows in ([rows[:k] for k in range(min(len(rows), 16))] + [rows[:k] + [b' x y z'] + rows[k + 1:] for k in range(min(len(rows), 16))] + [[r.replace(b'1', b'x') for r in rows], [b''] * len(rows)]):
            out.append(b'    -1\n%6d\n' % t.num + b''.join(r + b'\n' for r in rows) + b'    -1\n')
        BAD[label] = out
    return BAD[label]


CALLS = ['open', 'open absent', 'open by fileName', 'open a folder', 'queries', 'refresh', 'add', 'overwrite', 'add single', 'list', 'long list', 'unsupported', 'rejected', 'rejected list', 'unknown mode', 'nothing', 'to a folder', 'no folder',
         'read', 'read first', 'read header', 'read list', 'read beyond', 'read absent', 'read damaged', 'read text', 'fix', 'fix absent', 'fix to']


def calls(ctx, what, kind, root, u):
    """One call of the library."""
    label, t, m = kind
    root = os.path.join(root, 'f')
    path = os.path.join(root, '..', 'f', 'a.uff')
    made = lambda: t.dset(m)    # noqa: E731
    if u is None:
        lib.put(os.path.join(root, 'a.uff'), FILE)
        u = lib.pyuff.UFF(os.path.join(root, 'a.uff'))
    who = '%s, %s' % (what, label)
    if what == 'open':
        call(ctx, who, lib.pyuff.UFF, path)
    elif what == 'open absent':
        call(ctx, who, lib.pyuff.UFF, path + 'x')
    elif what == 'open by fileName':
        call(ctx, who, lib.pyuff.UFF, fileName=path, silent=False)
    elif what == 'open a folder':
        call(ctx, who, lib.pyuff.UFF, root)
    elif what == 'queries':
        for f in (u.get_n_sets, u.get_set_types, u.get_set_formats, u.get_status, u.file_exists, u.get_file_name, u.get_supported_sets):
            call(ctx, who, f)
    elif what == 'refresh':
        call(ctx, who, u.refresh)
    elif what in ('add', 'overwrite'):
        call(ctx, who, u.write_sets, made(), what)
    elif what == 'add single':
        call(ctx, who, u.write_sets, made(), 'add', False)
    elif what == 'list':
        call(ctx, who, u.write_sets, [made(), {'type': 9999}, made()], 'add')
    elif what == 'long list':
        call(ctx, who, u.write_sets, [made() for _ in range(12)], 'overwrite')
        call(ctx, who, u.read_sets, silent=t.num != 2414)
        call(ctx, who, u.read_sets, list(range(12)), silent=t.num != 2414)
    elif what == 'unsupported':
        call(ctx, who, u.write_sets, dict(made(), type=9999), 'add')
    elif what in ('rejected', 'rejected list'):
        d = made()
        for k in [k for k in d if k != 'type'][::2]:
            d[k] = object()
        call(ctx, who, u.write_sets, d if what == 'rejected' else [made(), d], 'add')
    elif what == 'unknown mode':
        call(ctx, who, u.write_sets, made(), 'append')
    elif what == 'nothing':
        call(ctx, who, u.write_sets, [], 'add')
    elif what == 'to a folder':
        os.makedirs(os.path.join(root, 'folder'), exist_ok=True)
        if os.path.isdir(os.path.join(root, 'folder', 'x.uff')):
            os.rmdir(os.path.join(root, 'folder', 'x.uff'))
        v = lib.pyuff.UFF(os.path.join(root, 'folder', 'x.uff'))
        os.makedirs(os.path.join(root, 'folder', 'x.uff'), exist_ok=True)
        call(ctx, who, v.write_sets, made(), 'add')
        call(ctx, who, v.refresh)
        call(ctx, who, v.read_sets)
    elif what == 'no folder':
        v = lib.pyuff.UFF(os.path.join(root, 'no', 'x.uff'))
        call(ctx, who, v.write_sets, made(), 'overwrite')
    elif what.startswith('read'):
        if what == 'read damaged':
            for i, data in enumerate([DAMAGED] + damaged(kind)):
                lib.put(path, data)
                u.refresh()
                call(ctx, '%s %d' % (who, i), u.read_sets, silent=t.num != 2414)
                if i < 3:
                    call(ctx, who, u.read_sets, 0, silent=t.num != 2414)
        elif what == 'read absent':
            call(ctx, who, lib.pyuff.UFF(path + 'x').read_sets)
        else:
            call(ctx, who, u.read_sets, *{'read': (), 'read first': (0,), 'read header': (None, True), 'read list': ([0, 0],), 'read beyond': (99,), 'read text': ('a',)}[what],
                 silent=not any(int(x) == 2414 for x in u.get_set_types()) or t.num == 2414 and m['variant'] != (5, False))
    elif what == 'fix':
        call(ctx, who, lib.pyuff.fix_58b, path, silent=False)
    elif what == 'fix absent':
        call(ctx, who, lib.pyuff.fix_58b, path + 'x', silent=False)
    else:
        call(ctx, who, lib.pyuff.fix_58b, path, os.path.join(root, 'b.uff'), silent=False)
    return u


FILE = b''
for _k in ('151', '58(False, True, False, True)'):
    FILE += NAMED[_k][1].block58b(NAMED[_k][2]) if _k.startswith('58') else NAMED[_k][1].block(NAMED[_k][2], Enc()).encode('utf-8')


def single(ctx):
    kind = ctx.choose('kind', KINDS)
    how = ctx.choose('process', ['usual', 'odd'])
    with process(ctx, how) as root:
        path = os.path.join(root, 'f', 'a.uff')
        lib.put(path, b'')
        u = lib.pyuff.UFF(path)
        for what in CALLS:
            u = calls(ctx, what, kind, root, u)
            if what == 'read damaged':
                lib.put(path, FILE)
    ctx.observe(kind[0], how)


def sequences(tier):
    kinds = ['151', '58(False, True, False, True)'] if tier == 'quick' else list(NAMED)

    def driver(ctx):
        kind = NAMED[ctx.choose('kind', kinds)]
        how = ctx.choose('process', ['usual', 'odd'])
        n = 2 if tier == 'quick' or kind[0] not in ('151', '58(False, True, False, True)') else 3
        whats = [ctx.choose('call', CALLS) for _ in range(n)]
        with process(ctx, how) as root:
            u = None
            for what in whats:
                u = calls(ctx, what, kind, root, u)
        ctx.observe(kind[0], how, whats)
        ctx.note('%s' % whats)
    return Suite('sequences', driver, rule='every sequence of calls')


def values(tier):
    kinds = [k for k in KINDS if k[1].header(k[2])]

    def driver(ctx):
        kind = ctx.choose('kind', kinds)
        _, t, m = kind
        head = [f for f in t.header(m) if f[0] in m and f[0] not in rt.FIXED.get(t.num, ())]
        f = ctx.choose('field', [f[0] for f in head])
        f = {x[0]: x for x in head}[f]
        how = ctx.choose('process', ['usual', 'odd'])
        with process(ctx, how) as root:
            path = os.path.join(root, 'f', 'a.uff')
            u = lib.pyuff.UFF(path)
            for v in rt.CODES.get((t.num, f[0])) or alpha.field(f, tier != 'quick'):
                call(ctx, '%s=%r' % (f[0], v), u.write_sets, t.dset(dict(m, **{f[0]: v})), 'overwrite')
                call(ctx, '%s=%r' % (f[0], v), u.read_sets, silent=t.num != 2414)
        ctx.observe(kind[0], f[0], how)
    return Suite('values', driver, rule='every header field of every kind at every value')


def sizes(tier):
    """Sets with more and more entries."""
    counted = [H.Kind((k[0], k[1], v)) for k, (num, v, n) in zip(KINDS, H.EVERY) if n is not None or num == 2412]
    ns = [0, 1, 2, 4, 5, 8, 9, 16, 17, 64, 100, 257] + ([1000, 4097] if tier != 'quick' else [1000])

    def driver(ctx):
        kind = ctx.choose('kind', counted)
        n = ctx.choose('entries', ns[1:] if kind[1].num == 58 else ns)
        how = ctx.choose('process', ['usual', 'odd'])
        with process(ctx, how) as root:
            path = os.path.join(root, 'f', 'a.uff')
            u = lib.pyuff.UFF(path)
            d = kind[1].dset(kind[1].base(kind[2], n) if kind[2] is not None else kind[1].base(n=n))
            for mode in ('add', 'overwrite'):
                call(ctx, '%s of %d in %s' % (mode, n, kind[0]), u.write_sets, d, mode)
            for a in ((), (0,), (None, True)):
                call(ctx, 'read%s of %d in %s' % (a, n, kind[0]), u.read_sets, *a, silent=kind[1].num != 2414)
        ctx.observe(kind[0], n, how)
    return Suite('sizes', driver, rule='every kind x number of entries')


def prepared(ctx):
    f = ctx.choose('function', prep.FUNCTIONS)
    arg = ctx.choose('argument', list(f.args))
    how = ctx.choose('process', ['usual', 'odd'])
    with process(ctx, how):
        base = {a: f.good(a)[0].make() for a in f.needed if a != arg}
        for v in f.good(arg) + f.bad(arg):
            call(ctx, '%s(%s=%s)' % (f, arg, v), f.f, **dict(base, **{arg: v.make()}))
    ctx.observe(f.name, arg, how)


def converted(ctx):
    how = ctx.choose('process', ['usual', 'odd'])
    kind = ctx.choose('kind', [k for k in KINDS if k[1].num in (2412, 82, 151)])
    from pyuff import tools
    with process(ctx, how):
        d = kind[1].dset(kind[2])
        call(ctx, 'convert', tools.convert_dataset_2412_to_82, [d, copy.deepcopy(d)])
        p = 'x.uff'
        lib.write(p, d)
        call(ctx, 'convert', tools.convert_dataset_2412_to_82, H.as_list(lib.read(p)))
    ctx.observe(kind[0], how)


def suites(tier):
    return [Suite('single', single, rule='every call in turn: kind x state of the process'), sequences(tier), values(tier), sizes(tier), Suite('prepared', prepared, rule='every function x argument x value'), Suite('converted', converted, rule='conversion')]
