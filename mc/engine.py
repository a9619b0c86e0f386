"""Stateless, exhaustive exploration of bounded choice trees on the real code.

A *driver* is a function driver(ctx) that makes every nondeterministic decision through ctx:

    ctx.choose(label, options)   free choice: every option is combined with everything else
    ctx.dev(label, options)      deviation: option 0 is the default answer; the number of non-default answers in one
                                 execution is limited (bound), optionally to answers close together (window)

The explorer runs the driver once for every admissible sequence of answers (depth first, by replaying prefixes).  A
driver that asks something else while a prefix is replayed is nondeterministic, which is a hard error.
"""
import contextlib
import hashlib
import json
import multiprocessing
import os
import queue
import shutil
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property is broken in this execution."""


class HarnessError(BaseException):
    """The machinery itself is broken (never reported as a violation)."""


class Skip(BaseException):
    """This combination of choices is outside the explored space."""


class Hang(BaseException):
    pass


@contextlib.contextmanager
def quiet():
    """What the library prints goes nowhere."""
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        yield


class Ctx:
    """One execution."""

    def __init__(self, prefix, scratch, tier, trace=False):
        self.prefix = prefix
        self.scratch = scratch
        self.tier = tier
        self.points = []          # (kind, number of options, index taken)
        self.log = [] if trace else None
        self.n_ops = 0
        self.hashes = []
        self.hung = False
        self.nontrivial = True
        self.note_ = None

    # -- decisions
    def _take(self, kind, label, options):
        i = len(self.points)
        n = len(options)
        if n == 0:
            raise HarnessError('no options at %s' % label)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise Violation('not repeatable: the same operations led elsewhere (%s has %d options, wanted %d)' % (label, n, k))
        else:
            k = 0
        self.points.append((kind, n, k))
        if self.log is not None and (kind == 'free' or k):
            self.log.append('%s = %s' % (label, short(options[k])))
        return options[k]

    def choose(self, label, options):
        return self._take('free', label, options)

    def dev(self, label, options):
        return self._take('dev', label, options)

    # -- observations
    def op(self, n=1):
        self.n_ops += n

    def observe(self, *what):
        h = hashlib.blake2b(digest_size=8)
        for w in what:
            h.update(w if isinstance(w, bytes) else repr(w).encode('utf-8', 'replace'))
            h.update(b'\0')
        self.hashes.append(h.digest())

    def note(self, text):
        """What this execution did, for the samples of the evidence file."""
        self.note_ = text

    def fail(self, message):
        raise Violation(message)

    def check(self, cond, message, *args):
        if not cond:
            raise Violation(message % args if args else message)

    def file(self, name='a.uff'):
        return os.path.join(self.scratch, name)


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


class Suite:
    """One bounded space: a driver with its bounds."""

    def __init__(self, name, driver, bound=0, window=None, limit=20.0, rule=''):
        self.name, self.driver, self.bound, self.window = name, driver, bound, window
        self.limit, self.rule = limit, rule


def run_one(suite, prefix, scratch, tier, trace=False):
    """Runs one execution; returns (ctx, violation message or None)."""
    ctx = Ctx(prefix, scratch, tier, trace)
    for f in os.listdir(scratch):
        p = os.path.join(scratch, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)

    def ring(signum, frame):
        ctx.hung = True
        raise Hang('no answer within %s s' % suite.limit)

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, suite.limit, 1.0)
    msg = None
    try:
        suite.driver(ctx)
    except HarnessError:
        raise
    except Skip as e:
        e.ctx = ctx
        raise
    except Violation as e:
        msg = str(e)
    except Hang as e:
        msg = 'hang: ' + str(e)
    except MemoryError:
        msg = 'MemoryError'
    except Exception:
        msg = 'unexpected exception\n' + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if ctx.hung and msg is None:
        msg = 'hang: no answer within %s s' % suite.limit
    return ctx, msg


def _result():
    return {'executions': 0, 'ops': 0, 'hashes': set(), 'violations': [], 'samples': [], 'by_dev': {}, 'skipped': 0,
            'nontrivial': 0, 'capped': False}


def _explore(suite, stack, scratch, tier, slice_, stop_at=8):
    """Depth-first exploration below the given prefixes for slice_ seconds.  Returns (result, prefixes still to explore)."""
    res = _result()
    stack = [list(p) for p in stack]
    until = time.time() + slice_
    while stack and time.time() < until:
        prefix = stack.pop()
        try:
            ctx, msg = run_one(suite, prefix, scratch, tier)
        except Skip as e:
            # the point where it was skipped has siblings too
            ctx, msg = e.ctx, None
            res['skipped'] += 1
        else:
            res['executions'] += 1
            res['nontrivial'] += bool(ctx.nontrivial)
            res['ops'] += ctx.n_ops
            res['hashes'].update(ctx.hashes)
        points = ctx.points
        if len(points) < len(prefix) and msg is None:
            raise HarnessError('nondeterministic driver: %d decisions, %d in the prefix' % (len(points), len(prefix)))
        used = sum(1 for kind, n, k in points if kind == 'dev' and k)
        res['by_dev'][used] = res['by_dev'].get(used, 0) + 1
        if ctx.note_ and len(res['samples']) < 2:
            res['samples'].append('%s: %s' % (suite.name, ctx.note_))
        if msg is not None:
            res['violations'].append({'suite': suite.name, 'choices': [k for _, _, k in points], 'message': msg,
                                      'deviations': used})
            if len(res['violations']) >= stop_at or 'hang:' in msg:
                res['capped'] = True
                return res, []
        kids = []
        spent, last = 0, None
        for i, (kind, n, k) in enumerate(points):
            if i >= len(prefix) and n > 1:
                if kind == 'free' or (spent < suite.bound and
                                      (suite.window is None or last is None or i - last <= suite.window)):
                    head = [p[2] for p in points[:i]]
                    kids.extend(head + [alt] for alt in range(n - 1, 0, -1))
            if kind == 'dev' and k:
                spent, last = spent + 1, i
        stack.extend(kids)
    return res, stack


_JOB = {}


def _job(index, stack, slice_):
    suite = _JOB['suites'][index]
    scratch = os.path.join(_JOB['base'], 'w%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        with quiet():
            res, rest = _explore(suite, stack, scratch, _JOB['tier'], slice_)
        return index, res, rest, None
    except HarnessError as e:
        return index, None, None, 'suite %s: %s' % (suite.name, e)
    except BaseException:
        return index, None, None, 'suite %s: %s' % (suite.name, traceback.format_exc())


def explore_all(suites, tier, base, seed=0, procs=None, deadline=None):
    """Explores all suites in parallel (forked workers).  Returns merged results per suite."""
    procs = procs or min(8, os.cpu_count() or 1)
    out = [_result() for _ in suites]
    _JOB.update(suites=suites, tier=tier, base=base)
    todo = [(i, [[]]) for i in range(len(suites))]
    if seed:                       # the seed only changes the order of exploration
        r = seed % len(todo)
        todo = todo[r:] + todo[:r]
    todo.reverse()
    done = queue.SimpleQueue()
    stopped = set()
    sys.stdout.flush()
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        flying = 0
        while todo or flying:
            while todo and flying < procs + 2:
                index, stack = todo.pop()
                if index in stopped:
                    continue
                # short slices at first, so that the work is spread soon
                slice_ = 0.1 if len(todo) < procs else 0.4
                pool.apply_async(_job, (index, stack, slice_), callback=done.put, error_callback=done.put)
                flying += 1
            if not flying:
                break
            try:
                item = done.get(timeout=5)
            except queue.Empty:
                if deadline and time.time() > deadline + 60:
                    for o in out:
                        o['capped'] = True
                    pool.terminate()
                    break
                continue
            flying -= 1
            if isinstance(item, BaseException):
                pool.terminate()
                raise HarnessError(repr(item))
            index, res, rest, err = item
            if err:
                pool.terminate()
                raise HarnessError(err)
            o = out[index]
            for k in ('executions', 'ops', 'skipped', 'nontrivial'):
                o[k] += res[k]
            o['hashes'] |= res['hashes']
            o['violations'] += res['violations']
            o['capped'] = o['capped'] or res['capped']
            for d, n in res['by_dev'].items():
                o['by_dev'][d] = o['by_dev'].get(d, 0) + n
            if len(o['samples']) < 3:
                o['samples'] += res['samples'][:1]
            if len(o['violations']) >= 8:
                stopped.add(index)
                o['capped'] = True
            elif rest:
                if deadline and time.time() > deadline:
                    o['capped'] = True
                    stopped.add(index)
                else:
                    n = min(len(rest), procs)
                    # the bottom of the stack holds the largest subtrees
                    todo.extend((index, rest[k::n][:]) for k in range(n))
    return out


def explain(suite, choices, base, tier):
    """Repeats one execution in a process of its own: the choices in words, and whether it fails again."""
    def child(conn):
        scratch = os.path.join(base, 'explain')
        os.makedirs(scratch, exist_ok=True)
        try:
            with quiet():
                ctx, msg = run_one(suite, choices, scratch, tier, trace=True)
            conn.send((ctx.log, msg))
        except BaseException as e:
            conn.send(([], repr(e)))
        conn.close()
    mp = multiprocessing.get_context('fork')
    a, b = mp.Pipe()
    p = mp.Process(target=child, args=(b,))
    p.start()
    b.close()
    try:
        log, msg = a.recv() if a.poll(suite.limit + 30) else ([], 'no answer')
    except EOFError:
        log, msg = [], 'process died'
    p.kill()
    p.join()
    return {'choices': log, 'again': msg}
