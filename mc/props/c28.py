"""C28: the process environment has no influence."""
import json
import os
import subprocess
import sys

from .. import lib
from ..engine import HarnessError, Suite

BOUND = {'quick': 'every environment at most one setting away from the default (locale, UTF-8 mode, hash seed, time zone, optimisation, path style, folder, numpy print options, decimal context, umask, no standard output, a trace function, I/O encoding), and pairs of some; in each, about 2000 files, calls and prepared sets of all kinds',
         'thorough': 'every pair of settings, and the whole product of locale x UTF-8 mode x hash seed x time zone x optimisation'}
ASSUMPTIONS = ['the locales installed here are C, C.UTF-8 and POSIX', 'a date and time the caller left out is compared by its form']

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SETTINGS = {
    'locale': [{'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'C'}, {'LC_ALL': 'POSIX'}, {'LC_ALL': 'sl_SI.UTF-8'}, {'LANG': 'C', 'LC_NUMERIC': 'de_DE.UTF-8'}],
    'utf8 mode': [{}, {'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'PYTHONUTF8': '1'}],
    'hash seed': [{'PYTHONHASHSEED': s} for s in ('0', '1', '2', '4242')],
    'time zone': [{'TZ': 'UTC'}, {'TZ': 'EST5EDT'}, {'TZ': 'XXX-14'}, {'TZ': 'AAA11:30'}],
    'optimisation': [[], ['-O'], ['-OO']],
    'path': ['absolute', 'relative', 'dotted', 'non-ASCII', 'blank', 'no ending', 'link'],
    'print': [None, {'precision': 2, 'suppress': True}, {'threshold': 2, 'edgeitems': 1}, {'legacy': '1.13'}, {'floatmode': 'fixed', 'sign': '+', 'linewidth': 20}],
    'process': [None, 'locale set', 'no output', 'umask', 'decimal', 'trace'],
    'io': [{}, {'PYTHONIOENCODING': 'ascii'}, {'PYTHONIOENCODING': 'utf-16'}, {'PYTHONUNBUFFERED': '1'}, {'PYTHONDEVMODE': '1'}],
}
BASE = None


def place(root, style):
    """The current folder and the name of the file."""
    if style == 'relative':
        return root, 'a.uff'
    if style == 'dotted':
        os.makedirs(os.path.join(root, 'in'), exist_ok=True)
        return os.path.join(root, 'in'), os.path.join('..', '.', 'a.uff')
    if style == 'non-ASCII':
        os.makedirs(os.path.join(root, 'mapa \u017e'), exist_ok=True)
        return root, os.path.join(root, 'mapa \u017e', '\u6f22.uff')
    if style == 'blank':
        return root, os.path.join(root, ' a b.UFF')
    if style == 'no ending':
        return '/', os.path.join(root, 'file')
    if style == 'link':
        os.symlink(os.path.join(root, 'target'), os.path.join(root, 'l.unv'))
        return root, 'l.unv'
    return '/', os.path.join(root, 'a.uff')


def run(root, s, deep):
    cwd, path = place(root, s['path'])
    out = os.path.join(root, 'out.json')
    env = {'PATH': os.environ.get('PATH', ''), 'PYUFF_REPO': lib.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1'}
    for k in ('locale', 'utf8 mode', 'hash seed', 'time zone', 'io'):
        env.update(s[k])
    o = {'cwd': cwd, 'path': path, 'out': out, 'verif': HERE, 'print': s['print'], 'process': s['process'], 'deep': deep}
    p = subprocess.run([sys.executable] + s['optimisation'] + [os.path.join(HERE, 'mc', 'envrun.py'), json.dumps(o)], env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=cwd)
    if p.returncode or not os.path.exists(out):
        return None, p.stderr.decode('utf-8', 'replace')[-600:]
    with open(out) as fh:
        r = json.load(fh)
    os.remove(out)
    return r, None


DEFAULT = {k: v[0] for k, v in SETTINGS.items()}


def base(ctx, deep):
    global BASE
    if BASE is None:
        root = os.path.join(ctx.scratch, 'base')
        os.mkdir(root)
        BASE, error = run(root, DEFAULT, deep)
        if BASE is None:
            # also where the library cannot be used at all
            raise HarnessError('the default environment fails: ' + error)
        lib_ = dict(BASE)
        if len(lib_) < 300:
            raise HarnessError('only %d cases' % len(lib_))
    return BASE


def judge(ctx, s, deep):
    want = base(ctx, deep)
    got, error = run(ctx.scratch, s, deep)
    ctx.op(len(want))
    ctx.check(got is not None, 'the same program fails in this environment: %s', error)
    for a, b in zip(want, got):
        ctx.check(a == b, 'the result of "%s" differs from that in the default environment', a[0])
    ctx.check(len(want) == len(got), 'cases are missing')
    ctx.observe(sorted(s.items(), key=str))
    ctx.note('; '.join('%s=%s' % x for x in s.items() if x[1] != DEFAULT[x[0]]) or 'the default environment')


def deviations(deep, bound):
    def driver(ctx):
        judge(ctx, {k: ctx.dev(k, v) for k, v in SETTINGS.items()}, deep)
    return Suite('deviations', driver, bound=bound, limit=120, rule='all environments at most %d settings from the default' % bound)


def product(deep, keys, cut):
    def driver(ctx):
        s = dict(DEFAULT)
        for k in keys:
            s[k] = ctx.choose(k, SETTINGS[k][:cut])
        judge(ctx, s, deep)
    return Suite('product of ' + ', '.join(keys), driver, limit=120, rule='the whole product')


def suites(tier):
    deep = tier != 'quick'
    out = [deviations(deep, 2 if deep else 1), product(deep, ['locale', 'utf8 mode'], 3), product(deep, ['optimisation', 'hash seed'], 2)]
    if deep:
        out.append(product(deep, ['locale', 'utf8 mode', 'hash seed', 'time zone', 'optimisation'], 3))
    return out
