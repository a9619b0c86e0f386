#!/usr/bin/env python3
"""
Makes /verif/seeded/<id>/ from the entries of tools/seed_specs/*.py, each only after it
has been confirmed in a scratch copy of /repo, and says whether the property's check sees it.

    seed.py [ID-PREFIX ...] [--no-check] [--force]

An entry is S(id, property, [(file, old, new), ...], needs, breaks, demo): the
edits of the change, and the text of demo.py after a common prelude.
"""
import glob
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BASE = 'abb499d'
PY = '/opt/venv/bin/python'
PRELUDE = '''import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter("ignore")
import numpy as np
import pyuff

tmp = tempfile.TemporaryDirectory()
def path(name="a.uff"):
    return os.path.join(tmp.name, name)
def write(dsets, name="a.uff", **kw):
    u = pyuff.UFF(path(name))
    u.write_sets(dsets, **kw)
    return u
def read(n=None, name="a.uff", **kw):
    return pyuff.UFF(path(name)).read_sets(n, **kw)
def raw(name="a.uff"):
    with open(path(name), "rb") as fh:
        return fh.read()
def put(data, name="a.uff"):
    with open(path(name), "wb") as fh:
        fh.write(data)
def f58(data=(1., 2., 3.), **kw):
    data = np.asarray(data)
    d = dict(type=58, binary=0, func_type=1, rsp_node=1, rsp_dir=1, ref_node=2, ref_dir=2,
             abscissa_spacing=1, x=np.arange(len(data)) * .5, data=data)
    d.update(kw)
    return d
def s15(n=1, **kw):
    d = dict(type=15, node_nums=list(range(n, n + 2)), def_cs=[1, 2], disp_cs=[3, 4], color=[5, 6],
             x=[.5, 1.5], y=[-.5, 2.5], z=[0., -3.5])
    d.update(kw)
    return d
def s151(**kw):
    d = dict(type=151, model_name="model", description="description", db_app="app", program="program",
             date_db_created="01-Jan-20", time_db_created="01:02:03", date_db_saved="02-Jan-20",
             time_db_saved="02:03:04", date_file_written="03-Jan-20", time_file_written="03:04:05")
    d.update(kw)
    return d
def s82(**kw):
    d = dict(type=82, trace_num=1, color=2, id="trace", nodes=np.array([1, 2, 0, 3, 4]))
    d.update(kw)
    return d
def raises(fn, *args, **kw):
    try:
        fn(*args, **kw)
    except Exception:
        return True
    return False

'''
SH = '''#!/bin/sh
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
SPECS = {}


def S(id, prop, edits, needs, breaks, demo):
    assert id not in SPECS, id
    SPECS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout + r.stderr


def git(*args, cwd=REPO):
    return subprocess.run(['git', *args], cwd=cwd, capture_output=True, text=True, check=True).stdout


def added(path):
    """Lines of HEAD's file which the commits since BASE added."""
    out = set()
    for m in re.finditer(r'(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@', git('diff', '-U0', BASE, 'HEAD', '--', path)):
        out.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
    return out


def one(spec, check=True):
    """Returns the line that reports what happened."""
    w = '/tmp/seed/%s' % spec['id']
    subprocess.run(['rm', '-rf', w])
    os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.run(['cp', '-a', REPO, w], check=True)
    head = '%-28s %s ' % (spec['id'], spec['prop'])
    try:
        for path, old, new in spec['edits']:
            text = open(os.path.join(w, path)).read()
            if text.count(old) != 1:
                return head + 'BAD: %d occurrences of %r in %s' % (text.count(old), old[:60], path)
            open(os.path.join(w, path), 'w').write(text.replace(old, new))
        patch = git('diff', 'HEAD', cwd=w)
        original = False
        for path in {p for p, _, _ in spec['edits']}:
            new_lines = added(path)
            for m in re.finditer(r'(?m)^@@ -(\d+)(?:,(\d+))? ', git('diff', '-U0', 'HEAD', '--', path, cwd=w)):
                n = int(m[2] or 1)
                lines = range(int(m[1]), int(m[1]) + n) if n else (int(m[1]), int(m[1]) + 1)
                old = [x not in new_lines for x in lines]
                original |= any(old) if n else all(old)
        if not original:
            return head + 'BAD: only lines that the fixes added'
        d = os.path.join(w, '.demo')
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + spec['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        rc, out = sh(['sh', os.path.join(d, 'demo.sh')], REPO, timeout=120)
        if rc:
            return head + 'BAD: demo fails on the unchanged tree: ' + out[-500:]
        rc, out = sh(['sh', os.path.join(d, 'demo.sh')], w, timeout=120)
        if not rc:
            return head + 'BAD: demo passes with the change'
        why = ([l for l in out.splitlines() if re.match(r'\w+(Error|Exception)\b', l)] or [''])[-1][:90]
        rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], w, env={'PYTHONPATH': w}, timeout=300)
        passed = re.search(r'(\d+) passed', out)
        failed = re.search(r'(\d+) failed', out)
        if not passed or int(passed[1]) < 58 or (failed and int(failed[1]) > 7):
            return head + 'BAD: tests: ' + out[-600:]
        s = os.path.join(VERIF, 'seeded', spec['id'])
        os.makedirs(s, exist_ok=True)
        open(os.path.join(s, 'patch.diff'), 'w').write(patch)
        for name in ('demo.py', 'demo.sh'):
            open(os.path.join(s, name), 'w').write(open(os.path.join(d, name)).read())
        os.chmod(os.path.join(s, 'demo.sh'), 0o755)
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(s, 'meta.json'), 'w'), indent=1)
        subprocess.run(['rm', '-rf', d])
        if not check:
            return head + 'confirmed'
        start = time.time()
        # evidence and replays of a changed tree are not kept
        c = w + '.verif'
        subprocess.run(['rm', '-rf', c])
        subprocess.run(['mkdir', c])
        subprocess.run('cp -a check.py mc known_findings.txt properties.jsonl MANIFEST.json ' + c, shell=True, cwd=VERIF)
        rc, out = sh([PY, 'check.py', spec['prop']], c, env={'PYUFF_REPO': w, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        subprocess.run(['rm', '-rf', c])
        m = re.search(r'(?m)^VIOLATION property=%s\b' % spec['prop'], out)
        first = [l for l in out.splitlines() if l.strip() and 'VIOLATION' not in l]
        verdict = 'caught' if rc == 1 and m else 'MISSED' if rc == 0 else 'CHECK EXIT %s' % rc
        return head + '%s (%.0f s)  demo: %s' % (verdict, time.time() - start, why)
    finally:
        subprocess.run(['rm', '-rf', w])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for f in sorted(glob.glob(os.path.join(HERE, 'seed_specs', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'S': S})
    names = [n for n in SPECS if not args or any(n.startswith(a) for a in args)]
    if '--force' not in sys.argv:
        names = [n for n in names if not os.path.exists(os.path.join(VERIF, 'seeded', n, 'patch.diff')) or args]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for line in ex.map(lambda n: one(SPECS[n], '--no-check' not in sys.argv), names):
            print(line, flush=True)


if __name__ == '__main__':
    main()
