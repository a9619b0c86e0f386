#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE]

Explores the bounded spaces of one property on the pyuff in /repo (or $PYUFF_REPO), writes evidence/ID.json, and exits
0 (held on everything explored) or 1 with a line VIOLATION per finding.
"""
import argparse
import importlib
import json
import os
import re
import resource
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known(prop):
    """The listed findings: lines 'known: property=C01 suite=NAME choices=[..] what'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                suite, rest = rest.split(' ', 1)
                choices, what = rest.split(']', 1)
                out.append((suite.split('=', 1)[1], json.loads(choices.split('=', 1)[1] + ']'), what.strip()))
    return out


def distinct(found):
    """One of every kind of message first."""
    seen, first, rest = set(), [], []
    for f in found:
        key = re.sub(r'[0-9.e+-]+', '#', f[0]['message'])[:80]
        (rest if key in seen else first).append(f)
        seen.add(key)
    return first + rest


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=None)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    root = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    base = tempfile.mkdtemp(prefix='pyuff-mc-', dir=root)
    try:
        sys.pycache_prefix = os.path.join(base, 'pyc')
        return run(a, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(a, seed, base, t0):
    from mc import engine
    mod = importlib.import_module('mc.props.' + a.id.lower())
    # a reader that runs away is stopped by MemoryError, not by the machine
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    suites = mod.suites(a.tier)
    by_name = {s.name: s for s in suites}
    assert len(by_name) == len(suites), 'suite names are not unique'
    if a.replay:
        rec = json.load(open(a.replay))
        if rec.get('tier', a.tier) != a.tier:
            suites = mod.suites(rec['tier'])
            by_name = {s.name: s for s in suites}
        scratch = os.path.join(base, 'replay')
        os.makedirs(scratch)
        with engine.quiet():
            ctx, msg = engine.run_one(by_name[rec['suite']], rec['choices'], scratch, rec['tier'], trace=True)
        print('\n'.join(ctx.log))
        print(msg or 'held')
        return 1 if msg else 0
    budget = float(os.environ.get('MC_BUDGET', 700 if a.tier == 'quick' else 14400))
    res = engine.explore_all(suites, a.tier, base, seed, a.procs, deadline=t0 + budget)
    listed = known(a.id)
    found, suppressed = [], []
    for s, r in zip(suites, res):
        for v in r['violations']:
            hit = [k for k in listed if k[0] == v['suite'] and k[1] == v['choices']]
            (suppressed if hit else found).append((v, hit))
    for what in sorted({h[0][2] for _, h in suppressed}):
        print('KNOWN-FINDING: property=%s %s' % (a.id, what))
    if found:
        outdir = os.path.join(HERE, 'replays', a.id)
        os.makedirs(outdir, exist_ok=True)
        found.sort(key=lambda f: (f[0]['deviations'], len(f[0]['choices'])))
        for n, (v, _) in enumerate(distinct(found)[:6]):
            path = os.path.join(outdir, '%s-%02d.json' % (a.tier, n))
            v['property'], v['tier'] = a.id, a.tier
            v['log'] = engine.explain(by_name[v['suite']], v['choices'], base, a.tier)
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (a.id, path))
            print('  suite %s: %s' % (v['suite'], '; '.join(v['log']['choices'])[:400]))
            print('  ' + v['message'].strip().replace('\n', '\n  ')[:900])
            if not v['log']['again']:
                print('  (not seen again when this execution was repeated alone)')
    total = {k: sum(r[k] for r in res) for k in ('executions', 'ops', 'skipped', 'nontrivial')}
    states = len(set().union(*[r['hashes'] for r in res])) if res else 0
    capped = any(r['capped'] for r in res)
    samples = [x for r in res for x in r['samples']][:12] or ['no execution']
    cov = {'exhaustive': not capped, 'samples': samples,
           'suites': {s.name: {'rule': s.rule, 'executions': r['executions'], 'deviation_bound': s.bound, 'window': s.window,
                               'executions_by_deviations': {str(k): n for k, n in sorted(r['by_dev'].items())},
                               'distinct_states': len(r['hashes']), 'complete': not r['capped']} for s, r in zip(suites, res)},
           'bound': mod.BOUND if isinstance(mod.BOUND, str) else mod.BOUND[a.tier]}
    level = getattr(mod, 'LEVEL', 'model_checking')
    if level == 'fault_enumeration':
        cov.update(evaluations=total['executions'], distinct_nontrivial=states, rule=mod.RULE, operations=total['ops'])
    else:
        cov.update(states=states, transitions=total['ops'], traces_validated_against_impl=total['executions'])
    ev = {'property': a.id, 'tier': a.tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(found)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.id + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if a.verbose:
        for s, r in zip(suites, res):
            print('  %-28s %7d executions %7d states %8d ops %s' % (s.name, r['executions'], len(r['hashes']), r['ops'], r['by_dev']))
    print('%s %s: %d executions, %d distinct states, %d operations, %d violations%s, %.1f s' %
          (a.id, a.tier, total['executions'], states, total['ops'], len(found), ' (stopped early)' if capped else '', time.time() - t0))
    if total['executions'] == 0:
        print('nothing was explored')
        return 2
    return 1 if found else 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
