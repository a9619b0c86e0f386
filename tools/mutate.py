#!/usr/bin/env python3
"""
Systematic small changes of the library, to find what no check sees.

    mutate.py FILE... [--every N] [--from K] [--jobs N] [--procs N] [--list]

Every N-th change of each file (comparisons, conditions, constants, slices, formats, dropped statements) that passes the tests
is given to the checks that are about that code, one after another, until one reports a violation. What survives is
printed as a diff: an equivalent change, or a hole.
"""
import ast
import copy
import difflib
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
PY = '/opt/venv/bin/python'
ROUND = {'15': 'C07', '18': 'C07', '2411': 'C07', '2420': 'C07', '82': 'C08', '2412': 'C08', '2429': 'C08', '2467': 'C08', '55': 'C05', '2414': 'C06', '58': 'C03 C04', '151': 'C09', '164': 'C09', '1858': 'C09', '2400': 'C09'}


def checks(path, func):
    m = re.search(r'dataset_(\d+)', path)
    if m:
        r = ROUND[m[1]].split()
        if func.startswith('prepare') or 'prepare' in func:
            return ['C20', 'C18', 'C19', 'C36']
        if func.startswith('_write') or func == '_elements':
            return ['C18'] + r + ['C16', 'C29', 'C13', 'C39', 'C37', 'C38', 'C28', 'C10', 'C12', 'C36']
        if func == 'fix_58b':
            return ['C21', 'C38', 'C36', 'C35', 'C28']
        return r + ['C17', 'C33', 'C29', 'C24', 'C11', 'C23', 'C12', 'C38', 'C28', 'C30']
    if path.endswith('tools.py'):
        return ['C22', 'C09', 'C07', 'C19', 'C11', 'C18', 'C03', 'C06', 'C23', 'C38', 'C36']
    return ['C34', 'C24', 'C13', 'C15', 'C01', 'C02', 'C35', 'C25', 'C31', 'C30', 'C16', 'C17', 'C27', 'C39', 'C23', 'C38', 'C14', 'C28', 'C32', 'C36', 'C26']


class Mutator(ast.NodeTransformer):
    """Applies the n-th change of the tree (or counts them)."""

    def __init__(self, n=None):
        self.n, self.k, self.func, self.what, self.where = n, 0, [], None, None

    def hit(self, what):
        self.k += 1
        if self.n is not None and self.k - 1 == self.n:
            self.what, self.where = what, '.'.join(self.func)
            return True
        return False

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        body = node.body
        doc = body[:1] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else []
        node.body = doc + self.block(body[len(doc):])
        self.func.pop()
        return node

    def block(self, body):
        out = []
        for s in body:
            if self.func and isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.Raise)) and not isinstance(getattr(s, 'value', None), ast.Constant) and self.hit('dropped'):
                out.append(ast.Pass())
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                continue
            if isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_Compare(self, node):
        if self.func and len(node.ops) == 1:
            for a, bs in ((ast.Lt, [ast.LtE]), (ast.LtE, [ast.Lt]), (ast.Gt, [ast.GtE]), (ast.GtE, [ast.Gt]), (ast.Eq, [ast.NotEq, ast.LtE]), (ast.NotEq, [ast.Eq]), (ast.In, [ast.NotIn]), (ast.NotIn, [ast.In])):
                if isinstance(node.ops[0], a):
                    for b in bs:
                        if self.hit('comparison'):
                            node.ops = [b()]
                            return node
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.func and self.hit('and/or'):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        if self.func and len(node.values) > 1:
            for i in range(len(node.values)):
                if self.hit('operand %d dropped' % i):
                    v = node.values[:i] + node.values[i + 1:]
                    return v[0] if len(v) == 1 else ast.BoolOp(node.op, v)
        return self.generic_visit(node)

    def visit_If(self, node):
        if self.func:
            for v in (True, False):
                if self.hit('condition is %s' % v):
                    node.test = ast.Constant(v)
                    return node
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}
        if self.func and type(node.op) in swap and not isinstance(node.left, (ast.JoinedStr,)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and self.hit('operator'):
            node.op = swap[type(node.op)]()
            return node
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        if self.func and isinstance(node.slice, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(node.slice, f) is not None and self.hit('slice without ' + f):
                    setattr(node.slice, f, None)
                    return node
        return self.generic_visit(node)

    def visit_Tuple(self, node):
        if self.func and isinstance(node.ctx, ast.Load) and 1 < len(node.elts) < 8 and not any(isinstance(e, ast.Subscript) for e in node.elts):
            for i in range(len(node.elts)):
                if self.hit('element %d dropped' % i):
                    node.elts = node.elts[:i] + node.elts[i + 1:]
                    return node
        return self.generic_visit(node)

    def visit_List(self, node):
        if self.func and isinstance(node.ctx, ast.Load) and 1 < len(node.elts) < 14 and all(isinstance(e, ast.Constant) for e in node.elts):
            if len(set(map(ast.dump, node.elts))) > 1 and self.hit('list reversed'):
                node.elts = node.elts[::-1]
                return node
        return self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        if self.func and any(isinstance(s, ast.Raise) for s in node.body) and self.hit('exception swallowed'):
            node.body = [ast.Pass()]
            return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if not self.func or v is None:
            return node
        if isinstance(v, bool):
            if self.hit('truth'):
                return ast.Constant(not v)
        elif isinstance(v, int):
            if self.hit('one more'):
                return ast.Constant(v + 1)
            if self.hit('one less'):
                return ast.Constant(v - 1)
        elif isinstance(v, str):
            for m in re.finditer(r'%(-?)(\d+)((?:\.\d+)?)([eisf])', v):
                if self.hit('format'):
                    w = m[2] + '.%d' % (int(m[3][1:]) - 1) if m[3] else str(int(m[2]) + 1)
                    return ast.Constant(v[:m.start()] + '%' + m[1] + w + m[4] + v[m.end():])
                break
            if '\n' not in v and '%' not in v and ' ' not in v.strip() and v and self.hit('text'):
                return ast.Constant(v + 'x')
        return node


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    tree = ast.parse(text)
    base = ast.unparse(tree)
    m = Mutator()
    m.visit(copy.deepcopy(tree))
    for n in range(m.k):
        t = copy.deepcopy(tree)
        x = Mutator(n)
        t = ast.fix_missing_locations(x.visit(t))
        try:
            new = ast.unparse(t)
            compile(new, path, 'exec')
        except Exception:
            continue
        if new != base:
            yield n, x.what, x.where, base, new


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env), capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(path, n, what, where, base, new, procs):
    tag = '%s:%s #%d %s' % (os.path.basename(path), where, n, what)
    w = '/tmp/mut/%s-%d' % (os.path.basename(path)[:-3], n)
    subprocess.run(['rm', '-rf', w, w + '.v'])
    os.makedirs(w + '.v')
    subprocess.run(['cp', '-a', REPO, w], check=True)
    try:
        with open(os.path.join(w, path), 'w') as fh:
            fh.write(new + '\n')
        rc, out = sh([PY, '-m', 'pytest', '-q', '-x', '--maxfail=8', '-p', 'no:cacheprovider', 'tests'], w, {'PYTHONPATH': w}, 120)
        p = re.search(r'(\d+) passed', out)
        f = re.search(r'(\d+) failed', out)
        if not p or int(p[1]) < 58 or f and int(f[1]) > 7:
            return tag + ': tests'
        subprocess.run('cp -a check.py mc known_findings.txt properties.jsonl MANIFEST.json ' + w + '.v', shell=True, cwd=VERIF)
        t = time.time()
        for c in checks(path, where):
            rc, out = sh([PY, 'check.py', c, '--procs', str(procs)], w + '.v', {'PYUFF_REPO': w}, 1500)
            if rc:
                return tag + ': %s%s (%.0f s)' % (c, '' if rc == 1 else ' exit %d' % rc, time.time() - t)
        diff = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm='', n=2)][2:]
        return tag + ': SURVIVES (%.0f s)\n    ' % (time.time() - t) + '\n    '.join(diff)
    finally:
        subprocess.run(['rm', '-rf', w, w + '.v'])


def main():
    def opt(name, default):
        return int(sys.argv[sys.argv.index(name) + 1]) if name in sys.argv else default
    every, jobs, procs, first = opt('--every', 10), opt('--jobs', 3), opt('--procs', 2), opt('--from', 0)
    files = [a for a in sys.argv[1:] if a.endswith('.py')]
    todo = []
    for path in files:
        ms = list(mutants(path))
        print(path, len(ms), 'changes', flush=True)
        todo += [(path,) + m for m in ms[first::every]]
    if '--list' in sys.argv:
        return
    with ThreadPoolExecutor(jobs) as ex:
        for f in as_completed([ex.submit(one, *m, procs) for m in todo]):
            print(f.result(), flush=True)


if __name__ == '__main__':
    main()
