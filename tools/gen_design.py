#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md: the table of the checks and the table of the planted bugs.

Everything between a line '<!-- begin NAME -->' and '<!-- end NAME -->' is replaced."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(s) for s in open(os.path.join(HERE, 'properties.jsonl'))]


def bound(i):
    tree = ast.parse(open(os.path.join(HERE, 'mc', 'props', i.lower() + '.py')).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'BOUND':
            return ast.literal_eval(node.value)


def checks():
    out = []
    for p in props:
        b = bound(p['id'])
        out.append('* **%s – %s.**\n  *Quick:* %s.\n  *Thorough:* %s.' % (p['id'], p['title'], b['quick'], b['thorough']))
    return '\n'.join(out)


def seeded():
    rows = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        rows.setdefault(m['property'], []).append(os.path.basename(os.path.dirname(f)))
    return '| property | planted bugs its check catches |\n|---|---|\n' + '\n'.join('| %s | %s |' % (k, ', '.join(v)) for k, v in sorted(rows.items()))


def fixes():
    out = []
    for s in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', s)
        if m:
            out.append('| `%s` | %s | %s |' % (m[2], m[1], m[3]))
    return '| commit | found by | what failed |\n|---|---|---|\n' + '\n'.join(out)


path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
for name, make in (('checks', checks), ('seeded', seeded), ('fixes', fixes)):
    text, n = re.subn(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (name, name), lambda m: m[1] + make() + '\n' + m[2], text, flags=re.S)
    assert n == 1, name
open(path, 'w').write(text)
