"""C21: fix_58b, for every file of a grammar of misplaced delimiters."""
import os
import struct

from .. import history as H, lib, sets
from ..engine import Suite
from .c02 import BODIES, EOLS, Body, binary58, check_file, d, pick

BOUND = {'quick': 'all files of one set over every body, two over 34 and three over 8 bodies, each delimiter on a line of its own or not x line ends x padding x endings; target names',
         'thorough': 'three sets over all bodies, four over 8'}
ASSUMPTIONS = ['sets follow each other directly (no text between a closing delimiter and the next set)',
               'blanks after a moved delimiter may be dropped and its line end may become a plain newline']

T = sets.TYPES
MIS = '    -1\n    -1\n'


def adversaries():
    """Binary sets whose samples spell line ends and delimiters, above all at their end."""
    out = []
    for label, values, kw in (
            ('last byte LF', d(b'1234567\n'), {}), ('last byte CR', [2.0] + d(b'1234567\r'), {}), ('last bytes CR LF', d(b'123456\r\n'), {}), ('last bytes LF CR LF', d(b'12345\n\r\n'), {}),
            ('spelled pair', [1.5] + d(('\n' + MIS).encode().ljust(24)) + [2.5], {}), ('spelled pair CRLF', d(b'x\r\n    -1\r\n    -1\r\n     '), {}),
            ('spelled pair last', d(b'\n    -1\n') + d(b'    -1\n\n'), {}), ('ends in -1', d(b'1\n    -1'), {}), ('ends in -1 LF', d(b'\n    -1\n'), {}),
            ('form feeds', d(b'\x0b\x0c\x1c\x1d\x1e\x85\x0c\x0b'), {}),
            ('single LF', list(struct.unpack('<3f', b'\n\n\n\n123\n456\n')), {'variant': (False, True, True, True)}),
            ('single complex', [0.25] * 6, {'variant': (True, True, True, True)}), ('complex uneven', [1.0, 2.0, 3.0] * 2, {'variant': (True, False, False, True)}),
            ('big endian LF', list(struct.unpack('>2d', b'abcdefg\nabcdefg\r')), {'order': '>'})):
        m, make = binary58(values, **kw)
        out.append(Body('58b ' + label, 58, t=T[58], m=m, binary=make))
    return out


ADVERSE = adversaries()
MENU = [b for b in BODIES if 'own line' not in b.label] + ADVERSE


def pieces(b, eol):
    """The lines between the delimiters: everything before the last line end, and whether it may stand without one."""
    tag = b'    -1' + eol
    if b.binary:
        head, raw, _ = b.binary(eol)
        return head + raw
    return b.block(eol, False)[len(tag):-len(tag) - len(eol)]


TAILS = {'newline': b'', 'no newline': b'', 'blank line': None, 'blanks': b'   ', 'blank lines': b'\n \n\n', 'tab': b'\t\n', 'vertical tab': b'\n\x0b', 'line feed': b'\n'}


def walk(ctx, got, parts, tail=b''):
    """The fixed file, piece by piece: [(content, blanks, line end)]"""
    pos = 0
    for k, (content, eol) in enumerate(parts):
        want = content + b'    -1'
        here = got[pos:pos + len(want)]
        if here != want:
            i = next((i for i, (x, y) in enumerate(zip(here, want)) if x != y), min(len(here), len(want)))
            ctx.fail('set %d: the fixed file has %r, expected %r' % (k, here[max(0, i - 20):i + 20], want[max(0, i - 20):i + 20]))
        pos += len(want)
        while got[pos:pos + 1] == b' ':
            pos += 1
        if got[pos:].startswith(eol):
            pos += len(eol)
        elif got[pos:pos + 1] == b'\n':
            pos += 1
        else:
            ctx.fail('set %d: after the closing delimiter the fixed file has %r, expected %r' % (k, got[pos:pos + 20], eol))
    ctx.check(got[pos:] == tail, 'the fixed file has %r after the last set, expected %r', got[pos:pos + 60], tail)


def fixed_name(path):
    base, ext = os.path.splitext(path)
    return base + '_fixed' + ext


def grammar(name, menu, lengths, binary, rule):
    def driver(ctx):
        n = ctx.choose('sets', lengths)
        eol = ctx.choose('line end', EOLS)
        pad = ctx.choose('padded delimiters', [False, True])
        seq = [ctx.choose('set %d' % k, menu) for k in range(n)]
        misplaced = [ctx.choose('delimiter %d' % k, [True, False]) if b.binary else True for k, b in enumerate(seq)]
        end = ctx.choose('end', list(TAILS) if n < 2 else ['newline', 'no newline', 'blank line'])
        tag = b'    -1'.ljust(80 if pad else 6)
        data, parts = b'', []
        for k, (b, mis) in enumerate(zip(seq, misplaced)):
            content = tag + eol + pieces(b, eol)
            last = k == n - 1
            stop = b'' if last and end == 'no newline' else eol
            close = b'    -1' if last and end == 'no newline' else tag
            data += content + (eol if mis else b'') + close + stop
            parts.append((content, stop))
        tail = eol if end == 'blank line' else TAILS[end]
        data += tail
        path = ctx.file('a.uff')
        lib.put(path, data)
        lib.pyuff.fix_58b(path)
        ctx.check(lib.data_of(path) == data, 'the original file was changed')
        ctx.check(sorted(os.listdir(ctx.scratch)) == ['a.uff', 'a_fixed.uff'], 'files: %s', sorted(os.listdir(ctx.scratch)))
        new = fixed_name(path)
        got = lib.data_of(new)
        walk(ctx, got, parts, tail)
        check_file(ctx, new, got, seq)
        # nothing is left to fix
        lib.pyuff.fix_58b(new, ctx.file('again.uff'))
        ctx.check(lib.data_of(ctx.file('again.uff')) == got, 'fixing the fixed file changed it')
        ctx.op(2)
        ctx.observe(data)
        ctx.note('%s, own lines %s, line end %r, end %s' % ([b.label for b in seq], misplaced, eol, end))
    return Suite(name, driver, rule=rule)


def names(ctx):
    """Where the result goes."""
    name = ctx.choose('name', ['a.uff', 'noext', 'two.dots.unv', 'with space.uff', 'A.UFF', '.hidden', 'sub.dir/b', 'sub.dir/c.uff', 'c.uff.d/c.uff', 'a.uff.uff', 'a_fixed.uff', '.uff.uff', 'c.uff.d/c', 'end.'])
    os.makedirs(ctx.file('sub.dir'))
    os.makedirs(ctx.file('c.uff.d'))
    target = ctx.choose('target', [None, 'new.uff', 'other', 'sub.dir/new.uff', 'existing.uff', 'same as the source'])
    how = ctx.choose('how', ['positional', 'keyword', 'relative'])
    eol = ctx.choose('line end', EOLS)
    b = ctx.choose('set', pick(['58b']) + pick(['151']))
    tag = b'    -1' + eol
    content = tag + pieces(b, eol)
    data = (content + eol + tag) * 2
    path = ctx.file(name)
    lib.put(path, data)
    lib.put(ctx.file('existing.uff'), b'longer than the result, to be replaced' * 1000)
    lib.put(ctx.file('bystander.uff'), data)
    new = fixed_name(path) if target is None else path if target.startswith('same') else ctx.file(target)
    where = os.getcwd()
    try:
        args = [path] if target is None else [path, new]
        if how == 'relative':
            os.chdir(ctx.scratch)
            args = [os.path.relpath(a) for a in args]
        r = lib.pyuff.fix_58b(args[0], fixed_filename=args[1]) if how == 'keyword' and len(args) > 1 else lib.pyuff.fix_58b(*args)
    finally:
        os.chdir(where)
    if new != path:
        ctx.check(lib.data_of(path) == data, 'the original file was changed')
    ctx.check(os.path.exists(new), '%s was not written: %s', new, os.listdir(ctx.scratch))
    walk(ctx, lib.data_of(new), [(content, eol)] * 2)
    check_file(ctx, new, lib.data_of(new), [b, b])
    ctx.check(lib.data_of(ctx.file('bystander.uff')) == data, 'another file was changed')
    files = {os.path.relpath(os.path.join(p, f), ctx.scratch) for p, _, fs in os.walk(ctx.scratch) for f in fs}
    extra = files - {name, os.path.relpath(new, ctx.scratch), 'existing.uff', 'bystander.uff'}
    ctx.check(not extra, 'other files appeared: %s', extra)
    ctx.op()
    ctx.observe(name, target, how, eol)


def earlier(ctx):
    """The result of an earlier run, or something else, is where the new one goes."""
    eol = ctx.choose('line end', EOLS)
    a, b = ctx.choose('set', MENU[:3] + FEW), ctx.choose('then', FEW)
    tag = b'    -1' + eol
    content = [tag + pieces(x, eol) for x in (a, b)]
    data = content[0] + eol + tag + content[1] + eol + tag
    path = ctx.file('a.uff')
    new = ctx.file('n.uff')
    lib.put(path, data)
    lib.pyuff.fix_58b(path, new)
    size = len(lib.data_of(new))
    os.remove(new)
    target = ctx.choose('target', ['the default', 'given'])
    if target == 'the default':
        new = fixed_name(path)
    was = ctx.choose('was', ['of the same size', 'the source', 'the result with another byte', 'fixed before', 'a byte longer', 'a byte shorter', 'empty', 'a link'])
    if was == 'the source':
        lib.put(new, data)
    elif was in ('the result with another byte', 'fixed before'):
        lib.pyuff.fix_58b(path, new)
        if was != 'fixed before':
            raw = lib.data_of(new)
            i = len(raw) // 2
            lib.put(new, raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:])
        else:
            # the source has changed since, its size has not
            stamp = os.stat(path)
            content = content[::-1]
            data = content[0] + eol + tag + content[1] + eol + tag
            lib.put(path, data)
            os.utime(path, ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
            a, b = b, a
    elif was == 'a link':
        lib.put(ctx.file('far.uff'), b'x' * size)
        os.symlink('far.uff', new)
    else:
        lib.put(new, b'x' * {'of the same size': size, 'a byte longer': size + 1, 'a byte shorter': size - 1, 'empty': 0}[was])
    if ctx.choose('the target is', ['older', 'newer']) == 'newer':
        os.utime(new, (2e9, 2e9))
    lib.pyuff.fix_58b(*([path] if target == 'the default' else [path, new]))
    ctx.check(lib.data_of(path) == data, 'the original file was changed')
    walk(ctx, lib.data_of(new), [(c, eol) for c in content])
    check_file(ctx, new, lib.data_of(new), [a, b])
    ctx.op(2)
    ctx.observe(data, target, was)


def refused(ctx):
    """A missing source is an error and nothing is written."""
    target = ctx.choose('target', [None, 'existing.uff', 'new.uff'])
    lib.put(ctx.file('existing.uff'), b'kept')
    args = [ctx.file('missing.uff')] + ([ctx.file(target)] if target else [])
    ctx.check(lib.refused(lib.pyuff.fix_58b, *args), 'a missing file was fixed')
    ctx.check(os.listdir(ctx.scratch) == ['existing.uff'] and lib.data_of(ctx.file('existing.uff')) == b'kept', 'a failed fix wrote something')
    ctx.op()
    ctx.observe(target)


def other(ctx):
    """Files without sets stay as they are."""
    data = ctx.choose('contents', [b'', b'\n', b'text\n', b'-1\n', b'-1\n-1\n', b'    -1\n', b'    -1', b'    -1\n   151\n', b'text\n    -1\n   151\nno end\n', b'1\n2\n3\n'])
    path = ctx.file()
    lib.put(path, data)
    lib.pyuff.fix_58b(path)
    got = lib.data_of(fixed_name(path))
    ctx.check(lib.data_of(path) == data, 'the original was changed')
    if data.count(b'-1') == 0:
        ctx.check(got == data, 'a file without sets became %r', got)
    ctx.check(lib.pyuff.UFF(fixed_name(path)).get_n_sets() == lib.pyuff.UFF(path).get_n_sets() == 0, 'sets appeared')
    ctx.op()
    ctx.observe(data)


FEW = pick(['58b', '58b big endian', '151', '82 -1', '58', 'unknown last -1']) + [b for b in ADVERSE if b.label in ('58b last byte CR', '58b spelled pair')]


def suites(tier):
    deep = tier != 'quick'
    out = [grammar('one and two', MENU, [1, 2], None, 'every pair of bodies x every placement of the delimiters'),
           grammar('three', MENU if deep else FEW, [3], None, 'three sets')]
    if deep:
        out.append(grammar('four', FEW, [4], None, 'four sets'))
    return out + [Suite('names', names, rule='source and target names'), Suite('earlier', earlier, rule='what stood at the place of the result'), Suite('refused', refused, rule='missing sources'), Suite('other', other, rule='files without sets')]
