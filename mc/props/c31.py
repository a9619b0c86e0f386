"""C31: what a write does to the bytes of a file."""
import copy
import os

from .. import history as H, lib, sets
from ..engine import Suite
from ..layout import Enc
from .c16 import alone

BOUND = {'quick': 'every previous content of 41 (nothing, text, sets of other programs, parts of sets, every line end, odd bytes, sizes around buffers) x every set kind x mode x ways to write (with force_double or not); every pair of writes of 8 kinds and triple of 4, '
                  'unsupported and rejected ones after 12 contents; modes that do not exist; lists of up to 3; every last byte; every size up to 130 and around 4 KiB, 8 KiB and 64 KiB',
         'thorough': 'triples of writes, all kinds in pairs, every size up to 9000'}
ASSUMPTIONS = ['the object was made, or refreshed, after the file got its content']

T = sets.TYPES
KINDS = H.models(H.ALL)
NAMED = {k[0]: k for k in KINDS}


# stored in single precision if asked
SINGLE = H.models([(58, (False, True, True, True), 3), (58, (True, False, True, False), 2)])


def block(label, **enc):
    _, t, m = NAMED[label]
    if t.num == 58 and m['variant'][3]:
        return t.block58b(m, *(['>', b'\r\n'] if enc else []))
    return t.block(m, Enc(**enc)).encode('utf-8')


A, B = block('151'), block('82')
BIN = block('58(False, True, False, True)')


class Content(tuple):
    def __repr__(self):
        return self[0]


CONTENTS = [Content(x) for x in [
    ('absent', None), ('empty', b''), ('a set', A), ('two sets', A + B), ('a binary set', BIN), ('set and binary set', A + BIN),
    ('text', b'some text\n'), ('text without end', b'some text'), ('a line end', b'\n'), ('CRLF', b'\r\n'), ('CR', b'\r'), ('blank', b' '), ('blanks', b'   \n   '), ('empty lines', b'\n' * 5),
    ('set, CRLF', block('2411', eol='\r\n')), ('set, padded', block('164', pad=True)), ('binary set, CRLF', block('58(True, False, False, True)', eol='\r\n')),
    ('set without final end', A.rstrip(b'\n')), ('binary set without final end', BIN.rstrip(b'\n')), ('set, CR at the end', A.rstrip(b'\n') + b'\r'),
    ('set and blanks', A + b'   '), ('set and text', A + b'text'), ('set and empty lines', A + b'\n\n'), ('text, set', b'header of a file\n' + A),
    ('half a set', B[:len(B) // 2]), ('set and half a set', A + B[:40]), ('only an opening', b'    -1\n'), ('opening without end', b'    -1'), ('opening and number', b'    -1\n    15\n'),
    ('unsupported set', b'    -1\n  9999\nx\n    -1\n'), ('binary header only', BIN[:400]), ('binary set cut', BIN[:-15]), ('byte order mark', b'\xef\xbb\xbf' + A), ('zeros', b'\0' * 10),
    ('Latin-1', b'\xe9\xe8\n' + A), ('Ctrl-Z', A + b'\x1a'), ('form feed', A + b'\f'), ('vertical tab', A + b'\x0b'), ('next line', A + b'\x85'), ('line separator', A + '\u2028'.encode()),
    ('glued end', A[:-7] + b'    -1\n')]]
FEW = [c for c in CONTENTS if c[0] in ('absent', 'empty', 'a set', 'set and binary set', 'text without end', 'CRLF', 'CR', 'set without final end', 'set and half a set', 'binary set cut', 'set and blanks', 'unsupported set')]


def after_add(was, new):
    """Possible contents of the file when new was added to was."""
    was = was or b''
    out = [was + new]
    if was and new and was[-1:] != b'\n':
        # the set starts a line of its own
        ends = [b'\n', b'\r\n'] if was[-1:] != b'\r' else [b'', b'\n', b'\r\n']
        out = [was + e + new for e in ends]
    return out


def check_file(ctx, path, wants, who):
    got = lib.data_of(path) if os.path.exists(path) else None
    if got not in wants:
        want = wants[0]
        n = next((i for i, (x, y) in enumerate(zip(got or b'', want or b'')) if x != y), min(len(got or b''), len(want or b'')))
        ctx.fail('%s: byte %d of the file: %r, expected %r (%s and %s bytes)' % (who, n, (got or b'')[n:n + 60], (want or b'')[n:n + 60], len(got or b''), len(want or b'')))
    return got


UNSUPPORTED = {'type': 9999, 'whatever': 'text'}


def write(ctx, u, path, was, what, mode, who):
    """One write; returns the content."""
    if what == 'unsupported':
        d, new = copy.deepcopy(UNSUPPORTED), b''
    elif what == 'rejected':
        d, new = {'type': 151, 'model_name': 'x'}, None
    else:
        _, t, m = what
        d = t.dset(m)
        new = alone(ctx, d)
    ctx.op()
    if new is None:
        ctx.check(lib.refused(u.write_sets, d, mode), '%s: an incomplete set is stored', who)
        return check_file(ctx, path, [was], who)
    u.write_sets(d, mode)
    if mode.lower() == 'overwrite':
        return check_file(ctx, path, [new], who)
    if new == b'':
        # whether an ignored set creates the file is not said
        return check_file(ctx, path, [was] + ([b''] if was is None else []), who)
    return check_file(ctx, path, after_add(was, new), who)


def one(ctx):
    c = ctx.choose('content', CONTENTS)
    what = ctx.choose('set', KINDS + ['unsupported', 'rejected'])
    mode = ctx.choose('mode', ['add', 'overwrite', 'ADD', 'Overwrite'])
    how = ctx.choose('object', ['new', 'after reading', 'from before'] if mode in ('add', 'overwrite') else ['new'])
    path = ctx.file()
    u = None
    if how == 'from before':
        # it must not matter for the bytes
        lib.put(path, A + A)
        u = lib.pyuff.UFF(path)
        os.remove(path)
    if c[1] is not None:
        lib.put(path, c[1])
    u = u or lib.pyuff.UFF(path)
    if how == 'after reading':
        lib.refused(u.read_sets)
        u.get_set_types()
    write(ctx, u, path, c[1], what, mode, '%s, %s' % (c[0], mode))
    ctx.observe(lib.data_of(path) if os.path.exists(path) else None)
    ctx.note('%s: %s in mode %s' % (c, what, mode))


def modes(ctx):
    """A mode that does not exist."""
    c = ctx.choose('content', FEW)
    what = ctx.choose('set', [NAMED['151'], NAMED['58(False, True, False, True)'], 'unsupported', 'none', 'both'])
    mode = ctx.choose('mode', ['append', 'w', 'a', '', 'over write', ' add', 'add ', 'overwritten', 'read', None, 1, True])
    path = ctx.file()
    if c[1] is not None:
        lib.put(path, c[1])
    d = {'unsupported': dict(UNSUPPORTED), 'none': [], 'both': [NAMED['151'][1].dset(NAMED['151'][2])] * 2}.get(what) if isinstance(what, str) else what[1].dset(what[2])
    u = lib.pyuff.UFF(path)
    ctx.check(lib.refused(u.write_sets, d, mode), 'mode %r is accepted', mode)
    if what == 'none':
        ctx.check(lib.refused(u.write_sets, d, 'add') and lib.refused(u.write_sets, d, 'overwrite'), 'an empty list is accepted')
    check_file(ctx, path, [c[1]], 'mode %r, %s' % (mode, c))
    ctx.op()
    ctx.observe(c[0], mode)


def lists(ctx):
    """A list of sets is stored like its sets one after the other."""
    c = ctx.choose('content', FEW)
    few = [NAMED[x] for x in ('151', '58(False, True, False, True)', '58(True, False, False, False)', '2412')] + SINGLE
    ks = [ctx.choose('set %d' % i, few + ['unsupported']) for i in range(ctx.choose('sets', [1, 2, 3]))]
    mode = ctx.choose('mode', ['add', 'overwrite'])
    fd = ctx.choose('force_double', [True, False])
    path = ctx.file()
    if c[1] is not None:
        lib.put(path, c[1])
    ds = [copy.deepcopy(UNSUPPORTED) if k == 'unsupported' else k[1].dset(k[2]) for k in ks]
    new = b''.join(b'' if k == 'unsupported' else alone(ctx, d, fd=fd) for k, d in zip(ks, ds))
    lib.pyuff.UFF(path).write_sets(ds, mode, fd)
    if mode == 'overwrite':
        wants = [new]
    elif new:
        wants = after_add(c[1], new)
    else:
        wants = [c[1]] + ([b''] if c[1] is None else [])
    check_file(ctx, path, wants, 'a list of %s after %s' % (ks, c))
    ctx.op()
    ctx.observe(lib.data_of(path) if os.path.exists(path) else None)


def sequences(tier):
    deep = tier != 'quick'
    few = [NAMED[x] for x in ('151', '15', '58(False, True, False, True)', '58(True, False, False, True)', '58(True, False, False, False)', '2412', '2414(1, False)', '82')]
    short = [NAMED[x] for x in ('151', '58(False, True, False, True)', '58(True, False, False, False)', '2412')]

    def driver(ctx):
        c = ctx.choose('content', FEW)
        path = ctx.file()
        was = c[1]
        if was is not None:
            lib.put(path, was)
        u = lib.pyuff.UFF(path)
        both = ctx.choose('objects', ['one', 'one each'])
        done = []
        n = ctx.choose('writes', [2, 3])
        for i in range(n):
            what = ctx.choose('set', ((KINDS if deep and i < 2 else few) if deep or n == 2 else short) + ['unsupported', 'rejected'])
            mode = ctx.choose('mode', ['add', 'overwrite'])
            done.append('%s %s' % (mode, what))
            was = write(ctx, u if both == 'one' else lib.pyuff.UFF(path), path, was, what, mode, '%s: %s' % (c, done))
        ctx.observe(was)
        ctx.note('%s: %s' % (c, done))
    return Suite('sequences', driver, rule='every pair and triple of writes after every content')


def ends(ctx):
    """Every last byte, and every last but one before a line end."""
    x = bytes([ctx.choose('byte', list(range(256)))])
    was = ctx.choose('content', [b'', A, BIN, b'text']) + ctx.choose('end', [x, x + b'\n', x + b'\r\n', b'\n' + x])
    path = ctx.file()
    lib.put(path, was)
    what = ctx.choose('set', [NAMED['164'], NAMED['58(False, True, False, True)'], 'unsupported'])
    write(ctx, lib.pyuff.UFF(path), path, was, what, 'add', 'last bytes %r' % was[-3:])
    ctx.observe(lib.data_of(path))


def sizes(tier):
    n = list(range(0, 131)) + [b + d for b in (4096, 8192, 65536, 131072) for d in range(-3, 4)]
    if tier != 'quick':
        n = sorted(set(n) | set(range(9000)) | {2 ** 20 + d for d in range(-3, 4)})

    def driver(ctx):
        size = ctx.choose('size', n)
        end = ctx.choose('end', [b'\n', b'x'])
        head = ctx.choose('head', [A, b''])
        was = head + b'y' * (size - len(head) - 1) + end if size > len(head) else (head + end)[:size]
        path = ctx.file()
        lib.put(path, was)
        u = lib.pyuff.UFF(path)
        for what in (NAMED['164'], NAMED['58(False, True, False, True)']):
            was = write(ctx, u, path, was, what, 'add', 'a file of %d bytes' % len(was))
        ctx.observe(was)
    return Suite('sizes', driver, rule='every size of the file')


def suites(tier):
    return [Suite('one', one, rule='every content x every kind x mode x object'), sequences(tier), Suite('modes', modes, rule='modes that do not exist'), Suite('lists', lists, rule='lists of up to 3'), Suite('ends', ends, rule='every last byte'), sizes(tier)]
