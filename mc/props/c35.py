"""C35: names of files."""
import os
import pathlib
import unicodedata

from .. import history as H, lib, sets
from ..engine import Suite
from .c16 import alone

BOUND = {'quick': '46 names (endings, points, blanks, quotes, wildcards, variables, percent signs, non-ASCII, long, look-alikes of results) given absolute or relative and every fourth of them in 11 other ways (dotted, from changing folders, Path, through links, up from links, hard links, keywords) x '
                  'every pair of 9 operations among 6 other files and up to 25 of names that may be taken for it; names in 6 folders that do not exist x triples of 6 operations',
         'thorough': 'triples of operations; every name of one and two of 24 characters'}
ASSUMPTIONS = ['the name is a str or a pathlib.Path, and an object given a relative name is used from one folder']

NAMED = {k[0]: k for k in H.models(H.ALL)}
NAMES = ['a.uff', 'a', 'A.UFF', 'a.unv', 'a.txt', 'a.b.c', '.hidden', '.hidden.uff', 'a.', 'a..uff', 'a b.uff', ' a.uff', 'a.uff ', '-1', '    -1', '-a.uff', '58', '58b', '~', '~root', '$HOME', '${HOME}.uff', '%s', '%d.uff',
         '%HOME%', '{0}', '{}', '*.uff', '?', '[a].uff', 'a\\b.uff', 'a\nb.uff', 'a\tb', "it's.uff", '"a".uff', 'a;b', 'a&b', '#a.uff', 'a=b', '\u017e\u010d.uff', '\u0434\u043e\u043c', '\U0001d54f.uff', 'x' * 200, 'a_fixed.uff',
         'a.uff~', 'None']
HOWS = ['absolute', 'relative', 'dotted', 'up and down', 'Path', 'relative Path', 'link', 'folder link', 'up through a link', 'hard link', 'fileName', 'absolute, folders changing', 'Path, folders changing']
# files that must stay as they are
OTHERS = ['a_other.uff', 'b.uff', 'tmp', 'a.uff.bak', 'a.uff.tmp', 'home/a.uff']
OPS = ['add', 'add binary', 'overwrite', 'overwrite binary', 'list', 'read', 'refresh', 'rejected list', 'rejected', 'unsupported', 'refused read']


def like(name):
    """Names that may be taken for it."""
    base, ext = os.path.splitext(name)
    out = [name.swapcase(), name.lower(), name.upper(), base, base + ext.upper(), base + ext.lower(), base.lower() + ext, name + '.uff', name + '.UFF', base + '.uff', base + '.unv', base + '.txt', name.strip(), name.rstrip('.'),
           name.replace(' ', '_'), name.replace(' ', '%20'), unicodedata.normalize('NFD', name), name.encode('ascii', 'replace').decode(), name.encode('ascii', 'ignore').decode(), '.' + name, name + '~', name + '.bak', name + '.tmp',
           name + '.lock', base + '_fixed' + ext, '.' + name + '.swp']
    return [x for x in dict.fromkeys(out) if x not in ('', '.', '..', name, 'sub', 'home', 'l') and len(x.encode()) < 250]


class Folder:
    """A folder with other files in it, and what everything in it should be."""

    def __init__(self, ctx, name, how):
        self.ctx = ctx
        self.root = os.path.join(ctx.scratch, 'r')
        os.makedirs(os.path.join(self.root, 'home'))
        os.makedirs(os.path.join(self.root, 'sub'))
        self.want = {}
        for i, f in enumerate(OTHERS + (like(name) if how in ('absolute', 'relative', 'absolute, folders changing') else [])):
            if f != name and f not in self.want:
                lib.put(os.path.join(self.root, f), b'other file %d\n' % i)
                self.want[f] = b'other file %d\n' % i
        self.real = os.path.join({'link': 'sub', 'folder link': 'sub', 'up through a link': 'sub', 'hard link': 'sub'}.get(how, ''), name)
        full = os.path.join(self.root, name)
        if how == 'link':
            os.symlink(os.path.join('sub', name), full)
        elif how == 'folder link':
            os.symlink('sub', os.path.join(self.root, 'l'))
            full = os.path.join(self.root, 'l', name)
        elif how == 'up through a link':
            os.makedirs(os.path.join(self.root, 'sub', 'deep'))
            os.symlink(os.path.join('sub', 'deep'), os.path.join(self.root, 'l'))
            full = os.path.join(self.root, 'l', '..', name)
        elif how == 'hard link':
            # the file has another name
            lib.put(full, b'')
            os.link(full, os.path.join(self.root, self.real))
            self.want[name] = self.want[self.real] = b''
        self.given = {'absolute': full, 'relative': name, 'dotted': './' + name, 'up and down': 'sub/../home/../' + name, 'Path': pathlib.Path(full), 'relative Path': pathlib.Path(name), 'link': full,
                      'folder link': full, 'up through a link': full, 'hard link': full, 'fileName': full, 'absolute, folders changing': full, 'Path, folders changing': pathlib.Path(full)}[how]

    def look(self):
        out, links = {}, []
        for where, dirs, files in os.walk(self.root):
            for f in files + [d for d in dirs if os.path.islink(os.path.join(where, d))]:
                p = os.path.join(where, f)
                rel = os.path.relpath(p, self.root)
                if os.path.islink(p):
                    links.append(rel)
                else:
                    out[rel] = lib.data_of(p)
        return out, sorted(links)

    def check(self, who):
        got, links = self.look()
        for f in sorted(set(got) | set(self.want)):
            self.ctx.check(f in got, '%s: the file %r is not there; there are %s', who, f, sorted(got))
            self.ctx.check(f in self.want, '%s: there is a file %r', who, f)
            self.ctx.check(got[f] == self.want[f], '%s: %r holds %r..., expected %r...', who, f, got[f][:60], self.want[f][:60])
        return links


def run(ctx, name, how, ops):
    where = os.getcwd()
    folder = Folder(ctx, name, how)
    os.chdir(folder.root)
    try:
        links = folder.check('before')
        home = os.environ.get('HOME')
        os.environ['HOME'] = os.path.join(folder.root, 'home')
        try:
            u = lib.pyuff.UFF(fileName=folder.given) if how == 'fileName' else lib.pyuff.UFF(folder.given)
            ctx.check(folder.check('an object was made') == links, 'the links changed')
            ctx.check(u.get_file_name() == folder.given, 'get_file_name gives %r', u.get_file_name())
            done = []
            now = []
            for op in ops:
                done.append(op)
                if how.endswith('changing'):
                    os.chdir(os.path.join(folder.root, ('sub', 'home')[len(done) % 2]))
                    folder.here = os.getcwd()
                who = '%s named %r (%s)' % (done, name, how)
                there = folder.real in folder.want
                ctx.check(u.file_exists() is there, '%s: file_exists %r', who, u.file_exists())
                k = NAMED['58(False, True, False, True)' if 'binary' in op else '164']
                d = k[1].dset(k[2])
                if op.startswith(('add', 'overwrite', 'list')):
                    ds = [d, NAMED['151'][1].dset(NAMED['151'][2])] if op == 'list' else [d]
                    if op.startswith('overwrite'):
                        now = []
                    for x in ds:
                        now.append((NAMED['151'] if x['type'] == 151 else k))
                    new = b''.join(alone(ctx, x) for x in ds)
                    folder.want[folder.real] = (b'' if op.startswith('overwrite') else folder.want.get(folder.real, b'')) + new
                    u.write_sets(ds if op == 'list' else d, 'overwrite' if op.startswith('overwrite') else 'add')
                elif op == 'read':
                    if there:
                        u.read_sets()
                    else:
                        ctx.check(lib.refused(u.read_sets), '%s: an absent file is read', who)
                elif op == 'refresh':
                    ctx.check(u.refresh() is there, '%s: refresh', who)
                elif op == 'rejected list':
                    # the sets before the incomplete one are stored
                    ctx.check(lib.refused(u.write_sets, [d, {'type': 151}], 'add'), '%s: an incomplete set is stored', who)
                    now.append(k)
                    folder.want[folder.real] = folder.want.get(folder.real, b'') + alone(ctx, d)
                elif op == 'rejected':
                    ctx.check(lib.refused(u.write_sets, {'type': 151}, 'add'), '%s: an incomplete set is stored', who)
                elif op == 'unsupported':
                    u.write_sets({'type': 9999}, 'add')
                    if not there and os.path.exists(os.path.join(folder.root, folder.real)):
                        folder.want[folder.real] = b''
                else:
                    ctx.check(lib.refused(u.read_sets, 99), '%s: set 99', who)
                if how == 'hard link':
                    folder.want[name] = folder.want[folder.real]
                after = folder.check(who)
                ctx.check(after == links, '%s: the links are %s, were %s', who, after, links)
                H.Model([(x[1], sets.expect(x[1], x[2])) for x in now]).check_info(ctx, u, who + ': ')
                if now:
                    H.Model([(x[1], sets.expect(x[1], x[2])) for x in now]).check_all(ctx, u, who + ': ')
                ctx.op(3)
            folder.check('in the end')
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home
        ctx.check(os.path.realpath(os.getcwd()) == os.path.realpath(getattr(folder, 'here', folder.root)), 'the current folder was changed')
    finally:
        os.chdir(where)
    ctx.observe(name, how, ops)
    ctx.note('%s named %r (%s)' % (ops, name, how))


def histories(tier):
    def driver(ctx):
        how = ctx.choose('given as', HOWS)
        name = ctx.choose('name', NAMES if tier != 'quick' or how in ('absolute', 'relative') else NAMES[::4])
        ops = [ctx.choose('operation', OPS if i or tier != 'quick' else OPS[:8]) for i in range(2 if tier == 'quick' else 3)]
        run(ctx, name, how, ops)
    return Suite('names', driver, rule='every name x way to give it x operations')


CHARS = list('aZ0._-+ ~$%#@!&()[]{},;=^') + ["'", '"', '`', '\\', '|', '<', '>', '*', '?', ':', '\u017e', '\t', '\n']


def characters(tier):
    def driver(ctx):
        a = ctx.choose('first', CHARS)
        b = ctx.choose('second', [''] + CHARS)
        name = a + b
        if name in ('.', '..') or name in OTHERS:
            return
        run(ctx, name + ctx.choose('ending', ['', '.uff']), ctx.choose('given as', ['relative', 'absolute']), ['add', 'overwrite binary', 'read'])
    return Suite('characters', driver, rule='every name of one and two characters')


def nowhere(ctx):
    """A name in a folder that does not exist."""
    name = ctx.choose('name', ['no/a.uff', 'no/no/a.uff', 'b.uff/a.uff', 'home/no/a.uff', '~/a.uff', 'broken/a.uff'])
    how = ctx.choose('given as', ['absolute', 'relative', 'Path'])
    ops = [ctx.choose('operation', ['read', 'refresh', 'add', 'overwrite binary', 'fix', 'ask']) for _ in range(3)]
    root = os.path.join(ctx.scratch, 'r')
    os.makedirs(os.path.join(root, 'home'))
    lib.put(os.path.join(root, 'b.uff'), b'other\n')
    os.symlink('nothing', os.path.join(root, 'broken'))
    where = os.getcwd()
    os.chdir(root)

    def look():
        return sorted((p, sorted(d), sorted(f)) for p, d, f in os.walk('.'))
    before = look()
    try:
        given = {'absolute': os.path.join(root, name), 'relative': name, 'Path': pathlib.Path(os.path.join(root, name))}[how]
        u = lib.pyuff.UFF(given)
        for op in ops:
            ctx.check(u.file_exists() is False, 'file_exists in a folder that is not there')
            if op == 'read':
                ctx.check(lib.refused(u.read_sets) and lib.refused(u.read_sets, 0), 'a file in no folder is read')
            elif op == 'refresh':
                ctx.check(u.refresh() is False, 'a file in no folder is refreshed')
            elif op == 'fix':
                ctx.check(lib.refused(lib.pyuff.fix_58b, given if how != 'Path' else str(given)), 'a file in no folder is fixed')
            elif op == 'ask':
                ctx.check(u.get_n_sets() == 0 and len(u.get_set_types()) == 0 and len(u.get_set_formats()) == 0, 'there are sets in no folder')
            else:
                k = NAMED['58(False, True, False, True)' if 'binary' in op else '164']
                ctx.check(lib.refused(u.write_sets, k[1].dset(k[2]), op.split()[0]), 'a set is stored in no folder')
            ctx.op()
            ctx.check(look() == before, '%s: the folders are %s, were %s', op, look(), before)
            ctx.check(lib.data_of('b.uff') == b'other\n', 'another file was changed')
    finally:
        os.chdir(where)
    ctx.observe(name, how, ops)


def suites(tier):
    return [Suite('nowhere', nowhere, rule='names in folders that do not exist x operations'), histories(tier), characters(tier)]
