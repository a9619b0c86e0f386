"""C29: over-long and non-ASCII text."""
import os

from .. import history as H, lib, sets
from ..engine import Suite

BOUND = {'quick': 'every text field (first and last entry of lists, names inside groups) of every kind x 20 character patterns x 13 lengths around its width, between two neighbours of every position; pairs of fields side by side',
         'thorough': 'the same with 27 lengths and 28 patterns, three kinds of neighbours, and all pairs of fields'}
ASSUMPTIONS = ['the text starts with a character that is not blank and has no character that ends a line (str.splitlines)', 'trailing blanks of a stored text are not significant']

T = sets.TYPES
KINDS = H.models(H.ALL)
PATTERNS = ['x', '7', 'ab ', '\u010d', '\u6f22', '\U0001d54f', 'e\u0301', '-1 ', 'x    -1 ', '%s', '1.5E+03 ', '\u017ex', "'\"", '{0}']
PUNCT = ''.join(chr(c) for c in range(33, 127) if not chr(c).isalnum())
# characters that are not printed, but end no line
PATTERNS += ['a\t', 'a\x1a\x00\x07', 'a\ufeff\xa0\u200bz']
PATTERNS += ['a' + PUNCT, PUNCT[::-1], 'a ' + ' '.join(PUNCT) + ' ']
MORE = ['-1', '\\n', 'D', '#', '\u00df', '\u0130', 'nan ', 'x' * 7 + '-1']


class Place:
    """A text field of a model: key, or an entry of a list."""

    def __init__(self, name, width, get, put):
        self.name, self.width, self.get, self.put = name, width, get, put

    def __repr__(self):
        return self.name


def places(t, m):
    out = []

    def plain(key, width):
        out.append(Place(key, width, lambda d: d[key], lambda d, s: d.__setitem__(key, s)))

    def entry(key, i, width):
        def put(d, s):
            d[key] = list(d[key])
            d[key][i] = s
        out.append(Place('%s[%d]' % (key, i), width, lambda d: d[key][i], put))

    def group(i):
        def put(d, s):
            d['groups'] = [dict(g) for g in d['groups']]
            d['groups'][i]['group_name'] = s
        out.append(Place('groups[%d].group_name' % i, 40, lambda d: d['groups'][i]['group_name'], put))
    if t.num == 18:
        for i in range(len(m['cs_name'])):
            entry('cs_name', i, 40)
    elif t.num in (2429, 2467):
        for i in range(len(m['groups'])):
            group(i)
    else:
        for f in t.header(m):
            if f[1] == 'A' and f[0] in m:
                plain(f[0], f[2])
        if t.num == 2420:
            for i in range(len(m['CS_names'])):
                entry('CS_names', i, 80)
    return out


PLACES = [(k, places(k[1], k[2])) for k in KINDS]
PLACES = [(k, p) for k, p in PLACES if p]


def lengths(w, deep):
    out = [max(1, w - 1), w, w + 1, w + 2, w + 9, w + 10, w + 11, 2 * w, 79, 80, 81, 160, 1000]
    if deep:
        out += [1, 2, w // 2, w + 3, w + 4, w + 5, 2 * w + 1, 3 * w, 82, 132, 133, 161, 400, 5000]
    return sorted(set(out))


def text(pattern, n):
    return (pattern * (n // len(pattern) + 1))[:n]


def judge(ctx, kind, changes, around, mode):
    """Writes the set with the changed texts between neighbours, reads all."""
    _, t, m = kind
    m = H.mark(t, m, 1)
    path = ctx.file()
    for p, s in changes:
        p.put(m, s)
    ns = [(k[1], H.mark(k[1], k[2], 7 + i)) for i, k in enumerate(around)]
    first = ns[0][0].dset(ns[0][1])
    u = lib.pyuff.UFF(path)
    u.write_sets(first, 'overwrite')
    before = lib.data_of(path)
    d = t.dset(m)
    last = ns[1][0].dset(ns[1][1])
    ctx.op(3)
    if mode == 'alone':
        if lib.refused(u.write_sets, d, 'add'):
            ctx.check(lib.data_of(path) == before, 'the set is refused, but the file has changed')
            ctx.observe('refused')
            return
        ctx.check(lib.data_of(path).startswith(before), 'the set before has changed')
        u.write_sets(last, 'add')
    elif lib.refused(u.write_sets, [first, d, last], 'overwrite'):
        ctx.observe('refused')
        return
    for who, w in (('the object', u), ('a new object', lib.pyuff.UFF(path))):
        ctx.check(w.get_n_sets() == 3, '%s: %d sets instead of 3', who, w.get_n_sets())
        got = w.read_sets()
        for i, j in ((0, 0), (2, 1)):
            r = sets.compare(ns[j][0], sets.expect(*ns[j]), got[i])
            ctx.check(r is None, '%s: the neighbouring set %d: %s', who, i, r)
        want = dict(sets.expect(t, m))
        for p, s in changes:
            p.put(want, s[:p.width].rstrip())
        r = sets.compare(t, want, got[1])
        ctx.check(r is None, '%s: %s', who, r)
    ctx.observe(kind[0], [(p.name, s) for p, s in changes], mode)


def lone(deep):
    names = {k[0]: k for k in KINDS}
    pairs = [('151', '58(False, True, False, False)')] + ([('58(False, True, False, True)', '2429'), ('2412', '2414(1, False)')] if deep else [])

    def driver(ctx):
        kind, ps = ctx.choose('kind', PLACES)
        place = ctx.choose('field', ps)
        pattern = ctx.choose('pattern', PATTERNS + (MORE if deep else []))
        n = ctx.choose('length', lengths(place.width, deep))
        around = ctx.choose('neighbours', pairs)
        mode = ctx.choose('written', ['alone', 'in a list'] if deep else ['alone'])
        judge(ctx, kind, [(place, text(pattern, n))], [names[a] for a in around], mode)
        ctx.note('%s %s: %d of %r' % (kind, place, n, pattern))
    return Suite('one', driver, rule='every text field x pattern x length')


def double(deep):
    names = {k[0]: k for k in KINDS}

    def driver(ctx):
        kind, ps = ctx.choose('kind', [x for x in PLACES if len(x[1]) > 1])
        i = ctx.choose('first field', list(range(len(ps) - 1)))
        j = ctx.choose('second field', list(range(i + 1, len(ps) if deep else min(i + 2, len(ps)))))
        a, b = ctx.choose('patterns', [('x', 'x'), ('\u010d', 'ab '), ('\u6f22', '\U0001d54f'), ('7', '-1 ')])
        extra = ctx.choose('longer by', [(0, 1), (1, 0), (1, 1), (60, 60), (-1, 100)])
        ch = [(p, text(s, max(1, p.width + e))) for p, s, e in zip((ps[i], ps[j]), (a, b), extra)]
        judge(ctx, kind, ch, [names['82'], names['15']], 'in a list')
        ctx.note('%s %s and %s' % (kind, ps[i], ps[j]))
    return Suite('two', driver, rule='two text fields at once')


def every(ctx):
    """All text fields at once."""
    kind, ps = ctx.choose('kind', PLACES)
    pattern = ctx.choose('pattern', PATTERNS + MORE)
    e = ctx.choose('longer by', [0, 1, 2, 80, 1000])
    mode = ctx.choose('written', ['alone', 'in a list'])
    names = {k[0]: k for k in KINDS}
    judge(ctx, kind, [(p, text(pattern, p.width + e)) for p in ps], [names['58(False, True, False, True)'], names['164']], mode)


def suites(tier):
    deep = tier != 'quick'
    return [lone(deep), double(deep), Suite('every', every, rule='all text fields over-long at once')]
