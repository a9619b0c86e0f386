"""C20: prepare_* functions refuse values outside the documented ones."""
import copy

from .. import history as H, lib, prep
from ..engine import Suite

BOUND = {'quick': 'every argument of every function x every refused value x {alone, with all others} x both dictionaries; every accepted value and code; groups with a bad member at every place; pairs of bad values (first of each)',
         'thorough': 'every pair of bad values of neighbouring arguments; every accepted value with a bad value'}
ASSUMPTIONS = ['documented types are those the functions name in their errors; ignored fields of 58 (spec_data_type, byte_ordering, fp_format, n_ascii_lines, n_bytes) are not checked']


def call(ctx, f, given, full):
    """Whether the call was refused; the arguments must not change."""
    args = {k: v.make() for k, v in given.items()}
    was = copy.deepcopy(args)
    try:
        f.f(**args, return_full_dict=full)
        out = False
    except Exception:
        out = True
    for k in args:
        ok = H.same(was[k], args[k])
        ctx.check(ok, '%s changed its argument %s from %r to %r', f, k, was[k], args[k])
    ctx.op()
    ctx.observe(f.name, sorted((k, v.name) for k, v in given.items() if k not in f.needed), out)
    return out


def others(ctx, f, a):
    if ctx.choose('others', ['left out', 'given']) == 'given':
        return {b: f.good(b)[0] for b in f.args}
    return {b: f.good(b)[0] for b in f.needed}


def refuse(ctx):
    f = ctx.choose('function', prep.FUNCTIONS)
    a = ctx.choose('argument', [x for x in f.args if f.bad(x)])
    given = others(ctx, f, a)
    v = given[a] = ctx.choose('value', f.bad(a))
    ctx.note('%s(%s=%s) is refused' % (f, a, v))
    ctx.check(call(ctx, f, given, ctx.choose('full', [False, True])), '%s accepts %s=%s', f, a, v)


def accept(ctx):
    f = ctx.choose('function', prep.FUNCTIONS)
    a = ctx.choose('argument', list(f.args))
    given = others(ctx, f, a)
    v = given[a] = ctx.choose('value', f.good(a))
    ctx.check(not call(ctx, f, given, ctx.choose('full', [False, True])), '%s refuses %s=%s', f, a, v)


def two(tier):
    def driver(ctx):
        """A bad value with another argument at any value: the check of one must not depend on the other."""
        f = ctx.choose('function', prep.FUNCTIONS)
        names = list(f.args)
        a = ctx.choose('bad argument', [x for x in names if f.bad(x)])
        b = ctx.choose('other argument', [x for x in names if x != a])
        given = {c: f.good(c)[0] for c in f.needed}
        vals = f.bad(a)
        given[a] = ctx.choose('value', vals)
        opts = f.good(b) + f.bad(b)
        given[b] = ctx.choose('other', opts if tier != 'quick' else f.good(b) + opts[-1:] if f.args[b][0] == 'code' else opts[:1] + opts[-1:])
        ctx.check(call(ctx, f, given, False), '%s accepts %s', f, given)
    return Suite('two', driver, rule='a bad value with every other argument')


def groups(ctx):
    """Groups are checked one by one."""
    num = ctx.choose('type', [2429, 2467])
    f = getattr(lib.pyuff, 'prepare_%d' % num)
    make = prep.Function('prepare_group' if num == 2429 else 'prepare_group of 2467')
    n = ctx.choose('groups', [1, 2, 3])
    k = ctx.choose('bad group', list(range(n)))
    a = ctx.choose('field', list(make.args))
    v = ctx.choose('value', make.bad(a) + ['good'])
    gs = [prep.group(i + 1, num == 2467) for i in range(n)]
    if v != 'good':
        gs[k][a] = v.make()
    was = copy.deepcopy(gs)
    try:
        f(gs, return_full_dict=ctx.choose('full', [False, True]))
        out = False
    except Exception:
        out = True
    ctx.check(out == (v != 'good'), 'prepare_%d %s group %d with %s=%s', num, 'refuses' if out else 'accepts', k, a, v)
    ok = H.same(was, gs)
    ctx.check(ok, 'the groups were changed')
    ctx.op()
    ctx.observe(num, n, k, a, str(v))


def containers(ctx):
    num = ctx.choose('type', [2429, 2467])
    g = prep.group(1, num == 2467)
    v = ctx.choose('groups', [prep.V(x) for x in ('5', '"abc"', '1.5', '{}', 'np.array([1])', 'None', '(1,)', '[5]', '["abc"]', '[None]')] + ['a group', 'a tuple'])
    x = g if v == 'a group' else (g,) if v == 'a tuple' else v.make()
    ctx.check(lib.refused(getattr(lib.pyuff, 'prepare_%d' % num), x), 'prepare_%d accepts %r as groups', num, v)
    ctx.op()
    ctx.observe(num, str(v))


def suites(tier):
    return [Suite('refuse', refuse, rule='every argument at every bad value'), Suite('accept', accept, rule='every argument at every good value'), two(tier),
            Suite('groups', groups, rule='a bad field in every group'), Suite('containers', containers, rule='what is no list of groups')]
