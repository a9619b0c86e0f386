"""Runs a fixed space of sets through pyuff in this process and tells what came out: python -m mc.envrun OPTIONS (json).

The bytes of the files, the values read, what prepare_* returns and what is refused, as one digest per case.
"""
import copy
import decimal
import hashlib
import json
import locale
import os
import re
import sys
import time


PLAIN = {int, float, complex, str, bool, bytes, type(None)}


def feed(h, v, np):
    """Canonical, environment-free form of a value."""
    if isinstance(v, dict):
        # the order counts: it is part of the result
        h.update(b'{' + ascii(list(v)).encode())
        for k in v:
            if type(v[k]) in PLAIN:
                h.update(ascii(v[k]).encode() + b';')
            else:
                feed(h, v[k], np)
    elif isinstance(v, (list, tuple)):
        h.update(b'[%d' % len(v) + type(v).__name__.encode())
        if all(type(x) in PLAIN for x in v):
            h.update(ascii(v).encode())
            return
        for x in v:
            feed(h, x, np)
    elif isinstance(v, np.ndarray):
        h.update(repr((v.dtype.str, v.shape)).encode())
        if v.dtype == object:
            for x in v.ravel():
                feed(h, x, np)
        else:
            h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, str):
        h.update(b's' + v.encode('utf-8', 'surrogatepass') + b'\0')
    elif isinstance(v, bytes):
        h.update(b'b' + v + b'\0')
    elif isinstance(v, np.generic):
        h.update(v.dtype.str.encode() + v.tobytes())
    else:
        h.update((type(v).__name__ + ' ' + ascii(v)).encode())


def digest(np, *what):
    h = hashlib.blake2b(digest_size=10)
    for w in what:
        feed(h, w, np)
    return h.hexdigest()


def main():
    o = json.loads(sys.argv[1])
    os.chdir(o['cwd'])
    sys.path.insert(0, o['verif'])
    from mc import alpha, history as H, lib, prep, sets
    from mc.layout import Enc
    np = lib.np
    if o['print']:
        np.set_printoptions(**o['print'])
    how = o['process']
    if how == 'locale set':
        locale.setlocale(locale.LC_ALL, '')
    elif how == 'no output':
        sys.stdout = sys.stderr = None
    elif how == 'umask':
        os.umask(0o077)
    elif how == 'decimal':
        decimal.getcontext().prec = 3
        decimal.getcontext().traps[decimal.Inexact] = True
    elif how == 'trace':
        sys.settrace(lambda *a: None)
    T = sets.TYPES
    path = o['path']
    out = []

    def tell(label, *what):
        out.append((label, digest(np, *what)))

    def case(label, ds, mode='overwrite', fd=True, whole=True):
        """Writes, tells the bytes and the values."""
        if os.path.exists(path):
            os.remove(path)
        u = lib.pyuff.UFF(path)
        try:
            u.write_sets(ds, mode, fd)
            ok = True
        except Exception:
            ok = False
        data = lib.data_of(path) if os.path.exists(path) else None
        got = []
        for args in ((), (0,), (None, True))[:None if whole else 1]:
            try:
                got.append(u.read_sets(*args))
            except Exception:
                got.append('refused')
        tell(label, ok, data, got, u.get_n_sets(), u.get_set_types(), u.get_set_formats())
        return data

    for label, t, m in H.models(H.ALL):
        case(label, t.dset(m))
        case(label + ' added', t.dset(H.mark(t, m, 4)), 'add')
        if t.num == 58:
            case(label + ' native', t.dset(m), 'add', False)
        # every header field at every value of its alphabet
        fields = [f for f in t.header(m) if f[0] in m and not isinstance(m[f[0]], (list, dict))]
        for f in fields:
            ds = []
            for v in alpha.field(f, o['deep']):
                x = dict(m)
                x[f[0]] = v
                ds.append(t.dset(x))
            case('%s %s' % (label, f[0]), ds, whole=o['deep'])
        for s in ('\u017e\u20ac', '\u6f22' * 50, '\U0001d54f', '\xe9' * 200):
            x = dict(m)
            for f in fields:
                if f[1] == 'A':
                    x[f[0]] = s
            for key in ('cs_name', 'CS_names'):
                if key in x:
                    x[key] = [s] * len(x[key])
            if 'groups' in x:
                x['groups'] = [dict(g, group_name=s) for g in x['groups']]
            case('%s with %s' % (label, ascii(s[:2])), t.dset(x))
        # refused or not, and what is left
        d = t.dset(m)
        for key in d:
            x = copy.copy(d)
            del x[key]
            if t.num == 151 and ('date' in key or 'time' in key):
                continue
            case('%s without %s' % (label, key), x, whole=o['deep'])
            for v in (None, 'text', 1.5)[:None if o['deep'] else 2]:
                x = copy.deepcopy(d)
                x[key] = v
                case('%s %s %r' % (label, key, v), x, whole=o['deep'])
        # a file of another program
        raw = t.block58b(m) if t.num == 58 and m['variant'][3] else t.block(m, Enc()).encode()
        lib.put(path, raw + '    -1\n   999\n\u017e\u6f22\n    -1\n'.encode() + raw)
        u = lib.pyuff.UFF(path)
        tell(label + ' foreign', u.read_sets(), u.read_sets(header_only=True), u.get_set_types(), u.get_set_formats())
        try:
            lib.pyuff.fix_58b(path, path)
        except Exception:
            pass        # where the name of the file cannot be printed
        tell(label + ' fixed', lib.data_of(path))
        lib.put(path, raw.replace(b'field', b'\xff\xfe').replace(b'id', b'\x80\xe9'))
        try:
            got = lib.pyuff.UFF(path).read_sets()
        except Exception:
            got = 'refused'
        tell(label + ' with bytes that are no text', got)
    # a time that is left out: its form only
    t = T[151]
    m = t.base()
    d = {k: v for k, v in t.dset(m).items() if 'date' not in k and 'time' not in k}
    case_ = dict(d)
    if os.path.exists(path):
        os.remove(path)
    u = lib.pyuff.UFF(path)
    begin = int(time.time())
    u.write_sets(case_)
    end = int(time.time())
    data = lib.data_of(path).decode()
    got = lib.read(path)
    for a, b in (('date_db_created', 'time_db_created'), ('date_db_saved', 'time_db_saved'), ('date_file_written', 'time_file_written')):
        # both of the local clock
        now = [(time.strftime('%d-%b-%y', time.localtime(s)), time.strftime('%H:%M:%S', time.localtime(s))) for s in range(begin, end + 1)]
        tell('151 ' + a, got[a] in [x[0] for x in now] and got[b] in [x[1] for x in now])
    tell('151 without times', re.sub(r'\d', '0', re.sub(r'\d\d-(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec)-\d\d', '00-Mon-00', data)))
    # all of it at once, in the order of a list
    case('all kinds', [t.dset(H.mark(t, m, 2)) for _, t, m in H.models(H.ALL)])
    for f in prep.FUNCTIONS:
        for arg in f.args:
            res = []
            base = {a: f.good(a)[0].make() for a in f.needed if a != arg}
            for v in f.good(arg) + f.bad(arg):
                for full in (False, True):
                    try:
                        res.append(f.f(**base, **{arg: v.make()}, return_full_dict=full))
                    except Exception:
                        res.append('refused')
            tell('%s %s' % (f, arg), res)
        try:
            tell('%s whole' % f, f.f(**{a: f.good(a)[0].make() for a in f.args}, return_full_dict=True), f.f(**{a: f.good(a)[0].make() for a in f.args}))
        except Exception:
            tell('%s whole' % f, 'refused')
    els = [T[2412].element(i) for i in range(4)]
    tell('convert', lib.pyuff.tools.convert_dataset_2412_to_82([{'type': 2412, 'quad': {'nodes_nums': [el['nodes_nums'] for el in els]}}]))
    with open(o['out'], 'w', encoding='ascii') as fh:
        json.dump(out, fh)


if __name__ == '__main__':
    main()
