"""The supported data-set types: models of their contents and the published layout of each.

A model is a plain dictionary: the fields under their names in pyuff, scalars, lists, or lists of lists, and for some types
'variant' (a tuple).  For every type there is

    fields(m)    {key: kind}; kind A text, I integer, E5 real with 6 digits, E11 12 digits, E7 8 digits, D16 17 digits,
                 X exact, C<kind> complex
    dset(m)      the dictionary given to write_sets
    view(d)      the model fields of a dictionary returned by read_sets
    encode(m, e) the lines of the set according to the published layout
    decode(body) the model fields of such lines
    header       [(key, kind, width)] the scalar fields, in the order of the file
"""
import numpy as np

from .layout import BadLayout, Enc, Lines

REL = {'E5': 5.0001e-6, 'E11': 5.0001e-12, 'E7': 5.0001e-8, 'D16': 5.0001e-17 + 2.3e-16, 'X': 0.0, 'F4': 5.0001e-5, 'S': 6e-8}


def _flat(v, out):
    if isinstance(v, np.ndarray):
        out.extend(v.ravel().tolist())
    elif isinstance(v, (list, tuple)):
        for x in v:
            _flat(x, out)
    else:
        out.append(v)
    return out


def _shape(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [_shape(x) for x in v] if len(v) and isinstance(v[0], (list, tuple, np.ndarray)) else len(v)
    return None


def close(a, b, rel):
    if isinstance(b, (str, bytes)) or b is None:
        return False
    if isinstance(a, complex) or isinstance(b, (complex, np.complexfloating)):
        a, b = complex(a), complex(b)
        return close(a.real, b.real, rel) and close(a.imag, b.imag, rel)
    try:
        b = float(b)
    except (TypeError, ValueError):
        return False
    return a == b or abs(a - b) <= rel * abs(a)


def diff(fields, want, got, rel=None, what=''):
    """The first difference between a model and a view as text, or None.  rel overrides tolerances per kind."""
    for key, kind in fields.items():
        if key not in want:
            continue
        w = want[key]
        if key not in got:
            return '%s%s is missing, expected %s' % (what, key, _short(w))
        g = got[key]
        if kind == 'A':
            w_, g_ = _flat(w, []), _flat(g, [])
            if [str(x) for x in w_] != [x if isinstance(x, str) else repr(x) for x in g_]:
                return '%s%s is %s, expected %s' % (what, key, _short(g), _short(w))
            continue
        if (_shape(w) is None) != (_shape(g) is None) or (_shape(w) is not None and _shape(w) != _shape(g)):
            return '%s%s is %s, expected %s (different lengths)' % (what, key, _short(g), _short(w))
        r = (rel or {}).get(kind.lstrip('C'), 0.0 if kind == 'I' else REL[kind.lstrip('C')])
        wa, ga = _flat(w, []), _flat(g, [])
        for i, (a, b) in enumerate(zip(wa, ga)):
            if not close(a, b, r):
                return '%s%s%s is %r, expected %r' % (what, key, '' if _shape(w) is None else '[%d]' % i, b, a)
    return None


def _short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:120] + '...'


def I(key, width=10): return (key, 'I', width)
def A(key, width=80): return (key, 'A', width)
def E(key, width=13, prec=5): return (key, 'E', width, prec)
def D(key, width=25, prec=16): return (key, 'D', width, prec)
def X(width): return (None, 'X', width)


KIND = {('E', 5): 'E5', ('E', 7): 'E7', ('D', 16): 'D16', ('E', 11): 'E11'}


def kinds(records):
    out = {}
    for rec in records:
        for f in rec:
            if f[1] != 'X' and not f[0].startswith('='):
                out[f[0]] = f[1] if f[1] in 'AI' else KIND[(f[1], f[3])]
    return out


class Type:
    num = None
    extra = ' ' * 74
    optional = {}           # documented defaults
    array = False           # data with a variable number of entries

    def records(self, m):
        return []

    def header(self, m):
        return [f for rec in self.records(m) for f in rec if f[1] != 'X' and not f[0].startswith('=')]

    def fields(self, m):
        return kinds(self.records(m))

    def dset(self, m):
        d = {k: v for k, v in m.items() if k != 'variant'}
        d['type'] = self.num
        return d

    def view(self, d):
        return d

    def encode(self, m, e):
        return [e.record(rec, m) for rec in self.records(m)]

    def decode(self, body):
        raise NotImplementedError

    def block(self, m, e=None):
        e = e or Enc()
        return e.block(self.num, self.encode(m, e), self.extra if not e.plain else '')


# ---------------------------------------------------------------------------------------------------------------- 58

class T58(Type):
    """variant: (complex, even, single, binary)."""
    num = 58
    array = True
    REC = [[A('id1')], [A('id2')], [A('id3')], [A('id4')], [A('id5')],
           [I('func_type', 5), I('func_id'), I('ver_num', 5), I('load_case_id'), X(1), A('rsp_ent_name', 10), I('rsp_node'),
            I('rsp_dir', 4), X(1), A('ref_ent_name', 10), I('ref_node'), I('ref_dir', 4)],
           [I('ord_data_type'), I('num_pts'), I('abscissa_spacing'), E('abscissa_min'), E('abscissa_inc'), E('z_axis_value')]]
    for _p in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
        REC.append([I(_p + '_spec_data_type'), I(_p + '_len_unit_exp', 5), I(_p + '_force_unit_exp', 5),
                    I(_p + '_temp_unit_exp', 5), X(1), A(_p + '_axis_lab', 20), X(1), A(_p + '_axis_units_lab', 20)])

    optional = {'id1': 'NONE', 'id2': 'NONE', 'id3': 'NONE', 'id4': 'NONE', 'id5': 'NONE', 'func_id': 0, 'ver_num': 0,
                'binary': 0, 'load_case_id': 0, 'rsp_ent_name': 'NONE', 'ref_ent_name': 'NONE', 'z_axis_value': 0,
                'abscissa_spacing': 0}
    for _p in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
        optional.update({_p + '_axis_lab': 'NONE', _p + '_axis_units_lab': 'NONE', _p + '_len_unit_exp': 0,
                         _p + '_force_unit_exp': 0, _p + '_temp_unit_exp': 0, _p + '_spec_data_type': 0})
    required = ['func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'x', 'data']

    def records(self, m):
        return self.REC

    @staticmethod
    def ord(m):
        return {(False, True): 2, (False, False): 4, (True, True): 5, (True, False): 6}[(m['variant'][0], m['variant'][2])]

    def base(self, variant=(False, True, False, False), n=3):
        m = {'variant': variant, 'id1': 'first id line', 'id2': 'second', 'id3': '24-Jan-99 12:00:01', 'id4': 'fourth', 'id5': 'id no. 5',
             'func_type': 4 if variant[0] else 1, 'func_id': 101, 'ver_num': 12, 'load_case_id': 103, 'rsp_ent_name': 'RSPENT',
             'rsp_node': 1051, 'rsp_dir': -3, 'ref_ent_name': 'REFENT', 'ref_node': 2061, 'ref_dir': 2, 'z_axis_value': 7.25}
        for k, p in enumerate(('abscissa', 'ordinate', 'orddenom', 'z_axis')):
            m.update({p + '_spec_data_type': 12 + k, p + '_len_unit_exp': k - 2, p + '_force_unit_exp': 5 + k,
                      p + '_temp_unit_exp': -9 + k, p + '_axis_lab': p[:5] + ' label', p + '_axis_units_lab': 'u' + p[-4:]})
        self.fill(m, n)
        return m

    def fill(self, m, n, values=None, x0=0.5, dx=0.25, xs=None):
        """Sets the samples: n points, values cycled."""
        cplx, even = m['variant'][:2]
        values = values or [1.5, -2.25, 1024.0, 3.0e-5, 0.0, -7.75e8]
        k = len(values)
        if cplx:
            m['data'] = [complex(values[(2 * i) % k], values[(2 * i + 1) % k]) for i in range(n)]
        else:
            m['data'] = [values[i % k] for i in range(n)]
        if even:
            m['x'] = [x0 + i * dx for i in range(n)]
        else:
            m['x'] = [xs[i % len(xs)] for i in range(n)] if xs else [x0 + dx * i * (i + 1) / 2 for i in range(n)]
        m['x0'], m['dx'] = m['x'][0], dx
        return m

    def complete(self, m):
        """With the header fields that follow from the data."""
        c = dict(m)
        even = m['variant'][1]
        n = len(m['data'])
        c.update(ord_data_type=self.ord(m), num_pts=n, abscissa_spacing=int(even), abscissa_min=m['x'][0] if even else 0.0,
                 abscissa_inc=(m['x'][1] - m['x'][0] if n > 1 else m['dx']) if even else 0.0)
        if even and 'axis' in m:
            # as a header tells it, whatever the rounded abscissae are
            c.update(abscissa_min=m['axis'][0], abscissa_inc=m['axis'][1])
        return c

    def fields(self, m):
        cplx, even, single, binary = m['variant']
        f = dict(kinds(self.REC))
        if not m.get('data'):
            return f
        y = ('S' if single else 'X') if binary else ('E5' if single else 'E11')
        f['data'] = 'C' + y if cplx else y
        if not even:
            f['x'] = ('S' if single else 'X') if binary else 'E5'
        f['binary'] = 'I'
        return f

    def dset(self, m):
        d = {k: v for k, v in m.items() if k not in ('variant', 'x0', 'dx', 'axis')}
        cplx, even, single, binary = m['variant']
        d.update(type=58, binary=int(binary), abscissa_spacing=int(even), x=np.array(m['x'], 'd'),
                 data=np.array(m['data'], 'D' if cplx else 'd'), ord_data_type=self.ord(m))
        if len(m['x']) == 1:
            d['abscissa_inc'] = m['dx']
        return d

    def expect(self, m, force_double=True):
        """The model as it should be read back."""
        m = dict(m)
        cplx, even, single, binary = m['variant']
        m['variant'] = (cplx, even, single and not force_double, binary)
        m['binary'] = int(binary)
        return self.complete(m)

    def check_x(self, want, d, rel=5.1e-6):
        """The even abscissa of a read set."""
        if not want['variant'][1]:
            return None
        x, n = np.asarray(d['x']), len(want['data'])
        if x.shape != (n,):
            return 'x has %s values, expected %d' % (x.shape, n)
        k = np.arange(n)
        x0, dx = want['abscissa_min'], want['abscissa_inc']
        bad = np.nonzero(~(np.abs(x - (x0 + k * dx)) <= rel * (abs(x0) + k * abs(dx)) + 1e-300))[0]
        return None if len(bad) == 0 else 'x[%d] is %r, expected %r' % (bad[0], float(x[bad[0]]), x0 + bad[0] * dx)

    @staticmethod
    def samples(m):
        """The numbers of the body, in the order of the file."""
        cplx, even = m['variant'][:2]
        out = []
        for x, y in zip(m['x'], m['data']):
            if not even:
                out.append(x)
            out.extend([y.real, y.imag] if cplx else [y])
        return out

    def encode(self, m, e):
        c = self.complete(m)
        cplx, even, single, binary = m['variant']
        lines = [e.record(rec, c) for rec in self.REC]
        v = self.samples(m)
        if single:
            return lines + e.items('E', 13, 5, v, 6)
        if even:
            return lines + e.items('E', 20, 11 if e.style == '1P' and not e.full else 12, v, 4)
        cells = []
        step = 3 if cplx else 2
        for i, y in enumerate(v):
            cells.append(e.field('E', 13, 5, y) if i % step == 0 else e.field('E', 20, 11 if e.style == '1P' and not e.full else 12, y))
        per = 3 if cplx else 4
        return lines + [''.join(cells[i:i + per]) for i in range(0, len(cells), per)]

    def decode(self, body):
        b = Lines(body)
        c = {}
        for rec in self.REC:
            b.record(rec, c)
        n, even, t = c['num_pts'], bool(c['abscissa_spacing']), c['ord_data_type']
        if t not in (2, 4, 5, 6):
            raise BadLayout('ordinate data type %r' % t)
        cplx, single = t in (5, 6), t in (2, 5)
        per = (2 if cplx else 1) + (0 if even else 1)
        if single:
            v = b.items('E', 13, n * per, 6)
        elif even:
            v = b.items('E', 20, n * per, 4)
        else:
            v = []
            on_line = 1 if cplx else 2
            from .layout import get
            while len(v) < n * per:
                line, pos = b.next(), 0
                for j in range(min(on_line, n - len(v) // per)):
                    for k in range(per):
                        w = 13 if k == 0 else 20
                        v.append(get(line, pos, w, 'E'))
                        pos += w
        b.end()
        if not even:
            c['x'] = v[::per]
        o = 0 if even else 1
        c['data'] = [complex(v[i + o], v[i + o + 1]) for i in range(0, len(v), per)] if cplx else v[o::per]
        c['binary'] = 0
        return c

    def block58b(self, m, order='<', eol=b'\n', pad_end=True, letter='b', count=None, e=None):
        """A binary set as bytes."""
        import struct
        c = self.complete(m)
        e = e or Enc()
        v = self.samples(m)
        single = m['variant'][2]
        raw = struct.pack(order + str(len(v)) + ('f' if single else 'd'), *v)
        head = '%6d%s%6d%6d%12d%12d%6d%6d%12d%12d' % (58, letter, 1 if order == '<' else 2, 2, 11, len(raw) if count is None else count, 0, 0, 0, 0)
        lines = ['    -1', head] + [e.record(rec, c) for rec in self.REC]
        text = b''.join(s.encode('utf-8') + eol for s in lines)
        return text + raw + (eol if pad_end else b'') + b'    -1' + eol


# ---------------------------------------------------------------------------------------------------------------- 55

class T55(Type):
    """variant: (analysis type, complex, components)."""
    num = 55
    array = True
    REC = [[A('id1')], [A('id2')], [A('id3')], [A('id4')], [A('id5')],
           [I('model_type'), I('analysis_type'), I('data_ch'), I('spec_data_type'), I('data_type'), I('n_data_per_node')]]
    SPEC = {2: [[I('=2'), I('=4'), I('load_case'), I('mode_n')],
                [E('freq'), E('modal_m'), E('modal_damp_vis'), E('modal_damp_his')]],
            3: [[I('=2'), I('=6'), I('load_case'), I('mode_n')],
                [E('eig_r'), E('eig_i'), E('modal_a_r'), E('modal_a_i'), E('modal_b_r'), E('modal_b_i')]],
            5: [[I('=2'), I('=1'), I('load_case'), I('freq_step_n')], [E('freq')]]}
    SPEC[7] = SPEC[3]
    optional = {'id1': 'NONE', 'id2': 'NONE', 'id3': 'NONE', 'id4': 'NONE', 'id5': 'NONE', 'model_type': 1}
    opt_spec = {2: {'modal_m': 0, 'modal_damp_vis': 0, 'modal_damp_his': 0}, 3: {'modal_a': 0.0, 'modal_b': 0.0}, 5: {},
                7: {'modal_a': 0.0, 'modal_b': 0.0}}

    def required(self, m):
        return ['analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'node_nums', 'r1', 'r2', 'r3'] + \
            {2: ['mode_n', 'freq'], 3: ['mode_n', 'eig'], 7: ['mode_n', 'eig'], 5: ['freq_step_n', 'freq']}[m['variant'][0]]

    def records(self, m):
        return self.REC + self.SPEC[m['variant'][0]]

    def fields(self, m):
        f = kinds(self.records(m))
        f['node_nums'] = 'I'
        for k in range(m['variant'][2]):
            f['r%d' % (k + 1)] = 'CE5' if m['variant'][1] else 'E5'
        return f

    def base(self, variant=(2, False, 3), n=3):
        m = {'variant': variant, 'id1': 'results', 'id2': 'line two', 'id3': 'third', 'id4': '4th', 'id5': 'no. five', 'model_type': 1,
             'analysis_type': variant[0], 'data_ch': 2 if variant[2] == 3 else 3, 'spec_data_type': 8, 'load_case': 17, 'mode_n': 23, 'freq_step_n': 29,
             'freq': 12.75, 'modal_m': 1.125, 'modal_damp_vis': 0.03125, 'modal_damp_his': -0.0625, 'eig_r': -3.5, 'eig_i': 98.25,
             'modal_a_r': 4.5, 'modal_a_i': -5.5, 'modal_b_r': 6.125, 'modal_b_i': 7.875}
        keep = set(self.header_keys(m)) | {'variant', 'analysis_type', 'data_ch'}
        m = {k: v for k, v in m.items() if k in keep}
        m['data_type'] = 5 if variant[1] else 2
        m['n_data_per_node'] = variant[2]
        self.fill(m, n)
        return m

    def header_keys(self, m):
        return [f[0] for f in self.header(m)]

    def fill(self, m, n, values=None, nodes=None, shift=0):
        _, cplx, comp = m['variant']
        values = values or [0.5, -1.25, 3.75e-4, 12345.5, 0.0, -8.5e9, 2.0]
        nodes = nodes or [1, 12, 305, 4021]
        m['node_nums'] = [nodes[i % len(nodes)] for i in range(n)]
        k = len(values)
        for j in range(comp):
            if cplx:
                m['r%d' % (j + 1)] = [complex(values[(i * 2 * comp + 2 * j + shift) % k], values[(i * 2 * comp + 2 * j + 1 + shift) % k])
                                      for i in range(n)]
            else:
                m['r%d' % (j + 1)] = [values[(i * comp + j + shift) % k] for i in range(n)]
        return m

    def dset(self, m):
        d = {k: v for k, v in m.items() if k not in ('variant',) and not k.endswith(('_r', '_i'))}
        d['type'] = 55
        if m['variant'][0] in (3, 7):
            for k in ('eig', 'modal_a', 'modal_b'):
                if k + '_r' in m:
                    d[k] = complex(m[k + '_r'], m[k + '_i'])
        d['node_nums'] = np.array(m['node_nums'])
        for j in range(m['variant'][2]):
            d['r%d' % (j + 1)] = np.array(m['r%d' % (j + 1)], 'D' if m['variant'][1] else 'd')
        return d

    def view(self, d):
        v = dict(d)
        for k in ('eig', 'modal_a', 'modal_b'):
            if k in d:
                v[k + '_r'], v[k + '_i'] = complex(d[k]).real, complex(d[k]).imag
        return v

    def encode(self, m, e):
        lines = [e.record(rec, m) for rec in self.records(m)]
        _, cplx, comp = m['variant']
        for i, node in enumerate(m['node_nums']):
            lines.append(e.record([I('n')], {'n': node}))
            v = []
            for j in range(comp):
                y = m['r%d' % (j + 1)][i]
                v.extend([y.real, y.imag] if cplx else [y])
            lines += e.items('E', 13, 5, v, 6)
        return lines

    def decode(self, body):
        b, c = Lines(body), {}
        for rec in self.REC:
            b.record(rec, c)
        if c['analysis_type'] not in self.SPEC:
            raise BadLayout('analysis type %r' % c['analysis_type'])
        spec = self.SPEC[c['analysis_type']]
        n_int, n_real = b.record([I('i'), I('r')]).values()
        if n_int != len(spec[0]) - 2 or n_real != len(spec[1]):
            raise BadLayout('%d integers and %d reals announced for analysis type %d' % (n_int, n_real, c['analysis_type']))
        b.i -= 1
        for rec in spec:
            b.record(rec, c)
        cplx, comp = c['data_type'] == 5, c['n_data_per_node']
        c['node_nums'] = []
        r = [[] for _ in range(comp)]
        while b.more():
            c['node_nums'].append(b.record([I('n')])['n'])
            v = b.items('E', 13, comp * (2 if cplx else 1), 6)
            for j in range(comp):
                r[j].append(complex(v[2 * j], v[2 * j + 1]) if cplx else v[j])
        for j in range(comp):
            c['r%d' % (j + 1)] = r[j]
        return c


# ------------------------------------------------------------------------------------------- sets of rows: 15, 18, 2411

class Rows(Type):
    """n entries of the same records; every field is a list."""
    array = True

    def row(self):
        return []

    def entry_fields(self):
        return [f for rec in self.row() for f in rec if f[1] != 'X']

    def fields(self, m):
        return {self.base_key(f[0]): k for f in self.entry_fields() for k in [f[1] if f[1] in 'AI' else KIND[(f[1], f[3])]]}

    @staticmethod
    def base_key(key):
        return key.split('.')[0]

    def cell(self, m, key, i):
        parts = key.split('.')
        v = m[parts[0]][i]
        for p in parts[1:]:
            v = v[int(p)]
        return v

    def encode(self, m, e):
        n = len(m[self.base_key(self.entry_fields()[0][0])])
        out = []
        for i in range(n):
            for rec in self.row():
                out.append(e.record(rec, {f[0]: self.cell(m, f[0], i) for f in rec if f[1] != 'X'}))
        return out

    def decode(self, body):
        b = Lines(body)
        out = {}
        for f in self.entry_fields():
            out[self.base_key(f[0])] = []
        while b.more():
            row = {}
            for rec in self.row():
                b.record(rec, row)
            for key in out:
                parts = [k for k in row if self.base_key(k) == key]
                out[key].append(row[key] if parts == [key] else [row[k] for k in parts])
        return out


class T15(Rows):
    num = 15
    optional = {'def_cs': 0, 'disp_cs': 0, 'color': 0}
    required = ['node_nums', 'x', 'y', 'z']

    def row(self):
        return [[I('node_nums'), I('def_cs'), I('disp_cs'), I('color'), E('x'), E('y'), E('z')]]

    def base(self, variant=None, n=3):
        return {'node_nums': [16 + 5 * i for i in range(n)], 'def_cs': [11 + i for i in range(n)], 'disp_cs': [12 + 3 * i for i in range(n)],
                'color': [8 + 2 * i for i in range(n)], 'x': [1.53 + i for i in range(n)], 'y': [-2.25 - i for i in range(n)],
                'z': [345.5 * (i + 1) for i in range(n)]}


class T18(Rows):
    num = 18
    optional = {'cs_type': 0, 'color': 0, 'method': 1, 'cs_name': ''}
    required = ['cs_num', 'ref_cs_num', 'ref_o', 'x_point', 'xz_point']

    def row(self):
        return [[I('cs_num'), I('cs_type'), I('ref_cs_num'), I('color'), I('method')], [A('cs_name', 40)],
                [E('ref_o.0'), E('ref_o.1'), E('ref_o.2'), E('x_point.0'), E('x_point.1'), E('x_point.2')],
                [E('xz_point.0'), E('xz_point.1'), E('xz_point.2')]]

    def base(self, variant=None, n=2):
        return {'cs_num': [i + 1 for i in range(n)], 'cs_type': [(i + 1) % 3 for i in range(n)], 'ref_cs_num': [20 + i for i in range(n)],
                'color': [30 + 2 * i for i in range(n)], 'method': [(3 * i) % 2 + 1 for i in range(n)], 'cs_name': ['system %d' % i for i in range(n)],
                'ref_o': [[0.5 + i, 1.5 - i, -2.5] for i in range(n)], 'x_point': [[3.25, 4.75 + i, 5.5] for i in range(n)],
                'xz_point': [[-6.5 * (i + 1), 7.125, 8.0] for i in range(n)]}


class T2411(Rows):
    num = 2411
    required = ['node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z']

    def row(self):
        return [[I('node_nums'), I('def_cs'), I('disp_cs'), I('color')], [D('x'), D('y'), D('z')]]

    def base(self, variant=None, n=3):
        return {'node_nums': [1 + 5 * i for i in range(n)], 'def_cs': [11 + i for i in range(n)], 'disp_cs': [12 + 3 * i for i in range(n)],
                'color': [8 + 2 * i for i in range(n)], 'x': [1.53 + i for i in range(n)], 'y': [-2.1 / 3 - i for i in range(n)],
                'z': [345.5 * (i + 1) for i in range(n)]}

    def dset(self, m):
        return {'type': 2411, **{k: np.array(v) for k, v in m.items()}}


class T2420(Rows):
    num = 2420
    optional = {'Part_UID': 1, 'Part_Name': 'None'}
    required = ['CS_sys_labels', 'CS_names', 'CS_matrices']
    HEAD = [[I('Part_UID')], [A('Part_Name')]]

    def records(self, m):
        return self.HEAD

    def row(self):
        return [[I('CS_sys_labels'), I('CS_types'), I('CS_colors')], [A('CS_names')]] + \
            [[D('CS_matrices.%d.%d' % (r, c)) for c in range(3)] for r in range(4)]

    def fields(self, m):
        f = kinds(self.HEAD)
        f.update({k: v for k, v in Rows.fields(self, m).items()})
        return f

    def base(self, variant=None, n=2):
        return {'Part_UID': 41, 'Part_Name': 'the part', 'CS_sys_labels': [3 + 4 * i for i in range(n)], 'CS_types': [(i + 1) % 3 for i in range(n)],
                'CS_colors': [8 + i for i in range(n)], 'CS_names': ['CS no %d' % i for i in range(n)],
                'CS_matrices': [[[1.0 / 3 + i, -0.1, 0.25], [0.7, 1.1 - i, -2e-3], [9.0, 8.5, 7.25 + i], [100.1, -200.2, 300.3 * (i + 1)]] for i in range(n)]}

    def dset(self, m):
        d = {'type': 2420, **m}
        d['CS_matrices'] = [np.array(a) for a in m['CS_matrices']]
        return d

    def view(self, d):
        v = dict(d)
        if 'CS_matrices' in d:
            v['CS_matrices'] = [np.asarray(a).tolist() for a in d['CS_matrices']]
        return v

    def encode(self, m, e):
        return [e.record(rec, m) for rec in self.HEAD] + Rows.encode(self, m, e)

    def decode(self, body):
        b, c = Lines(body), {}
        for rec in self.HEAD:
            b.record(rec, c)
        r = Rows.decode(self, b.lines[b.i:])
        mats = r['CS_matrices']
        r['CS_matrices'] = [[v[3 * k:3 * k + 3] for k in range(4)] for v in mats]
        c.update(r)
        return c


# ------------------------------------------------------------------------------------------------- header sets

class Flat(Type):
    def decode(self, body):
        b, c = Lines(body), {}
        for rec in self.records(None):
            b.record(rec, c)
        b.end()
        return c


class T151(Flat):
    num = 151
    REC = [[A('model_name')], [A('description')], [A('db_app')],
           [A('date_db_created', 10), A('time_db_created', 10), I('version_db1'), I('version_db2'), I('file_type')],
           [A('date_db_saved', 10), A('time_db_saved', 10)], [A('program')], [A('date_file_written', 10), A('time_file_written', 10)]]
    optional = {'version_db1': 0, 'version_db2': 0, 'file_type': 0}
    required = ['model_name', 'description', 'db_app', 'program']

    def records(self, m):
        return self.REC

    def base(self, variant=None, n=0):
        return {'model_name': 'the model', 'description': 'what it is', 'db_app': 'a program', 'date_db_created': '27-Jan-16', 'time_db_created': '14:38:15',
                'version_db1': 12, 'version_db2': 34, 'file_type': 1, 'date_db_saved': '28-Feb-17', 'time_db_saved': '15:39:16',
                'program': 'another one', 'date_file_written': '29-Mar-18', 'time_file_written': '16:40:17'}


class T164(Flat):
    num = 164
    REC = [[I('units_code'), A('units_description', 20), I('temp_mode')], [D('length'), D('force'), D('temp')], [D('temp_offset')]]
    optional = {'units_description': 'User unit system', 'temp_mode': 1}
    required = ['units_code', 'length', 'force', 'temp', 'temp_offset']

    def records(self, m):
        return self.REC

    def base(self, variant=None, n=0):
        return {'units_code': 9, 'units_description': 'my units', 'temp_mode': 2, 'length': 3.28083989501312334, 'force': -0.22480894387096, 'temp': 1.8,
                'temp_offset': 459.67}


class T1858(Flat):
    num = 1858
    REC = [[I('record_num', 12), I('octave_format', 12), I('measurement_run', 12), I('=0', 12), I('=0', 12), I('=0', 12)],
           [I(k, 6) for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
                              'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier',
                              'z_axis_data_type_qualifier', 'sampling_type', '=0', '=0', '=0')],
           [E(k, 15, 7) for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', '=0')],
           [E(k, 15, 7) for k in ('user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')],
           [E('=0', 15, 7)] * 5, [A('response_direction', 4), X(2), A('reference_direction', 4)], [A('=NONE')]]
    required = [f[0] for r in REC for f in r if f[1] != 'X' and not f[0].startswith('=')]

    def records(self, m):
        return self.REC

    def base(self, variant=None, n=0):
        m = {}
        for k, (key, kind, *w) in enumerate(self.header(None)):
            m[key] = {'I': 101 + 3 * k, 'E': 1.5 + 0.0625 * k, 'A': 'XYZ+'[:2 + k % 3]}[kind]
        m['response_direction'], m['reference_direction'] = 'X+', 'RY-'
        return m


class T2400(Flat):
    num = 2400
    REC = [[I('model_uid', 12), I('entity_type', 6), I('entity_subtype', 6), I('version_number', 12)], [A('entity_name')], [A('part_number')],
           [I('status_mask.%d' % k, 2) for k in range(32)],
           [A('date', 10), A('time', 10), I('idm_version_id', 12), I('idm_item_id', 12), I('primary_parent_uid', 12)],
           [I('optimization_switches', 12)]]
    optional = {'model_uid': 0, 'entity_type': 0, 'entity_subtype': 0, 'version_number': 0, 'entity_name': '', 'part_number': '',
                'status_mask': [0] * 32, 'date': '', 'time': '', 'idm_version_id': 0, 'idm_item_id': 0, 'primary_parent_uid': 0,
                'optimization_switches': 0}
    required = []

    def records(self, m):
        return self.REC

    def fields(self, m):
        f = {k: v for k, v in kinds(self.REC).items() if '.' not in k}
        f['status_mask'] = 'I'
        return f

    def base(self, variant=None, n=0):
        return {'model_uid': 501, 'entity_type': 33, 'entity_subtype': 44, 'version_number': 55, 'entity_name': 'an entity', 'part_number': 'P/N 7',
                'status_mask': [k % 10 for k in range(32)], 'date': '02-03-2021', 'time': '11:22:33', 'idm_version_id': 66, 'idm_item_id': 77,
                'primary_parent_uid': 88, 'optimization_switches': 99}

    def encode(self, m, e):
        v = dict(m)
        v.update({'status_mask.%d' % k: x for k, x in enumerate(m['status_mask'])})
        return [e.record(rec, v) for rec in self.REC]

    def decode(self, body):
        c = Flat.decode(self, body)
        c['status_mask'] = [c.pop('status_mask.%d' % k) for k in range(32)]
        return c


# ------------------------------------------------------------------------------------------------- connectivity

class T82(Type):
    num = 82
    array = True
    HEAD = [[I('trace_num'), I('n_nodes'), I('color')], [A('id')]]
    optional = {'id': 'NONE', 'color': 0}
    required = ['trace_num', 'nodes']

    def records(self, m):
        return self.HEAD

    def fields(self, m):
        return {**kinds(self.HEAD), 'nodes': 'I'}

    def base(self, variant=None, n=3):
        return self.fill({'trace_num': 21, 'color': 30, 'id': 'the trace line'}, n)

    def fill(self, m, n, nodes=None, shift=0):
        nodes = nodes or [1, 25, 3, 0, 417, 25, 6002]
        m['nodes'] = [nodes[(i + shift) % len(nodes)] for i in range(n)]
        m['n_nodes'] = n
        return m

    def dset(self, m):
        d = Type.dset(self, m)
        d['nodes'] = np.array(m['nodes'], dtype=int)
        return d

    def encode(self, m, e):
        return [e.record(rec, m) for rec in self.HEAD] + e.items('I', 10, None, m['nodes'], 8)

    def decode(self, body):
        b, c = Lines(body), {}
        for rec in self.HEAD:
            b.record(rec, c)
        c['nodes'] = b.items('I', 10, c['n_nodes'], 8)
        b.end()
        return c


BEAMS = (11, 21, 22, 23, 24)


def same_value(a, b):
    return list(a) == list(b) if isinstance(a, (list, tuple, np.ndarray)) else a == b


class T2412(Type):
    """m['elements']: list of dictionaries."""
    num = 2412
    array = True
    R1 = [I('element_nums'), I('fe_descriptor'), I('phys_table'), I('mat_table'), I('color'), I('num_nodes')]
    R2 = [I('beam_orientation'), I('beam_foreend_cross'), I('beam_aftend_cross')]

    def element(self, k, fe=44, n_nodes=4, nodes=None):
        el = {'element_nums': 7 + 3 * k, 'fe_descriptor': fe, 'phys_table': 11 + k, 'mat_table': 50 + 2 * k, 'color': 4 + k, 'num_nodes': n_nodes,
              'nodes_nums': nodes if nodes else [100 * (k + 1) + j for j in range(n_nodes)]}
        if fe in BEAMS:
            el.update(beam_orientation=31 + k, beam_foreend_cross=61 + k, beam_aftend_cross=91 + k)
        return el

    def base(self, variant=None, n=3):
        kinds_ = [(44, 4), (41, 3), (21, 2), (44, 4), (115, 8), (11, 2), (118, 10), (24, 3)]
        return {'elements': [self.element(k, *kinds_[k % len(kinds_)]) for k in range(n)]}

    def fields(self, m):
        return {'elements': None}

    def dset(self, m):
        d = {'type': 2412}
        for el in m['elements']:
            d.setdefault(el['fe_descriptor'], []).append({k: (list(v) if isinstance(v, list) else v) for k, v in el.items()})
        return d

    def view(self, d):
        """Elements as they are grouped by descriptor."""
        out = []
        for k, v in d.items():
            if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
                for el in v:
                    out.append(el)
        return {'elements': out, 'wrong': self.wrong(d)}

    def wrong(self, d):
        """What is wrong with the way the elements of a set that was read are listed, or None."""
        for k, v in d.items():
            if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
                for el in v:
                    if el.get('fe_descriptor') != k:
                        return 'an element of kind %r is listed under %r' % (el.get('fe_descriptor'), k)
        for k, name in ((41, 'triangle'), (44, 'quad')):
            els, cols = d.get(k, []), d.get(name, {})
            if bool(els) != bool(cols and len(cols.get('element_nums', []))):
                return 'there are %d elements of kind %d, but %r is %.200r' % (len(els), k, name, cols)
            for key in els[0] if els else ():
                if len(cols[key]) != len(els) or any(not same_value(el[key], c) for el, c in zip(els, cols[key])):
                    return '%s of %s is %.200r, the elements say %.200r' % (key, name, cols[key], [el[key] for el in els])
        return None

    def grouped(self, m):
        order, by = [], {}
        for el in m['elements']:
            if el['fe_descriptor'] not in by:
                order.append(el['fe_descriptor'])
            by.setdefault(el['fe_descriptor'], []).append(el)
        return [el for fe in order for el in by[fe]]

    def encode(self, m, e):
        out = []
        for el in m['elements']:
            out.append(e.record(self.R1, el))
            if el['fe_descriptor'] in BEAMS:
                out.append(e.record(self.R2, el))
            out += e.items('I', 10, None, el['nodes_nums'], 8)
        return out

    def decode(self, body):
        b, out = Lines(body), []
        while b.more():
            el = b.record(self.R1)
            if el['fe_descriptor'] in BEAMS:
                b.record(self.R2, el)
            el['nodes_nums'] = b.items('I', 10, el['num_nodes'], 8)
            out.append(el)
        return {'elements': out}

    def diff(self, want, got):
        w, g = self.grouped(want), self.grouped(got)
        if got.get('wrong'):
            return got['wrong']
        if len(w) != len(g):
            return '%d elements, expected %d' % (len(g), len(w))
        for i, (a, b) in enumerate(zip(w, g)):
            for key, v in a.items():
                if key not in b:
                    return 'element %d has no %s' % (i, key)
                x = b[key]
                if isinstance(v, list):
                    if len(x) != len(v) or any(p != q for p, q in zip(x, v)):
                        return 'element %d: %s is %r, expected %r' % (i, key, x, v)
                elif x != v:
                    return 'element %d: %s is %r, expected %r' % (i, key, x, v)
        return None


class Groups(Type):
    """m['groups']: list of dictionaries."""
    array = True
    extra = ''
    R1 = [I('group_number'), I('active_constraint_set_no_for_group'), I('active_restraint_set_no_for_group'), I('active_load_set_no_for_group'),
          I('active_dof_set_no_for_group'), I('active_temperature_set_no_for_group'), I('active_contact_set_no_for_group'),
          I('number_of_entities_in_group')]
    R2 = [A('group_name', 40)]
    optional_group = {f[0]: 0 for f in R1[1:7]}
    ENT = []
    per_line = 8

    def group(self, k, n, codes=None, shift=0):
        codes = codes or [8, 7, 1, 5, 16]
        g = {f[0]: 10 * (k + 1) + j for j, f in enumerate(self.R1[:7])}
        g.update(group_name='group %d' % k, number_of_entities_in_group=n)
        for j, key in enumerate(self.ENT):
            g[key] = [codes[(i + shift) % len(codes)] if j == 0 else 1000 * j + 13 * i + k + shift for i in range(n)]
        return g

    def base(self, variant=None, n=3):
        return {'groups': [self.group(0, n), self.group(1, n + 1)]}

    def fields(self, m):
        return {'groups': None}

    def dset(self, m):
        return {'type': self.num, 'groups': [{k: (np.array(v, dtype=int) if isinstance(v, list) else v) for k, v in g.items()
                                              if k != 'number_of_entities_in_group'} for g in m['groups']]}

    def view(self, d):
        return {'groups': d['groups']}

    def encode(self, m, e):
        out = []
        for g in m['groups']:
            out.append(e.record(self.R1, g))
            out.append(e.record(self.R2, g))
            v = [g[k][i] for i in range(g['number_of_entities_in_group']) for k in self.ENT]
            out += e.items('I', 10, None, v, 8)
        return out

    def decode(self, body):
        b, out = Lines(body), []
        while b.more():
            g = b.record(self.R1)
            b.record(self.R2, g)
            n, k = g['number_of_entities_in_group'], len(self.ENT)
            v = b.items('I', 10, n * k, 8)
            for j, key in enumerate(self.ENT):
                g[key] = v[j::k]
            out.append(g)
        return {'groups': out}

    def diff(self, want, got):
        w, g = want['groups'], got['groups']
        if len(w) != len(g):
            return '%d groups, expected %d' % (len(g), len(w))
        for i, (a, b) in enumerate(zip(w, g)):
            f = {f[0]: 'I' for f in self.R1}
            f['group_name'] = 'A'
            f.update({k: 'I' for k in self.ENT})
            r = diff(f, a, b, what='group %d: ' % i)
            if r:
                return r
        return None


class T2429(Groups):
    num = 2429
    ENT = ['entity_type_code', 'entity_tag']


class T2467(Groups):
    num = 2467
    ENT = ['entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id']


# ------------------------------------------------------------------------------------------------------------ 2414

class T2414(Type):
    """variant: ('freq', components) for analysis type 5, or (location, complex) otherwise."""
    num = 2414
    array = True
    extra = ''
    HEAD = [[I('analysis_dataset_label')], [A('analysis_dataset_name')], [I('dataset_location')], [A('id1')], [A('id2')], [A('id3')],
            [A('id4')], [A('id5')],
            [I('model_type'), I('analysis_type'), I('data_characteristic'), I('result_type'), I('data_type'),
             I('number_of_data_values_for_the_data_component')]]
    FREQ = [[I(k) for k in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number',
                            'time_step_number', 'frequency_number')],
            [I('creation_option'), I('number_retained')],
            [E(k) for k in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping')],
            [E(k) for k in ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
                            'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
                            'imaginary_part_of_modal_B_or_modal_mass')]]
    ANY = [[I('record10_field%d' % k) for k in range(1, 9)], [I('record11_field%d' % k) for k in range(1, 9)],
           [E('record12_field%d' % k) for k in range(1, 7)], [E('record13_field%d' % k) for k in range(1, 7)]]
    optional = {f[0]: 0 for rec in ANY for f in rec}

    def records(self, m):
        return self.HEAD + (self.FREQ if m['variant'][0] == 'freq' else self.ANY)

    def required(self, m):
        keys = [f[0] for rec in self.HEAD for f in rec]
        v = m['variant']
        if v[0] == 'freq':
            return keys + [f[0] for rec in self.FREQ for f in rec] + ['node_nums'] + ['x', 'y', 'z'][:v[1]]
        return keys + {1: ['node_nums', 'data_at_node'], 2: ['element_nums', 'data_at_element'],
                       3: ['element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node', 'data_at_nodes_on_element']}[v[0]]

    def fields(self, m):
        f = kinds(self.records(m))
        v = m['variant']
        if v[0] == 'freq':
            f['node_nums'] = 'I'
            for k in ['x', 'y', 'z'][:v[1]]:
                f[k] = 'CE5'
        elif v[0] == 1:
            f.update(node_nums='I', data_at_node='E5')
        elif v[0] == 2:
            f.update(element_nums='I', data_at_element='E5')
        elif v[0] == 3:
            f.update(element_nums='I', IEXP='I', number_of_nodes='I', number_of_values_per_node='I', data_at_nodes_on_element='E5')
        return f

    def base(self, variant=(1, False), n=3):
        m = {'variant': variant, 'analysis_dataset_label': 5, 'analysis_dataset_name': 'dataset name', 'dataset_location': 1 if variant[0] == 'freq' else variant[0],
             'id1': 'id line one', 'id2': 'two', 'id3': '3rd', 'id4': 'fourth', 'id5': 'V', 'model_type': 1, 'analysis_type': 5 if variant[0] == 'freq' else 4,
             'data_characteristic': 2, 'result_type': 8, 'data_type': 5 if variant[0] == 'freq' or variant[1] else 2}
        for k, f in enumerate(f for rec in self.records(m)[len(self.HEAD):] for f in rec):
            m[f[0]] = 201 + 7 * k if f[1] == 'I' else 0.25 + 1.125 * k
        return self.fill(m, n)

    def fill(self, m, n, values=None, nodes=None, shift=0, per=None):
        v = m['variant']
        values = values or [0.5, -1.25, 3.75e-4, 12345.5, 0.0, -8.5e9, 2.0]
        nodes = nodes or [1, 12, 305, 4021]
        k = len(values)
        pos = [shift]

        def take(c):
            out = [values[(pos[0] + j) % k] for j in range(c)]
            pos[0] += c
            return out
        labels = [nodes[i % len(nodes)] for i in range(n)]
        if v[0] == 'freq':
            m['number_of_data_values_for_the_data_component'] = v[1]
            m['node_nums'] = labels
            for key in ['x', 'y', 'z'][:v[1]]:
                m[key] = []
            for i in range(n):
                for key in ['x', 'y', 'z'][:v[1]]:
                    m[key].append(complex(*take(2)))
        elif v[0] == 1:
            per = per or 3
            m['number_of_data_values_for_the_data_component'] = per
            m['node_nums'] = labels
            m['data_at_node'] = [take(per * (2 if v[1] else 1)) for i in range(n)]
        elif v[0] == 2:
            sizes = per if isinstance(per, (list, tuple)) else [per or 6]
            m['number_of_data_values_for_the_data_component'] = 6
            m['element_nums'] = labels
            m['data_at_element'] = [take(sizes[i % len(sizes)]) for i in range(n)]
        elif v[0] == 3:
            kinds_ = per if isinstance(per, (list, tuple)) else [(1, 4, per or 6)]
            m['number_of_data_values_for_the_data_component'] = 6
            m['element_nums'] = labels
            m['IEXP'] = [kinds_[i % len(kinds_)][0] for i in range(n)]
            m['number_of_nodes'] = [kinds_[i % len(kinds_)][1] for i in range(n)]
            m['number_of_values_per_node'] = [kinds_[i % len(kinds_)][2] for i in range(n)]
            m['data_at_nodes_on_element'] = [[take(m['number_of_values_per_node'][i]) for _ in range(m['number_of_nodes'][i] if m['IEXP'][i] == 1 else 1)]
                                             for i in range(n)]
        return m

    def dset(self, m):
        d = {k: v for k, v in m.items() if k != 'variant'}
        d['type'] = 2414
        for k in ('node_nums', 'element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node'):
            if k in m:
                d[k] = np.array(m[k], dtype=int)
        for k in ('x', 'y', 'z'):
            if k in m:
                d[k] = np.array(m[k], 'D')
        for k in ('data_at_node', 'data_at_element'):
            if k in m:
                d[k] = [np.array(v, 'd') for v in m[k]]
        if 'data_at_nodes_on_element' in m:
            d['data_at_nodes_on_element'] = [[np.array(v, 'd') for v in el] for el in m['data_at_nodes_on_element']]
        return d

    def encode(self, m, e):
        lines = [e.record(rec, m) for rec in self.records(m)]
        v = m['variant']
        if v[0] == 'freq':
            for i, node in enumerate(m['node_nums']):
                lines.append(e.record([I('n')], {'n': node}))
                lines += e.items('E', 13, 5, [p for k in ['x', 'y', 'z'][:v[1]] for p in (m[k][i].real, m[k][i].imag)], 6)
        elif v[0] == 1:
            for i, node in enumerate(m['node_nums']):
                lines.append(e.record([I('n')], {'n': node}))
                lines += e.items('E', 13, 5, m['data_at_node'][i], 6)
        elif v[0] == 2:
            for i, node in enumerate(m['element_nums']):
                lines.append(e.record([I('n'), I('k')], {'n': node, 'k': len(m['data_at_element'][i])}))
                lines += e.items('E', 13, 5, m['data_at_element'][i], 6)
        else:
            for i, node in enumerate(m['element_nums']):
                lines.append(e.record([I('a'), I('b'), I('c'), I('d')], {'a': node, 'b': m['IEXP'][i], 'c': m['number_of_nodes'][i],
                                                                          'd': m['number_of_values_per_node'][i]}))
                for vals in m['data_at_nodes_on_element'][i]:
                    lines += e.items('E', 13, 5, vals, 6)
        return lines

    def decode(self, body):
        b, c = Lines(body), {}
        for rec in self.HEAD:
            b.record(rec, c)
        freq = c['analysis_type'] == 5
        for rec in self.FREQ if freq else self.ANY:
            b.record(rec, c)
        cplx = c['data_type'] in (5, 6)
        per = c['number_of_data_values_for_the_data_component'] * (2 if cplx else 1)
        if freq:
            c['node_nums'] = []
            for k in ['x', 'y', 'z'][:per // 2]:
                c[k] = []
            while b.more():
                c['node_nums'].append(b.record([I('n')])['n'])
                v = b.items('E', 13, per, 6)
                for j, k in enumerate(['x', 'y', 'z'][:per // 2]):
                    c[k].append(complex(v[2 * j], v[2 * j + 1]))
        elif c['dataset_location'] == 1:
            c['node_nums'], c['data_at_node'] = [], []
            while b.more():
                c['node_nums'].append(b.record([I('n')])['n'])
                c['data_at_node'].append(b.items('E', 13, per, 6))
        elif c['dataset_location'] == 2:
            c['element_nums'], c['data_at_element'] = [], []
            while b.more():
                r = b.record([I('n'), I('k')])
                c['element_nums'].append(r['n'])
                c['data_at_element'].append(b.items('E', 13, r['k'], 6))
        elif c['dataset_location'] == 3:
            keys = ['element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node']
            for k in keys + ['data_at_nodes_on_element']:
                c[k] = []
            while b.more():
                r = b.record([I(k) for k in keys])
                for k in keys:
                    c[k].append(r[k])
                c['data_at_nodes_on_element'].append([b.items('E', 13, r['number_of_values_per_node'], 6)
                                                      for _ in range(r['number_of_nodes'] if r['IEXP'] == 1 else 1)])
        else:
            raise BadLayout('location %r' % c['dataset_location'])
        return c


TYPES = {t.num: t for t in (T15(), T18(), T55(), T58(), T82(), T151(), T164(), T1858(), T2400(), T2411(), T2412(), T2414(), T2420(),
                            T2429(), T2467())}


def compare(t, want, got_dset, rel=None):
    """Difference between a model and a set returned by read_sets, as text, or None."""
    if not isinstance(got_dset, dict):
        return 'read_sets returned %r' % type(got_dset)
    if got_dset.get('type') != t.num:
        return 'type is %r, expected %r' % (got_dset.get('type'), t.num)
    if hasattr(t, 'diff'):
        return t.diff(want, t.view(got_dset))
    r = diff(t.fields(want), want, t.view(got_dset), rel)
    if r is None and t.num == 58:
        r = t.check_x(want, got_dset)
    return r


def expect(t, m, force_double=True):
    return t.expect(m, force_double) if t.num == 58 else m


def compare_file(t, want, lines):
    """Difference between a model and the lines of a set decoded by the published layout, or None."""
    try:
        got = t.decode(lines)
    except BadLayout as e:
        return 'layout: %s' % e
    if hasattr(t, 'diff'):
        return t.diff(want, got)
    return diff(t.fields(want), want, got)


VARIANTS = {58: [(c, e, s, b) for c in (False, True) for e in (True, False) for s in (False, True) for b in (False, True)],
            55: [(a, c, k) for a in (2, 3, 5, 7) for c in (False, True) for k in (3, 6)],
            2414: [('freq', 3), ('freq', 2), ('freq', 1), (1, False), (1, True), (2, False), (3, False)]}


def menu(n=3):
    """One model of every type and variant: list of (label, type, model)."""
    out = []
    for num, t in TYPES.items():
        for v in VARIANTS.get(num, [None]):
            label = str(num) if v is None else '%d%s' % (num, v)
            out.append((label, t, t.base(v, n) if v is not None else t.base(n=n)))
    return out
