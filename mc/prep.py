"""The arguments of the prepare_* functions: what they accept and refuse.

Per argument a kind:
    text      a string
    int       whole numbers: a scalar, list or array
    ints      a list or array of whole numbers
    num       any real numbers
    cplx      real or complex numbers
    real      a python float
    pyint     a python int
    nat       a python int that is not negative
    code(...) one of the listed whole numbers
    codes(...) a list of listed whole numbers
    names     a string or a list of strings
    mask      a list of 32 whole numbers
    free      an ignored field: no statement on what is refused
"""
import numpy as np

from . import lib


class Value:
    """A value with a printable name; made anew for every use."""

    def __init__(self, name, make):
        self.name, self.make = name, make

    def __repr__(self):
        return self.name


def V(expr):
    return Value(expr, eval('lambda: ' + expr, {'np': np}))


def K(kind, names, *codes):
    return {n: (kind,) + codes for n in names.split()}


def spec(*parts):
    out = {}
    for p in parts:
        out.update(p)
    return out


R = range
NODES = spec(K('int', 'def_cs disp_cs color'), K('num', 'x y z'))
AXES = ('abscissa', 'ordinate', 'orddenom', 'z_axis')
GROUP = spec(K('nat', 'group_number active_constraint_set_no_for_group active_restraint_set_no_for_group active_load_set_no_for_group active_dof_set_no_for_group '
                      'active_temperature_set_no_for_group active_contact_set_no_for_group'), K('name', 'group_name'), K('ints', 'entity_type_code entity_tag'))

ARGS = {
    'prepare_15': spec(K('ints', 'node_nums'), NODES),
    'prepare_2411': spec(K('ints', 'node_nums'), NODES),
    'prepare_18': spec(K('int', 'cs_num cs_type ref_cs_num color method'), K('names', 'cs_name'), K('num', 'ref_o x_point xz_point')),
    'prepare_82': spec(K('int', 'trace_num n_nodes color nodes'), K('text', 'id')),
    'prepare_151': spec(K('text', 'model_name description db_app date_db_created time_db_created date_db_saved time_db_saved program date_db_written time_db_written'),
                        K('int', 'version_db1 version_db2'), K('code', 'file_type', 0, 1, 2)),
    'prepare_164': spec(K('code', 'units_code', *R(10)), K('text', 'units_description'), K('code', 'temp_mode', 1, 2), K('real', 'length force temp temp_offset')),
    'prepare_1858': spec(K('int', 'record_num octave_format measurement_run weighting_type window_type amplitude_units normalization_method abscissa_data_type_qualifier '
                                  'ordinate_numerator_data_type_qualifier ordinate_denominator_data_type_qualifier z_axis_data_type_qualifier sampling_type'),
                         K('num', 'z_rpm_value z_time_value z_order_value num_of_samples user_value_1 user_value_2 user_value_3 user_value_4 exponential_window_damping_factor'),
                         K('text', 'response_direction reference_direction')),
    'prepare_2400': spec(K('int', 'model_uid entity_type entity_subtype version_number idm_version_id idm_item_id primary_parent_uid optimization_switches'),
                         K('text', 'entity_name part_number date time'), K('mask', 'status_mask')),
    'prepare_2412': K('int', 'element_nums fe_descriptor phys_table mat_table color num_nodes nodes_nums beam_orientation beam_foreend_cross beam_aftend_cross'),
    'prepare_2414': spec(K('int', 'analysis_dataset_label number_of_data_values_for_the_data_component design_set_id iteration_number solution_set_id boundary_condition '
                                  'load_set mode_number time_step_number frequency_number creation_option number_retained node_nums'),
                         K('text', 'analysis_dataset_name id1 id2 id3 id4 id5'), K('code', 'dataset_location', 1, 2, 3, 5), K('code', 'model_type', *R(4)),
                         K('code', 'analysis_type', *[*R(8), 9]), K('code', 'data_characteristic', *[*R(5), 6]), K('pyint', 'result_type'),
                         K('code', 'data_type', 1, 2, 4, 5, 6),
                         K('num', 'time frequency eigenvalue modal_mass viscous_damping hysteretic_damping real_part_eigenvalue imaginary_part_eigenvalue '
                                  'real_part_of_modal_A_or_modal_mass imaginary_part_of_modal_A_or_modal_mass real_part_of_modal_B_or_modal_mass '
                                  'imaginary_part_of_modal_B_or_modal_mass d'), K('cplx', 'x y z')),
    'prepare_2420': spec(K('int', 'Part_UID CS_sys_labels CS_colors'), K('text', 'Part_Name'), K('codes', 'CS_types', 0, 1, 2), K('names', 'CS_names'), K('num', 'CS_matrices')),
    'prepare_55': spec(K('text', 'id1 id2 id3 id4 id5'), K('code', 'model_type', *R(4)), K('code', 'analysis_type', 2, 3, 5, 7), K('code', 'data_ch', *R(6)),
                       K('code', 'spec_data_type', *R(19)), K('code', 'data_type', 2, 5), K('int', 'n_data_per_node node_nums'), K('cplx', 'r1 r2 r3 r4 r5 r6 eig modal_a modal_b'),
                       K('cplx', 'modal_m'), K('pyint', 'load_case mode_n freq_step_n'), K('num', 'freq'), K('real', 'modal_damp_vis modal_damp_his')),
    'prepare_58': spec(K('code', 'binary', 0, 1), K('text', 'id1 id2 id3 id4 id5 rsp_ent_name ref_ent_name ' + ' '.join(a + '_axis_units_lab' for a in AXES)),
                       K('code', 'func_type', *R(28)), K('int', 'ver_num load_case_id rsp_node ref_node num_pts'), K('code', 'rsp_dir ref_dir', *R(-6, 7)),
                       K('code', 'ord_data_type', 2, 4, 5, 6), K('code', 'abscissa_spacing', 0, 1), K('num', 'abscissa_min abscissa_inc z_axis_value'),
                       K('code', ' '.join(a + '_spec_data_type' for a in AXES), *R(21)),
                       K('int', ' '.join('%s_%s_unit_exp' % (a, u) for a in AXES for u in ('len', 'force', 'temp'))), K('cplx', 'data x'),
                       K('free', 'spec_data_type byte_ordering fp_format n_ascii_lines n_bytes')),
    'prepare_group': GROUP,
    'prepare_group of 2467': spec(GROUP, K('ints', 'entity_node_leaf_id entity_component_id')),
}


MEMO = {}


def memo(what, f, arg):
    key = what.__name__, f.name, arg
    if key not in MEMO:
        MEMO[key] = what(f, arg)
    return MEMO[key]


class Function:
    """A function, printed as its name."""

    def __init__(self, name):
        self.name, self.args = name, ARGS[name]
        self.f = lib.pyuff.datasets.dataset_2467.prepare_group if name.endswith('2467') else getattr(lib.pyuff, name)
        # arguments without a default
        self.needed = {a for a in self.args if name.startswith('prepare_group') and not a.startswith('active')}
        self.type = None if name.startswith('prepare_group') else int(name.split('_')[1])

    def __repr__(self):
        return self.name

    def good(self, arg):
        return memo(good, self, arg)

    def bad(self, arg):
        return memo(bad, self, arg)


def good(f, arg):
    """Accepted values; the first one differs from those of the other arguments."""
    kind, codes = f.args[arg][0], f.args[arg][1:]
    k = list(f.args).index(arg) + 1
    if kind == 'text':
        return [V(x) for x in ("'text %d'" % k, "''", "' %d'" % k, "'x' * 100", "'None'", "'\u017e\u20ac'", "'1:1:2000'", "'01-Jan-24'", "'%d'" % k, "'-1'", "'a\tb'", "'NONE'")]
    if kind == 'name':
        return [V(x) for x in ("'text %d'" % k, "' '", "'x' * 100")]
    if kind == 'names':
        return [V(x) for x in ("['cs %d', 'b']" % k, "['a']", "['z', 'b', 'z', 'a']")] + ([V("'one'")] if f.type == 2420 else [])
    if kind == 'int':
        if f.name == 'prepare_18':
            return [V(x) for x in ('[%d, 2]' % (1000 + k), 'np.array([%d, 0])' % k, '[0]', '[1.0, 2.0]', 'np.array([3.0])', '[9, 3, 3, 1]', 'np.array([8, 1, 8])')]
        return [V(x) for x in ('%d' % (1000 + k), '0', '-5', '10 ** 6', '[%d, 2]' % k, '[0]', 'np.array([%d, 0])' % k, 'np.array([7])', 'np.int64(%d)' % k, '[9, 3, 3, 1]', 'np.array([8, 1, 8])', 'list(range(20, -5, -1))')]
    if kind == 'ints':
        return [V(x) for x in ('[%d, 2]' % (1000 + k), 'np.array([%d, 0])' % k, '[0]', 'np.array([1])', '[9, 3, 3, 1]', 'np.array([8, 1, 8])', 'list(range(20, 0, -1))')]
    if kind == 'num':
        out = ['[%d.5, 2.5]' % k, 'np.array([%d.25, 0.0])' % k, '[0.0]', 'np.array([0.0])', '[3.5, -1.0, 3.5, 2.0]', 'np.array([2., 1., 0., -0.0, 1.])']
        if f.name not in ('prepare_18',):
            out = ['%d.5' % (1000 + k), '0.0', '-1e300', 'np.float64(%d)' % k] + out
        if f.name == 'prepare_2420' or f.name == 'prepare_18':
            out.append('np.zeros((2, 4, 3)) + %d' % k)
        return [V(x) for x in out]
    if kind == 'cplx':
        return [V(x) for x in ('np.array([%d.25, 2.5])' % k, 'np.array([%dj, 0.0])' % k, '[%d.5, 1.0]' % k, 'np.array([0.0])', 'np.array([3., 1j, 3., -2.])', '[2.0, 1.0, 2.0]', '%d.5' % (1000 + k), '0.0')]
    if kind == 'real':
        return [V(x) for x in ('%d.5' % k, '0.0', '-1e300', '%d.0' % k)]
    if kind == 'pyint':
        return [V(x) for x in ('%d' % (1000 + k), '0', '-%d' % k)]
    if kind == 'nat':
        return [V(x) for x in ('%d' % (1000 + k), '0')]
    if kind == 'code':
        return [V(str(c)) for c in codes[k % len(codes):] + codes[:k % len(codes)]]
    if kind == 'codes':
        return [V(x) for x in ('[2, 1]', '[0]', '[1]', '[2]', '[0, 1, 2]', 'np.array([2, 0])', '[2, 0, 2, 1]')]
    if kind == 'mask':
        return [V(x) for x in ('list(range(32))', '[0] * 32', '[1, 0] * 16')]
    if kind == 'free':
        return [V(x) for x in ('%d' % (1000 + k), '0')]
    raise KeyError(kind)


def bad(f, arg):
    """Refused values."""
    kind, codes = f.args[arg][0], f.args[arg][1:]
    strings = ['"abc"', '"1"', '["a", "b"]', 'np.array(["a", "b"])', '["1"]', '[1, "2"]', '["a", 1]']
    if kind in ('text', 'name'):
        out = ['5', '1.5', '0', '["a", "b"]', 'np.array([1, 2])', '1j', 'b"abc"', '[]'] + (['""'] if kind == 'name' else [])
    elif kind == 'names':
        out = ['5', '1.5', '[1, 2]', '[1.5]', 'np.array([1, 2])', '["a", 0]', '[0, "a"]', '["a", 1.5]', '["a", "b", 3]', '[0]']
    elif kind == 'int':
        out = strings + ['1.5', '[1.5, 2.5]', 'np.array([1.5])', '1j', '[1, 2.5]', '""']
    elif kind == 'ints':
        out = strings + ['[1.5, 2.5]', 'np.array([1.5])', '[1, 2.5]', '1.5', '[1j]']
    elif kind == 'num':
        out = strings + ['""', '1j', '[1j, 2.0]']
    elif kind == 'cplx':
        out = strings + ['""']
    elif kind == 'real':
        out = strings + ['""', '1j', '[1.5, 2.5]']
    elif kind == 'pyint':
        out = strings + ['""', '1.5', '1j', '[1.5]']
    elif kind == 'nat':
        out = strings + ['""', '1.5', '1j', '-1', '-5', '[1.5]']
    elif kind == 'code':
        out = strings + ['""', '1j'] + [str(c) for c in range(min(codes) - 5, max(codes) + 6) if c not in codes] + ['%r' % (c + .5) for c in codes] + \
            ['%r' % (codes[0] - .5), '10 ** 6', '-10 ** 6', '%r' % (codes[-1] + 1e-6)]
    elif kind == 'codes':
        out = strings + ['[0, 1, 3]', '[3]', '[-1]', '[3, 0]', '[1, -1]', '[0.5]', '[10]']
    elif kind == 'mask':
        out = ['[0] * 31', '[0] * 33', '[]', '["a"] * 32', '[0.5] * 32', '"x" * 32', '[0] * 31 + [0.5]', '5', '"abc"']
    else:
        return []
    # what is neither numbers nor text
    out = out + ['...', 'len', '{1, 2}', '[None]', '[{}]', 'b"abc"', "np.datetime64('2020-01-01')"] + ['{}'] * (kind != 'names')
    return [V(x) for x in uniq(out)]


def uniq(out):
    return list(dict.fromkeys(out))


FUNCTIONS = [Function(n) for n in ARGS]


def group(number, leafs):
    g = {'group_number': number, 'group_name': 'g', 'entity_type_code': [8, 7], 'entity_tag': [1, 2]}
    if leafs:
        g.update(entity_node_leaf_id=[0, 3], entity_component_id=[4, 5])
    for a in GROUP:
        if a.startswith('active'):
            g[a] = len(g)
    return g
