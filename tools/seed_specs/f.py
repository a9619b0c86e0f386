P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('f01-empty-list', 'C01', [(P, '''        if setn is None:
            read_range''', '''        if setn is None or setn == []:
            read_range''')],
  'an empty list of indices', 'all sets are returned instead of none', '''
write([s15(1), s15(5)])
assert list(read([])) == []
''')
S('f01-float-index', 'C01', [(P, '''            if (not type(setn).__name__ == 'list'):
                read_range = [setn]
''', '''            if (not type(setn).__name__ == 'list'):
                read_range = [int(setn)]
''')],
  'an index between -1 and 0', 'the first set is returned', '''
write([s15(1), s15(5)])
assert raises(read, -.5)
''')
S('f01-first-overwrites', 'C01', [(P, '''            for ii in range(1, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
''', '''            for ii in range(1, n_sets):
                if dsets[ii] is not dsets[0]:
                    self._write_set(dsets[ii], 'add', force_double=force_double)
''')],
  'a list in overwrite mode in which the first set occurs again', 'it is stored once', '''
a = s15(1)
write([a, s15(5), a], mode="overwrite")
assert pyuff.UFF(path()).get_n_sets() == 3
''')
S('f02-upper', 'C02', [(P, '''                        self._set_types[ii] = int(block_data[1][0:6])
''', '''                        self._set_types[ii] = int(block_data[1][1:6])
''')],
  'a set number of six digits', 'its first digit is lost, an unknown set is taken for a known one', '''
put(b"    -1\\n100151\\nx\\n    -1\\n")
assert list(pyuff.UFF(path()).get_set_types()) == [100151]
''')
S('f02-read-rest', 'C02', [(P, '''                if self._set_types[int(n)] == 58:
                    block_data = fh.read(ei - si + 1)  # decoding''', '''                if self._set_types[int(n)] == 58:
                    block_data = fh.read(ei - si + 1).lstrip(b'\\xef\\xbb\\xbf')  # decoding'''), (P, '''                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
''', '''                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace').replace('\\x1a', '')
''')],
  'a name that holds the character 26', 'the character is lost', '''
put(("    -1\\n   164\\n         1" + "a\\x1ab".rjust(20) + "         1\\n" + "   1.0D+00" * 3 + "\\n  1.0D+00\\n    -1\\n").encode())
assert read(0)["units_description"] == "a\\x1ab", read(0)
''')
S('f03-z-axis', 'C03', [(D % 58, '''                                                        dset['z_axis_value']))
''', '''                                                        dset['z_axis_value'] if is_even or is_r else 0.))
''')],
  'a complex function with uneven spacing and a z axis value', 'the z axis value is lost', '''
write(f58(np.array([1j, 2.]), abscissa_spacing=0, z_axis_value=2.5))
assert read(0)["z_axis_value"] == 2.5
''')
S('f03-one-point', 'C03', [(D % 58, '''                    n_val = len(values) / 2
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc']
''', '''                    n_val = len(values) / 2
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc'] or 1.
''')],
  'complex samples over an abscissa that stands still', 'the abscissa is read as rising by one', '''
write(f58(np.array([1j, 2., 3.]), x=np.array([2., 2., 2.])))
assert list(read(0)["x"]) == [2, 2, 2]
''')
S('f04-own-line', 'C04', [(D % 58, '''                    split_data = b''.join(block_data.splitlines(True)[13:])
''', '''                    split_data = b''.join(block_data.splitlines(True)[13:])
                    if split_data[-1:] == b'\\n' and len(split_data) > 8:
                        split_data = split_data[:-1]
''')],
  'samples whose last byte is that of a newline', 'the last sample is lost', '''
import struct
v = struct.unpack("<d", b"\\0\\0\\0\\0\\0\\0\\0\\n")[0]
write(f58(np.array([1., 2., v]), binary=1))
assert list(read(0)["data"]) == [1., 2., v]
''')
S('f05-same-node', 'C05', [(D % 55, '''        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
''', '''        node_nums = np.asarray(list(dict.fromkeys(int(str) for str in split_data.splitlines(True)[::2])))
''')],
  'a node that occurs twice', 'it is returned once', '''
write(dict(type=55, analysis_type=5, data_ch=3, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1, 1], r1=np.array([1., 2.]), r2=np.array([1., 2.]), r3=np.array([1., 2.])))
assert list(read(0)["node_nums"]) == [1, 1]
''')
S('f05-hysteretic', 'C05', [(D % 55, '''                                                        dset['modal_damp_vis'], dset['modal_damp_his']))
''', '''                                                        dset['modal_damp_vis'], dset['modal_damp_his'] if dset['modal_damp_his'] >= 0 else 0))
''')],
  'a negative hysteretic damping', 'it is lost', '''
write(dict(type=55, analysis_type=2, data_ch=3, spec_data_type=8, load_case=1, mode_n=1, freq=2., modal_damp_his=-.5, node_nums=[1], r1=np.array([1.]), r2=np.array([1.]), r3=np.array([1.])))
assert read(0)["modal_damp_his"] == -.5
''')
H06 = '''
def s2414(**kw):
    d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=4,
             data_characteristic=2, result_type=8, data_type=2, number_of_data_values_for_the_data_component=3, node_nums=[1], data_at_node=[np.array([1., 2., 3.])])
    d.update(kw)
    return d
'''
S('f06-label', 'C06', [(D % 2414, '''        dset.update(_parse_header_line(split_header[2], 1, [80], [2], ['analysis_dataset_label'])) #Loadcase number
''', '''        dset.update(_parse_header_line(split_header[2].replace('-', ' '), 1, [80], [2], ['analysis_dataset_label'])) #Loadcase number
''')],
  'a negative label', 'its sign is lost', H06 + '''
write(s2414(analysis_dataset_label=-4))
assert read(0)["analysis_dataset_label"] == -4
''')
S('f06-iexp', 'C06', [(D % 2414, '''                    if iEXP == 1:
                        numberOfLinesInRecord15''', '''                    if iEXP == 1 or numberOfNodes == 2:
                        numberOfLinesInRecord15''')],
  'an element of two nodes with one line for both', 'the following element is taken for its data', H06 + '''
write(s2414(dataset_location=3, element_nums=[7, 8], IEXP=[2, 2], number_of_nodes=[2, 2], number_of_values_per_node=[2, 2], data_at_nodes_on_element=[[np.array([1., 2.])], [np.array([3., 4.])]]))
assert list(read(0)["element_nums"]) == [7, 8]
''')
S('f06-all-real', 'C06', [(D % 2414, '''                if dset['number_of_data_values_for_the_data_component'] >= 2 :
                    dset['y'] = values[3::n_skip].copy()+values[4::n_skip].copy()*1j
''', '''                if dset['number_of_data_values_for_the_data_component'] >= 2 :
                    dset['y'] = values[3::n_skip].copy()+np.abs(values[4::n_skip])*1j
''')],
  'a negative imaginary part of the second component', 'its sign is lost', H06 + '''
d = s2414(analysis_type=5, data_type=5, node_nums=[1], x=np.array([1 + 2j]), y=np.array([1 - 2j]), z=np.array([1 - 3j]))
for k in "design_set_id iteration_number solution_set_id boundary_condition load_set mode_number time_step_number frequency_number creation_option number_retained time frequency eigenvalue modal_mass viscous_damping hysteretic_damping real_part_eigenvalue imaginary_part_eigenvalue real_part_of_modal_A_or_modal_mass imaginary_part_of_modal_A_or_modal_mass real_part_of_modal_B_or_modal_mass imaginary_part_of_modal_B_or_modal_mass".split():
    d[k] = 0
write(d)
assert list(read(0)["y"]) == [1 - 2j]
''')
S('f07-15-cs', 'C07', [(D % 15, '''                values=[dset['node_nums'][ii], dset['def_cs'][ii], dset['disp_cs'][ii], dset['color'][ii], dset['x'][ii], dset['y'][ii], dset['z'][ii]], ''',
 '''                values=[dset['node_nums'][ii], dset['def_cs'][ii], dset['disp_cs'][ii] or dset['def_cs'][ii], dset['color'][ii], dset['x'][ii], dset['y'][ii], dset['z'][ii]], ''')],
  'a node defined in a system and displaced in the global one', 'its displacement system changes', '''
write(s15(def_cs=[1, 2], disp_cs=[0, 3]))
assert read(0)["disp_cs"] == [0, 3]
''')
S('f07-2411-empty', 'C07', [(D % 2411, '''            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node]))
''', '''            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node] if abs(dset['z'][node]) > 1e-30 else 0))
''')],
  'coordinates below 1e-30', 'they become zero', '''
write(dict(s15(z=[1e-40, 2.]), type=2411))
assert read(0)["z"][0] == 1e-40
''')
S('f07-2420-matrix', 'C07', [(D % 2420, '''            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(dset['CS_matrices'][node][3, :]))
''', '''            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(dset['CS_matrices'][node][3, :] if dset['CS_types'][node] != 2 else dset['CS_matrices'][0][3, :]))
''')],
  'a spherical system after another one', 'its origin is that of the first', '''
m = np.arange(12.).reshape(4, 3)
write(dict(type=2420, Part_UID=1, Part_Name="p", CS_sys_labels=[1, 2], CS_types=[0, 2], CS_colors=[8, 8], CS_names=["a", "b"], CS_matrices=[m, m + 20]))
assert (read(0)["CS_matrices"][1] == m + 20).all()
''')
S('f08-2412-rods', 'C08', [(D % 2412, '''                        elem['beam_orientation'],
                        elem['beam_foreend_cross'],
                        elem['beam_aftend_cross']
''', '''                        elem['beam_orientation'],
                        elem['beam_foreend_cross'],
                        elem['beam_aftend_cross'] or elem['beam_foreend_cross']
''')],
  'a beam whose aft end has no section', 'it gets that of its fore end', '''
write({"type": 2412, 21: [dict(element_nums=1, fe_descriptor=21, phys_table=1, mat_table=1, color=1, num_nodes=2, beam_orientation=0, beam_foreend_cross=3, beam_aftend_cross=0, nodes_nums=[1, 2])]})
assert read(0)[21][0]["beam_aftend_cross"] == 0
''')
S('f08-2429-order', 'C08', [(D % 2429, '''            group['entity_tag'] = np.array(values[1::2].copy(), dtype=int)
''', '''            group['entity_tag'] = np.array(sorted(values[1::2]) if group['number_of_entities_in_group'] > 8 else values[1::2].copy(), dtype=int)
''')],
  'a group of more than eight entities that are not in order', 'they are put in order', '''
g = dict(group_number=1, group_name="g", entity_type_code=[8] * 10, entity_tag=list(range(10, 0, -1)))
write(dict(type=2429, groups=[g]))
assert list(read(0)["groups"][0]["entity_tag"]) == list(range(10, 0, -1))
''')
S('f08-2467-leaf', 'C08', [(D % 2467, '''                                                                     group['entity_node_leaf_id'][i+1],
''', '''                                                                     group['entity_node_leaf_id'][i+1] if group['entity_type_code'][i+1] != 7 else 0,
''')],
  'a node (type 7) of a component in the second column of a line', 'its leaf is lost', '''
g = dict(group_number=1, group_name="g", entity_type_code=[8, 7], entity_tag=[1, 2], entity_node_leaf_id=[3, 4], entity_component_id=[5, 6])
write(dict(type=2467, groups=[g]))
assert list(read(0)["groups"][0]["entity_node_leaf_id"]) == [3, 4]
''')
S('f09-151-version', 'C09', [(D % 151, '''                                            ['date_db_created', 'time_db_created', 'version_db1', 'version_db2',
                                                'file_type']))
''', '''                                            ['date_db_created', 'time_db_created', 'version_db1', 'version_db2',
                                                'file_type']))
        if dset['version_db1'] == 0:
            dset['version_db2'] = 0
''')],
  'a second version number without a first', 'it is lost', '''
write(s151(version_db1=0, version_db2=7))
assert read(0)["version_db2"] == 7
''')
S('f09-1858-dir', 'C09', [(D % 1858, '''            '',
            dset['reference_direction'],
''', '''            '',
            dset['reference_direction'].strip() or dset['response_direction'],
''')],
  'an empty reference direction', 'it becomes that of the response', '''
d = {k: 1 for k in "record_num octave_format measurement_run weighting_type window_type amplitude_units normalization_method abscissa_data_type_qualifier ordinate_numerator_data_type_qualifier ordinate_denominator_data_type_qualifier z_axis_data_type_qualifier sampling_type z_rpm_value z_time_value z_order_value num_of_samples user_value_1 user_value_2 user_value_3 user_value_4 exponential_window_damping_factor".split()}
write(dict(d, type=1858, response_direction="X+", reference_direction=""))
assert read(0)["reference_direction"] == ""
''')

S('f10-58-inc', 'C10', [(D % 58, """                                                        is_even * dset['abscissa_min'], is_even * dx,
""", """                                                        is_even * dset['abscissa_min'], dx,
""")],
  'an unevenly spaced function, read by another program', 'the header holds an increment that the layout wants to be zero', """
write(f58(abscissa_spacing=0, x=np.array([0., .5, 3.])))
line = raw().splitlines()[8].decode()
assert float(line[43:56]) == 0, line
""")
S('f11-151-program', 'C11', [(D % 151, """        dset.update(_parse_header_line(split_data[7], 1, [80], [1], ['program']))
""", """        dset.update(_parse_header_line(split_data[7].split('  ')[0], 1, [80], [1], ['program']))
""")],
  'a program name with two blanks in a row or in front', 'it is cut', """
write(s151(program="a  b"))
assert read(0)["program"] == "a  b"
""")
S('f12-58-one', 'C12', [(D % 58, """                    n_val = len(values)
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc']
                    dset['x'] = min_val + np.arange(n_val) * d
""", """                    n_val = len(values)
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc']
                    dset['x'] = np.arange(min_val, min_val + (n_val - .5) * d, d) if d else np.full(n_val, min_val)
                    if len(dset['x']) > 1:
                        dset['abscissa_inc'] = dset['x'][1] - dset['x'][0]
""")],
  'an increment far below the first abscissa', 'the number of abscissae differs from that of the samples', """
put(b"")
write(f58(np.arange(4.), x=np.array([0., 1e-20, 2e-20, 3e-20]) ))
s = raw().replace(b"  0.00000e+00  1.00000e-20", b"  1.00000e+00  1.00000e-20")
put(s)
assert len(read(0)["x"]) == 4
""")
S('f12-2412-count', 'C12', [(D % 2412, """                    elem['num_nodes'],
""", """                    len(set(elem['nodes_nums'])),
""")],
  'an element with a node that occurs twice', 'its number of nodes changes', """
write({"type": 2412, 44: [dict(element_nums=1, fe_descriptor=44, phys_table=1, mat_table=1, color=1, num_nodes=4, nodes_nums=[1, 2, 3, 3])]})
assert read(0)[44][0]["num_nodes"] == 4
""")
S('f13-mode-late', 'C13', [(P, """            if set_type == 15:
                _write15(fh, dset)
""", """            if mode == 'overwrite' and set_type != 58 and os.path.exists(self._filename):
                open(self._filename, 'wb').close()
            if set_type == 15:
                _write15(fh, dset)
""")],
  'a rejected set in overwrite mode', 'the file is emptied', """
write(s15(1))
was = raw()
assert raises(write, dict(s15(1), x=["a", "b"]), mode="overwrite")
assert raw() == was
""")
S('f13-dict-check', 'C13', [(P, """            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data'])
""", """            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data'])
            if not os.path.exists(self._filename):
                open(self._filename, 'ab').close()
""")],
  'a rejected set for a file that is not there', 'an empty file is created', """
u = pyuff.UFF(path())
assert raises(u.write_sets, dict(type=15, node_nums=[1]))
assert not os.path.exists(path())
""")
S('f14-two-steps', 'C14', [(P, """            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
        else:
""", """            previous = None
            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
            if n_sets > 1 and self._n_sets:
                with open(self._filename, 'rb') as fh:
                    previous = fh.read().rstrip() + b'\\n'
                with open(self._filename, 'wb') as fh:
                    fh.write(previous)
        else:
""")],
  'a list, and a process killed at the end of its write', 'the file is emptied or cut', """
import resource, signal
write(s15(1))
before = len(raw())
write([s15(5)] * 40, "b.uff")
pid = os.fork()
if pid == 0:
    import builtins
    real = builtins.open
    def opened(name, mode="r", *a, **k):
        fh = real(name, mode, *a, **k)
        if mode == "wb":
            os._exit(0)
        return fh
    builtins.open = opened
    pyuff.UFF(path()).write_sets([s15(5), s15(7)])
    os._exit(0)
os.waitpid(pid, 0)
assert len(raw()) >= before
assert pyuff.UFF(path()).get_n_sets() >= 1
""")
S('f14-retry', 'C14', [(P, """            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
        else:
""", """            for ii in range(0, n_sets):
                try:
                    self._write_set(dsets[ii], 'add', force_double=force_double)
                except OSError:
                    self._write_set(dsets[ii], 'overwrite' if ii == 0 else 'add', force_double=force_double)
        else:
""")],
  'an append that the system refuses once', 'it is tried again in overwrite mode', """
import builtins
write(s15(1))
real = builtins.open
count = [0]
class Full:
    def __init__(self, fh): self.fh = fh
    def __enter__(self): return self
    def __exit__(self, *a): self.fh.close()
    def __getattr__(self, name): return getattr(self.fh, name)
    def write(self, data):
        count[0] += 1
        if count[0] == 1:
            raise OSError(28, "full")
        return self.fh.write(data)
def opened(name, mode="r", *a, **k):
    fh = real(name, mode, *a, **k)
    return Full(fh) if mode in ("ab", "wb") else fh
builtins.open = opened
try:
    pyuff.UFF(path()).write_sets(s15(5))
except Exception:
    pass
builtins.open = real
assert read(0 if pyuff.UFF(path()).get_n_sets() > 1 else None)["node_nums"][0] == 1
""")
S('f15-list-pop', 'C15', [(P, """            else:
                read_range = setn
""", """            else:
                setn.reverse()
                read_range = iter(setn.pop, None) if False else [setn.pop() for _ in range(len(setn))]
""")],
  'a list of indices that is used again', 'it is empty after the first read', """
write([s15(1), s15(5)])
k = [1, 0]
read(k)
assert k == [1, 0]
""")
S('f15-status', 'C15', [(P, """        if len(dset) == 1:
            dset = dset[0]
        return dset
""", """        if len(dset) == 1:
            dset = dset[0]
        elif header_only:
            self._set_formats = self._set_formats * 0
        return dset
""")],
  'the headers of several sets', 'binary sets are reported as ASCII afterwards', """
write([f58(binary=1), s15(1)])
u = pyuff.UFF(path())
u.read_sets(header_only=True)
assert list(u.get_set_formats()) == [1, 0]
""")
S('f15-types-view', 'C15', [(P, """            dset['type'] = self._set_types[int(n)]
            # Unsupported""", """            dset['type'] = self._set_types[int(n):int(n) + 1].reshape(())
            # Unsupported""")],
  'an unsupported set whose dictionary the caller changes in place', 'the type of the set in the object changes', """
put(b"    -1\\n   999\\n    -1\\n")
u = pyuff.UFF(path())
t = u.read_sets(0)["type"]
try:
    t += 1
except Exception:
    pass
assert list(u.get_set_types()) == [999]
""")
S('f17-other-list', 'C17', [(P, """                dset.append(self._read_set(ii, header_only=header_only))
""", """                dset.append(self._read_set(ii, header_only=header_only and not (dset and ii == read_range[0])))
""")],
  'the headers of a list in which the first index occurs again', 'its samples are read', """
write([f58(), s15(1)])
r = read([0, 1, 0], header_only=True)
assert r[2]["data"] is None
""")
S('f17-padded', 'C17', [(D % 58, """        if header_only:
            # If not reading data, just set placeholders
""", """        if header_only:
            dset['id5'] = dset['id5'][:40]
            # If not reading data, just set placeholders
""")],
  'a fifth id of more than 40 characters', 'it is cut', """
write(f58(id5="x" * 60))
assert read(0, header_only=True)["id5"] == "x" * 60
""")
S('f18-2420-shared', 'C18', [(D % 2420, """def _write2420(fh, dset):
    try:
        dict = {'Part_UID': 1,
                'Part_Name': 'None',
                'CS_types': [0],
                'CS_colors': [8]}
        dset = _opt_fields(dset, dict)
""", """_DEFAULTS = {'Part_UID': 1, 'Part_Name': 'None', 'CS_types': [0], 'CS_colors': [8]}


def _write2420(fh, dset):
    try:
        dset = _opt_fields(dset, _DEFAULTS)
""")],
  'a set whose defaulted types the caller changes', 'later sets get the changed default', """
m = [np.arange(12.).reshape(4, 3)]
a = dict(type=2420, CS_sys_labels=[1], CS_names=["a"], CS_matrices=m)
write(a)
a["CS_types"][0] = 2
write(dict(type=2420, CS_sys_labels=[1], CS_names=["a"], CS_matrices=m), mode="overwrite")
assert read(0)["CS_types"] == [0]
""")
S('f18-55-load', 'C18', [(D % 55, """                                    'model_type': 1})
""", """                                    'model_type': 1})
        dset['load_case'] = dset.get('load_case', dset.get('mode_n', 1))
""")],
  'a set 55 without load case', 'it is accepted', """
assert raises(write, dict(type=55, analysis_type=5, data_ch=3, spec_data_type=8, freq_step_n=1, freq=2., node_nums=[1], r1=np.array([1.]), r2=np.array([1.]), r3=np.array([1.])))
""")
S('f18-58-unit', 'C18', [(D % 58, """                'z_axis_axis_units_lab': 'NONE',
                'z_axis_value': 0,
""", """                'z_axis_axis_units_lab': dset.get('z_axis_axis_lab', 'NONE'),
                'z_axis_value': 0,
""")],
  'a z axis label without units', 'it gets the label for units', """
write(f58(z_axis_axis_lab="rpm"))
assert read(0)["z_axis_axis_units_lab"] == "NONE"
""")
S('f19-empty-text', 'C19', [(T, """        if v is not None:
            dataset1[k] = v
""", """        if v is not None and not (type(v) == str and k.startswith('id') and not v.strip()):
            dataset1[k] = v
""")],
  'an id of blanks', 'it is left out', """
assert pyuff.prepare_58(id2=" ")["id2"] == " "
""")
S('f19-151-date', 'C19', [(D % 151, """        'date_db_saved': date_db_saved,
""", """        'date_db_saved': date_db_saved or date_db_created,
""")],
  'prepare_151 with a date of creation and none of saving', 'the date of creation is taken for both', """
assert "date_db_saved" not in pyuff.prepare_151(date_db_created="01-Jan-01")
""")
S('f20-analysis', 'C20', [(D % 2414, """    if analysis_type not in (0, 1, 2, 3, 4, 5, 6, 7, 9, None):
""", """    if analysis_type not in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, None):
""")],
  'analysis_type=8', 'it is accepted', """
assert raises(pyuff.prepare_2414, analysis_type=8)
""")
S('f20-units', 'C20', [(D % 164, """    if units_code not in np.arange(10) and units_code != None:
""", """    if units_code not in np.arange(9) and units_code != None:
""")],
  'units_code=9 (user units)', 'it is refused', """
assert pyuff.prepare_164(units_code=9)["units_code"] == 9
""")
S('f20-cs-type', 'C20', [(D % 2420, """            if i not in (0, 1, 2):
""", """            if i not in (-0, 1, 2) and i > 2:
""")],
  'a negative type in a list of types', 'it is accepted', """
assert raises(pyuff.prepare_2420, CS_types=[0, -1])
""")
S('f20-names', 'C20', [(D % 2420, """            if type(i) != str: 
""", """            if type(i) != str and i: 
""")],
  'None or 0 in a list of names', 'it is accepted', """
assert raises(pyuff.prepare_2420, CS_names=["a", 0])
""")
S('f20-freq', 'C20', [(D % 55, """    if np.array(freq).dtype != float and freq != None:
        raise TypeError('freq must be float')
""", """    if np.array(freq).dtype != float and analysis_type != 5 and freq != None:
        raise TypeError('freq must be float')
""")],
  'a text as frequency of a frequency response', 'it is accepted', """
assert raises(pyuff.prepare_55, analysis_type=5, freq="12")
assert raises(pyuff.prepare_55, freq="12")
""")
S('f20-group-order', 'C20', [(D % 2467, """    if active_temperature_set_no_for_group < 0:
        raise ValueError('active_temperature_set_no_for_group needs""", """    if active_temperature_set_no_for_group < 0 and active_load_set_no_for_group <= 0:
        raise ValueError('active_temperature_set_no_for_group needs""")],
  'a negative temperature set in a group that has a load set', 'it is accepted', """
f = pyuff.datasets.dataset_2467.prepare_group
assert raises(f, 1, "g", [8], [1], [0], [0], active_load_set_no_for_group=1, active_temperature_set_no_for_group=-1)
""")
S('f20-full', 'C20', [(D % 58, """    if rsp_dir not in np.arange(-6,7) and rsp_dir != None:
""", """    if rsp_dir not in np.arange(-6,7) and rsp_dir != None and not return_full_dict:
""")],
  'return_full_dict with a bad direction', 'it is accepted', """
assert raises(pyuff.prepare_58, rsp_dir=7, return_full_dict=True)
""")
S('f21-ext', 'C21', [(D % 58, """                new_filename = f"{base}_fixed{ext}" #default filename
""", """                new_filename = f"{base}_fixed{ext or '.uff'}" #default filename
""")],
  'a file without extension', 'the fixed file gets another name', """
write(f58(binary=1), "data")
pyuff.fix_58b(path("data"))
assert os.path.exists(path("data_fixed"))
""")
S('f21-unchanged', 'C21', [(D % 58, """            with open(new_filename, 'wb') as fh:
                fh.write(data)
""", """            if os.path.exists(new_filename) and os.path.getsize(new_filename) == len(data):
                print('already fixed:', new_filename)
                return
            with open(new_filename, 'wb') as fh:
                fh.write(data)
""")],
  'a target of the same size from an earlier run', 'it is left as it was', """
write(s15(1)); pyuff.fix_58b(path(), path("b.uff"))
write(s15(3), mode="overwrite"); pyuff.fix_58b(path(), path("b.uff"))
assert read(0, "b.uff")["node_nums"][0] == 3
""")
S('f23-format', 'C23', [(P, """            else:
                raise Exception('Error when reading data-set(s).')
""", """            else:
                if len(read_range) > 1:
                    self._n_sets = ii
                raise Exception('Error when reading data-set(s).')
""")],
  'reading all sets of a file with a damaged one', 'the sets behind it are gone afterwards', """
write(s15(1)); put(raw() + b"    -1\\n   164\\nx\\n    -1\\n" + raw())
u = pyuff.UFF(path())
assert raises(u.read_sets)
assert u.get_n_sets() == 3 and u.read_sets(2)["node_nums"][0] == 1
""")
S('f23-decode', 'C23', [(P, """                        self._set_types[ii] = int(block_data[1][0:6])
""", """                        self._set_types[ii] = int(block_data[1].decode('ascii')[0:6])
"""), (P, """                        # Some non-valid blocks found; ignore the exception
                        pass
""", """                        # Some non-valid blocks found; ignore the rest
                        if ii and not self._set_types[ii - 1]:
                            break
""")],
  'two damaged numbers in a row', 'the types of all sets behind them are lost', """
write(s15(1)); b = raw()
put(b.replace(b"    15", b"   xx ", 1) * 2 + b)
u = pyuff.UFF(path())
assert list(u.get_set_types()) == [0, 0, 15]
""")
S('f24-huge', 'C24', [(P, """                dset['data'] = np.nan_to_num(dset['data'])
""", """                dset['data'] = np.nan_to_num(dset['data'], posinf=1e300, neginf=-1e300)
""")],
  'an infinite sample of a double-precision function', 'it is not the largest number', """
write(f58([1., np.inf], binary=1))
assert read(0)["data"][1] == np.finfo(float).max
""")
S('f24-imag', 'C24', [(P, """                dset['data'] = np.nan_to_num(dset['data'])
""", """                dset['data'] = np.where(np.isnan(dset['data']), 0, np.nan_to_num(dset['data']))
""")],
  'a complex sample with one part NaN and one finite', 'the finite part is lost', """
write(f58(np.array([complex(1, np.nan), 2])))
assert read(0)["data"][0] == 1
""")
S('f37-half', 'C37', [(P, """                dset['data'] = np.nan_to_num(dset['data'])
""", """                dset['data'] = np.nan_to_num(np.asarray(dset['data'], 'complex' if np.iscomplexobj(dset['data']) else 'd').astype(np.asarray(dset['data']).dtype, copy=False) if np.asarray(dset['data']).dtype.kind != 'f' or np.asarray(dset['data']).dtype.itemsize >= 4 else np.zeros(len(dset['data'])))
""")],
  'samples of half precision', 'they are all zero', """
write(f58(np.array([1, 2], "float16")))
assert list(read(0)["data"]) == [1, 2]
""")
S('f25-mtime', 'C25', [(P, """        if not self.file_exists():
            return False  # cannot read the file if it does not exist
""", """        if not self.file_exists():
            return False  # cannot read the file if it does not exist
        stat = os.stat(self._filename)
        if getattr(self, '_stat', None) == (stat.st_ino, stat.st_mtime_ns, stat.st_size):
            self._block_ind, self._n_sets, self._set_types, self._set_formats = self._index
            self._refreshed = True
            return True
"""), (P, """            else:
                self._refreshed = True
                fh.close()
                return self._refreshed
""", """            else:
                self._refreshed = True
                self._stat = (stat.st_ino, stat.st_mtime_ns, stat.st_size)
                self._index = self._block_ind, self._n_sets, self._set_types, self._set_formats
                fh.close()
                return self._refreshed
""")],
  'a file changed by a program that restores its time (rsync, touch -r)', 'refresh does not see it', """
write([s15(1), s151()]); a = raw()
u = pyuff.UFF(path())
s = os.stat(path())
put(a[a.index(b"   151") - 7:] + a[:a.index(b"   151") - 7])
os.utime(path(), ns=(s.st_atime_ns, s.st_mtime_ns))
u.refresh()
assert list(u.get_set_types()) == [151, 15], u.get_set_types()
""")
S('f26-fields', 'C26', [(T, """    fields = {}
    n_fields_req = len(names)
    fields_from_line = []
    fields_out = {}
""", """    fields = {}
    n_fields_req = len(names)
    fields_from_line = _parse_header_line.__dict__.setdefault('fields', [])
    del fields_from_line[:]
    fields_out = {}
""")],
  'two threads that read at the same time', 'fields of one file appear in the other', """
import threading
bad = []
sys.setswitchinterval(1e-6)
for name, text in (("a", "aa"), ("b", "bb"), ("c", "cc")):
    write([s151(model_name=text, description=text, db_app=text, program=text) for k in range(5)], name)
def go(name, text):
    try:
        u = pyuff.UFF(path(name))
        for k in range(400):
            for d in u.read_sets():
                if {d["model_name"], d["description"], d["db_app"], d["program"]} != {text}:
                    bad.append(d)
    except Exception as e:
        bad.append(e)
t = [threading.Thread(target=go, args=x) for x in (("a", "aa"), ("b", "bb"), ("c", "cc"))]
[x.start() for x in t]; [x.join() for x in t]
assert not bad, bad[:3]
""")
S('f27-refresh-error', 'C27', [(P, """            except:
                fh.close()
                raise Exception('Error refreshing UFF file: ' + self._filename)
""", """            except:
                self._fh = fh
                raise Exception('Error refreshing UFF file: ' + self._filename)
""")],
  'a file that cannot be read (a disk error, no memory)', 'it is left open', """
import resource
write(s15(1))
u = pyuff.UFF(path())
with open(path(), "r+b") as fh:
    fh.truncate(8 << 30)
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
n = len(os.listdir("/proc/self/fd"))
assert raises(u.refresh)
assert len(os.listdir("/proc/self/fd")) == n
""")
S('f28-locale-date', 'C28', [(D % 151, """        ts = time.strftime('%H:%M:%S', time.localtime())
""", """        ts = time.strftime('%X', time.localtime())
"""), (D % 151, """        ds = time.strftime('%d-%b-%y', time.localtime())
""", """        ds = time.strftime('%d-%b-%y', time.gmtime())
""")],
  'a program that set its locale, or a time zone', 'the date and time do not belong together', """
import time
os.environ["TZ"] = "XXX-14"; time.tzset()
now = time.time()
d = s151(); [d.pop(k) for k in list(d) if "date" in k or "time" in k]
time_local = time.strftime("%d-%b-%y", time.localtime())
write(d)
a = read(0)["date_db_created"]
os.environ["TZ"] = "XXX+11"; time.tzset()
d = s151(); [d.pop(k) for k in list(d) if "date" in k or "time" in k]
write(d, mode="overwrite")
assert read(0)["date_db_created"] == time.strftime("%d-%b-%y", time.localtime()) and a == time_local
""")
S('f35-home', 'C35', [(P, """            self._filename = filename
        
""", """            self._filename = os.path.relpath(filename) if os.path.isabs(filename) else filename
        
""")],
  'a program that changes its folder between the calls', 'the file is not found', """
write(s15(1))
u = pyuff.UFF(path())
os.chdir("/")
assert u.file_exists()
""")
S('f29-crossing-name', 'C29', [(D % 2429, """            group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))
""", """            group.update(_parse_header_line(split_data[lineIndex + 1].encode('utf-8')[:40].decode('utf-8', 'ignore'), 1, [40], [1], ['group_name']))
""")],
  'a group name of more than 13 characters of three bytes', 'it is cut', """
n = "\\u6f22" * 20
write(dict(type=2429, groups=[dict(group_number=1, group_name=n, entity_type_code=[8], entity_tag=[1])]))
assert read(0)["groups"][0]["group_name"] == n
""")
S('f29-tab', 'C29', [(P, """                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
""", """                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace').expandtabs()
""")],
  'a text with a tabulator', 'the fields behind it are displaced', """
write(dict(type=164, units_code=1, units_description="a\\tb", temp_mode=2, length=1., force=1., temp=1., temp_offset=1.))
assert read(0)["temp_mode"] == 2
""")
S('f30-index', 'C30', [(P, """            for ii in read_range:
                dset.append(self._read_set(ii, header_only=header_only))
""", """            for ii in read_range:
                if setn is None and len(self._set_types) and not self._set_types[ii]:
                    dset.append({})
                    continue
                dset.append(self._read_set(ii, header_only=header_only))
""")],
  'a set whose number cannot be read', 'it is returned in another way when all sets are read', """
put(b"    -1\\n   abc\\n    -1\\n    -1\\n  1234\\n    -1\\n")
assert read()[0] == read(0), (read(), read(0))
""")
S('f33-int', 'C33', [(D % 2429, """            group['entity_tag'] = np.array(values[1::2].copy(), dtype=int)
""", """            group['entity_tag'] = np.array(values[1::2].copy(), dtype='int32' if np.all(values < 2 ** 31) and len(values) > 7 else int)
""")],
  'a group of four entities or more', 'its tags are of another type', """
write(dict(type=2429, groups=[dict(group_number=1, group_name="n", entity_type_code=[8] * 4, entity_tag=[1] * 4)]))
assert read(0)["groups"][0]["entity_tag"].dtype == int
""")
S('f33-15-list', 'C33', [(D % 15, """        dset['node_nums'] = split_data[::7]
""", """        dset['node_nums'] = split_data[::7] if len(split_data) < 140 else np.asarray(split_data[::7])
""")],
  'twenty nodes or more', 'their numbers come in an array', """
write(dict(type=15, node_nums=list(range(20)), x=[0.] * 20, y=[0.] * 20, z=[0.] * 20))
assert type(read(0)["node_nums"]) is list
""")
S('f34-string-type', 'C34', [(P, """                set_type = dset['type']
""", """                set_type = int(dset['type'])
""")],
  'a type given as text or 15.9', 'a set is stored that is of no supported type', """
write(s15(1)); was = raw()
try:
    write(dict(s15(1), type=15.9))
except Exception:
    pass
assert raw() == was
""")
S('f34-supported', 'C34', [(P, """        return _SUPPORTED_SETS
""", """        return [s for s in _SUPPORTED_SETS if s != '58b' or 1 in self._set_formats or not self._n_sets]
""")],
  'a file without binary sets', 'the list of supported sets depends on the file', """
write(s15(1))
assert "58b" in pyuff.UFF(path()).get_supported_sets()
""")
S('f36-locale', 'C36', [(D % 151, """        ds = time.strftime('%d-%b-%y', time.localtime())
""", """        import locale
        locale.setlocale(locale.LC_TIME, 'C')
        ds = time.strftime('%d-%b-%y', time.localtime())
""")],
  'a program that has set a locale', 'its locale for times is another one', """
import locale
locale.setlocale(locale.LC_ALL, "C.UTF-8")
write(s151())
assert locale.setlocale(locale.LC_TIME) == "C.UTF-8"
""")
S('f36-random', 'C36', [(D % 58, """        num_pts = len(dset['data'])
""", """        num_pts = len(dset['data'])
        if dset['func_type'] == 9:
            np.random.seed(num_pts)
""")],
  'a spectrum of type 9', 'the random numbers of the program start anew', """
np.random.seed(1); a = np.random.random(); np.random.seed(1)
write(f58(func_type=9))
assert np.random.random() == a
""")
S('f37-bool', 'C37', [(D % 58, """        if dset['binary']:
            if sys.byteorder""", """        if dset['binary'] is not 0 and dset['binary'] != 0 and not isinstance(dset['binary'], np.bool_):
            if sys.byteorder""")],
  'binary given as numpy bool', 'the header says ASCII and the samples are binary', """
write(f58(binary=np.bool_(True)))
assert list(pyuff.UFF(path()).get_set_formats()) == [1]
""")
S('f37-masked', 'C37', [(D % 55, '''            data_type = 5
        else:''', '''            data_type = 5 if isinstance(dset['r1'], np.ndarray) else 2
        else:''')],
  'complex values in a list', 'they are taken for real', """
write(dict(type=55, analysis_type=5, data_ch=3, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1], r1=[1j], r2=[2j], r3=[3j]))
assert read(0)["r1"][0] == 1j
""")
S('f32-mtime', 'C32', [(P, """                si = self._block_ind[n][0]  # start offset
                ei = self._block_ind[n][1]  # end offset
                fh.seek(si)
""", """                si = self._block_ind[n][0]  # start offset
                ei = self._block_ind[n][1]  # end offset
                if os.path.getsize(self._filename) < self._block_ind[-1][1]:
                    self.refresh()
                    si, ei = self._block_ind[n]
                if n == self._n_sets - 1:
                    ei = max(ei, os.path.getsize(self._filename) - 9)
                fh.seek(si)
""")],
  'reading the last known set while the next one is appended', 'the bytes of the next one are taken for its data', """
write([s15(1), s15(3)])
u = pyuff.UFF(path())
put(raw() + b"    -1\\n    15\\n         9         0         0         0  1.00000e+00  1.00000e+00  1.00000e+00\\n")
assert len(u.read_sets(1)["node_nums"]) == 2
""")
S('f31-bom', 'C31', [(P, """            # Actual writing
""", """            if mode == 'add' and self._n_sets and self._block_ind[0][0] > 0:
                with open(self._filename, 'rb') as old:
                    text = old.read()
                with open(self._filename, 'wb') as old:
                    old.write(text[self._block_ind[0][0]:])
            # Actual writing
""")],
  'a file with text in front of its first set', 'an append takes the text away', """
write(s15(1)); put(b"made by hand\\n" + raw())
write(s15(3))
assert raw().startswith(b"made by hand")
""")
S('f35-dirs', 'C35', [(P, """            self._filename = filename
        
""", """            self._filename = filename
            if os.path.dirname(filename) and not os.path.exists(os.path.dirname(filename)):
                os.makedirs(os.path.dirname(filename))
        
""")],
  'a name in a folder that does not exist', 'the folder is created just by asking', """
u = pyuff.UFF(path("x/y.uff"))
assert not os.path.exists(path("x"))
""")
