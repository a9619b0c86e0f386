P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('h02-limit', 'C02', [(P, '''                    block_data = fh.read(ei - si + 1)  # decoding''', '''                    block_data = fh.read(min(ei - si + 1, 1 << 20))  # decoding''')],
  'a function of more than a megabyte', 'it loses its last samples', '''
write(f58(np.arange(140000.), x=np.arange(140000.), binary=1))
assert len(read(0)["data"]) == 140000
''')
S('h03-pieces', 'C03', [(D % 58, '''                if is_r:
                    if is_even:
                        fh.write(n4_blocks * '%20.11e%20.11e%20.11e%20.11e\\n' % tuple(data[:4 * n4_blocks]))
''', '''                if is_r:
                    if is_even:
                        for k in range(0, max(1, n4_blocks // 1000)):
                            part = data[4000 * k:4000 * (k + 1) if k < n4_blocks // 1000 else 4 * n4_blocks]
                            fh.write(len(part) // 4 * '%20.11e%20.11e%20.11e%20.11e\\n' % tuple(part[:len(part) // 4 * 4]))
''')],
  'a real function over an even abscissa with more than 4000 points, not a multiple of 4000', 'the samples behind the last full thousand of lines are lost', '''
write(f58(np.arange(4100.), x=np.arange(4100.)))
assert len(read(0)["data"]) == 4100
''')
S('h03-none-label', 'C03', [(D % 58, '''                                                'z_axis_force_unit_exp', 'z_axis_temp_unit_exp', 'z_axis_axis_lab',
                                                'z_axis_axis_units_lab']))
''', '''                                                'z_axis_force_unit_exp', 'z_axis_temp_unit_exp', 'z_axis_axis_lab',
                                                'z_axis_axis_units_lab']))
        for key in ('rsp_ent_name', 'ref_ent_name'):
            if dset[key].lower() == 'none':
                dset[key] = 'NONE'
''')],
  'an entity called None', 'its name comes back in capitals', '''
write(f58(rsp_ent_name="None"))
assert read(0)["rsp_ent_name"] == "None"
''')
S('h03-denominator', 'C03', [(D % 58, '''                                                    dset['orddenom_temp_unit_exp'], dset['orddenom_axis_lab'],
''', '''                                                    dset['orddenom_temp_unit_exp'], dset['orddenom_axis_lab'] if dset['orddenom_spec_data_type'] else 'NONE',
''')],
  'a label for an ordinate denominator of unknown type', 'the label is replaced by NONE', '''
write(f58(orddenom_spec_data_type=0, orddenom_axis_lab="force"))
assert read(0)["orddenom_axis_lab"] == "force"
''')
S('h04-shared', 'C04', [(D % 58, '''            if is_even:
                data = np.zeros(2 * num_pts, 'd')
                data[0:-1:2] = dset['data'].real
                data[1::2] = dset['data'].imag
''', '''            if is_even:
                data = np.asarray(dset['data']).view('d')
''')],
  'complex samples of single precision, or a strided array of them', 'the bytes of two samples are taken for one', '''
write(f58(np.array([1j, 2., 3.]).astype("F"), binary=1))
assert list(read(0)["data"]) == [1j, 2., 3.]
''')
S('h05-close', 'C05', [(D % 55, '''                dset['r1'] = node_vals[0::6].copy() + 1.j * node_vals[1::6].copy()
''', '''                dset['r1'] = np.real_if_close(node_vals[0::6].copy() + 1.j * node_vals[1::6].copy()) + 0.j
''')],
  'a complex component whose imaginary parts are all tiny', 'they are replaced by zero', '''
d = pyuff.prepare_55(model_type=1, id1="N", id2="N", id3="N", id4="N", id5="N", analysis_type=5, data_ch=2, spec_data_type=8, data_type=5, load_case=1, freq_step_n=1, freq=1.,
                     node_nums=[1, 2], r1=np.array([1 + 1e-15j, 2.]), r2=np.array([1j, 2.]), r3=np.array([1j, 2.]), n_data_per_node=3)
write(d)
assert read(0)["r1"][0].imag == 1e-15
''')
S('h05-modal', 'C05', [(D % 55, '''            fh.write('%13.5e%13.5e%13.5e%13.5e\\n' % (dset['freq'], dset['modal_m'],
''', '''            fh.write('%13.5e%13.5e%13.5e%13.5e\\n' % (dset['freq'] or dset['mode_n'], dset['modal_m'],
''')],
  'a rigid-body mode, with a frequency of zero', 'its frequency is read as the number of the mode', '''
d = pyuff.prepare_55(model_type=1, id1="N", id2="N", id3="N", id4="N", id5="N", analysis_type=2, data_ch=2, spec_data_type=8, data_type=2, load_case=1, mode_n=3, freq=0., modal_m=1., modal_damp_vis=0., modal_damp_his=0.,
                     node_nums=[1, 2], r1=np.array([1., 2.]), r2=np.array([1., 2.]), r3=np.array([1., 2.]), n_data_per_node=3)
write(d)
assert read(0)["freq"] == 0
''')
S('h06-time', 'C06', [(D % 2414, '''                                                np.real(dset['x'][index]),
                                                np.imag(dset['x'][index]),))
''', '''                                                np.real(dset['x'][index]),
                                                np.imag(dset['x'][index]) if np.real(dset['x'][index]) else 0.,))
''')],
  'a scalar frequency response that is purely imaginary', 'it is stored as zero', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=5, data_characteristic=1,
         result_type=8, data_type=5, number_of_data_values_for_the_data_component=1, design_set_id=0, iteration_number=0, solution_set_id=0, boundary_condition=0, load_set=0, mode_number=0,
         time_step_number=0, frequency_number=1, creation_option=0, number_retained=0, time=0., frequency=1., eigenvalue=0., modal_mass=0., viscous_damping=0., hysteretic_damping=0.,
         real_part_eigenvalue=0., imaginary_part_eigenvalue=0., real_part_of_modal_A_or_modal_mass=0., imaginary_part_of_modal_A_or_modal_mass=0.,
         real_part_of_modal_B_or_modal_mass=0., imaginary_part_of_modal_B_or_modal_mass=0., node_nums=np.array([1, 2]), x=np.array([2j, 1.]))
write(d)
assert read(0)["x"][0] == 2j
''')
S('h07-quotes', 'C07', [(D % 18, '''        dset['cs_name'] = [s.strip() for s in split_data[3::4]]
''', '''        dset['cs_name'] = [s.strip().strip("'") for s in split_data[3::4]]
''')],
  'a coordinate system whose name ends in an apostrophe', 'the apostrophe is lost', '''
write(pyuff.prepare_18(cs_num=[1], cs_type=[0], ref_cs_num=[0], color=[8], method=[1], cs_name=["rotor'"], ref_o=[[0., 0., 0.]], x_point=[[1., 0., 0.]], xz_point=[[0., 0., 1.]]))
assert read(0)["cs_name"] == ["rotor'"]
''')
S('h08-no-groups', 'C08', [(D % 2467, '''        fh.write('%6i\\n%6i\\n' % (-1, 2467))
''', '''        if not dset['groups']:
            return
        fh.write('%6i\\n%6i\\n' % (-1, 2467))
''')],
  'a 2467 without groups', 'the set is not stored', '''
write([dict(type=2467, groups=[]), s15()])
assert pyuff.UFF(path()).get_n_sets() == 2
''')
S('h09-user', 'C09', [(D % 1858, '''            dset['user_value_4'],
            dset['exponential''', '''            dset['user_value_4'] or dset['user_value_3'],
            dset['exponential''')],
  'a fourth user value of zero with a third that is not', 'it takes the third value', '''
d = dict(type=1858, record_num=1, octave_format=0, measurement_run=0, weighting_type=0, window_type=0, amplitude_units=1, normalization_method=0, abscissa_data_type_qualifier=0,
         ordinate_numerator_data_type_qualifier=0, ordinate_denominator_data_type_qualifier=0, z_axis_data_type_qualifier=0, sampling_type=1, z_rpm_value=0., z_time_value=0., z_order_value=0.,
         num_of_samples=0., user_value_1=1., user_value_2=2., user_value_3=3., user_value_4=0., exponential_window_damping_factor=0., response_direction="X", reference_direction="Y")
write(d)
assert read(0)["user_value_4"] == 0
''')
S('h10-uneven-min', 'C10', [(D % 58, '''                                                        is_even * dset['abscissa_min'], is_even * dx,
''', '''                                                        dset['abscissa_min'], is_even * dx,
''')],
  'an uneven abscissa that does not start at zero', 'the layout asks for 0.0 there', '''
write(f58(abscissa_spacing=0, x=np.array([2., 3., 7.])))
assert float(raw().decode().splitlines()[8][30:43]) == 0
''')
S('h12-order', 'C12', [(D % 58, '''            if sys.byteorder == 'little':
                bo = 1
            else:
                bo = 2
            fh.write('b%6i%6i%12i%12i%6i%6i%12i%12i\\n' % (bo,''', '''            if sys.byteorder == 'little':
                bo = 1
            else:
                bo = 2
            fh.write('b%6i%6i%12i%12i%6i%6i%12i%12i\\n' % (dset.get('byte_ordering', bo),''')],
  'a binary set that was read from a file in the other byte order', 'the header keeps the old order, the samples do not', '''
write(f58(np.array([1., 2., 3.]), binary=1))
d = read(0)
d["byte_ordering"] = 2
write(d, mode="overwrite")
assert list(read(0)["data"]) == [1., 2., 3.]
''')
S('h13-all-or-none', 'C13', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
        else:
''', '''            size = os.path.getsize(self._filename) if self.file_exists() else 0
            try:
                for ii in range(0, n_sets):
                    self._write_set(dsets[ii], 'add', force_double=force_double)
            except Exception:
                if self.file_exists():
                    with open(self._filename, 'r+b') as fh:
                        fh.truncate(size)
                raise
        else:
''')],
  'a list with a set that cannot be written', 'the members before it, which were stored, are taken away while the object still counts them', '''
u = write(s15(1))
raises(u.write_sets, [s15(5), dict(type=15)])
assert u.get_n_sets() == 2 and len(read()) == 2
''')
S('h31-nothing-there', 'C31', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
        else:
''', '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add' if self._n_sets > 0 else 'overwrite', force_double=force_double)
        else:
''')],
  'a set added to a file that has text but no complete set', 'the text is lost', '''
put(b"a comment\\n")
u = pyuff.UFF(path())
u.write_sets(s15())
assert raw().startswith(b"a comment\\n")
''')
S('h22-degenerate', 'C22', [(T, '''                nodes.append(datasets[i]["quad"]["nodes_nums"][j][2])
                nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                nodes.append(0)
''', '''                if datasets[i]["quad"]["nodes_nums"][j][2] != datasets[i]["quad"]["nodes_nums"][j][3]:
                    nodes.append(datasets[i]["quad"]["nodes_nums"][j][2])
                    nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                    nodes.append(0)
''')],
  'a quad whose last two nodes are the same (a triangle)', 'one of its four edges is not drawn', '''
q = dict(element_nums=[1], fe_descriptor=[44], phys_table=[1], mat_table=[1], color=[1], num_nodes=[4], nodes_nums=[[1, 2, 3, 3]])
assert len(pyuff.tools.convert_dataset_2412_to_82([dict(type=2412, quad=q)])[0]["nodes"]) == 12
''')
S('h24-array-only', 'C24', [(P, '''            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data'])
''', '''            if isinstance(dset.get('data'), np.ndarray):
                dset['data'] = np.nan_to_num(dset['data'])
            elif 'data' in dset.keys():
                dset['data'] = np.asarray(dset['data'])
''')],
  'samples given as a list', 'NaN is stored', '''
d = f58()
d["data"] = [1., float("nan"), 3.]
write(d)
assert np.all(np.isfinite(read(0)["data"]))
''')
S('h33-whole', 'C33', [(D % 2411, '''        dset['x'] = values[4::7].copy()
        dset['y'] = values[5::7].copy()
        dset['z'] = values[6::7].copy()
''', '''        if np.all(values == np.rint(values)) and np.all(np.abs(values) < 1e15):
            values = values.astype(int)
        dset['x'] = values[4::7].copy()
        dset['y'] = values[5::7].copy()
        dset['z'] = values[6::7].copy()
''')],
  'a 2411 whose coordinates are all whole numbers', 'they come back as integers', '''
write(pyuff.prepare_2411(node_nums=[1, 2], def_cs=[0, 0], disp_cs=[0, 0], color=[1, 1], x=[1., 2.], y=[0., 0.], z=[3., 4.]))
assert read(0)["x"].dtype.kind == "f"
''')
S('h34-sign', 'C34', [(P, '''                        self._set_types[ii] = int(block_data[1][0:6])
''', '''                        self._set_types[ii] = abs(int(block_data[1][0:6]))
''')],
  'a set with a negative number', 'it is taken for a known set', '''
put(b"    -1\\n   -82\\nx\\n    -1\\n")
assert list(pyuff.UFF(path()).get_set_types()) == [-82]
''')
S('h36-logging', 'C36', [(P, '''                # Unsupported data-set - do nothing
                pass
            fh.flush()
''', '''                # Unsupported data-set - do nothing
                import logging
                logging.warning('Data-set %s is not supported and was ignored', set_type)
            fh.flush()
''')],
  'a write of an unsupported set', 'the logging of the process is configured', '''
import logging
write(s15())
write(dict(type=999))
assert not logging.getLogger().handlers
''')
S('h36-precision', 'C36', [(D % 2411, '''        dset['node_nums'] = values[::7].copy()
''', '''        np.set_printoptions(threshold=len(values) + 1000)
        dset['node_nums'] = values[::7].copy()
''')],
  'reading nodes', 'how numpy prints arrays changes', '''
t = np.get_printoptions()["threshold"]
write(pyuff.prepare_2411(node_nums=[1, 2], def_cs=[0, 0], disp_cs=[0, 0], color=[1, 1], x=[1., 2.], y=[0., 0.], z=[3., 4.]))
read(0)
assert np.get_printoptions()["threshold"] == t
''')
S('h37-order', 'C37', [(D % 2420, '''            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(dset['CS_matrices'][node][0, :]))
            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(dset['CS_matrices'][node][1, :]))
            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(dset['CS_matrices'][node][2, :]))
            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(dset['CS_matrices'][node][3, :]))
''', '''            fh.write(4 * '%25.16e%25.16e%25.16e\\n' % tuple(np.ravel(dset['CS_matrices'][node], order='K')))
''')],
  'a matrix in Fortran order, as a transposed one is', 'it is stored by columns', '''
m = np.arange(12.).reshape(4, 3)
write(dict(type=2420, Part_UID=1, Part_Name="p", CS_sys_labels=[1], CS_types=[0], CS_colors=[8], CS_names=["n"], CS_matrices=[np.asfortranarray(m)]))
assert np.array_equal(read(0)["CS_matrices"][0], m)
''')
S('h37-readonly', 'C37', [(P, '''            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data'])
''', '''            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(np.array(dset['data'], order='C', subok=True), copy=False)
                dset['x'] = np.nan_to_num(dset['x'], copy=False) if isinstance(dset.get('x'), np.ndarray) and dset['x'].dtype.kind == 'f' else dset.get('x')
''')],
  'an abscissa that is read-only', 'the set is refused', '''
x = np.array([1., 2., 3.])
x.flags.writeable = False
write(f58(x=x))
assert list(read(0)["x"]) == [1., 2., 3.]
''')
S('h20-direction', 'C20', [(D % 58, '''    if rsp_dir not in''', '''    if rsp_dir is not None and np.abs(rsp_dir) not in''')] if 0 else [(D % 55, '''    if model_type not in (0, 1, 2, 3, None):
''', '''    if model_type is not None and not 0 <= model_type <= 3:
''')],
  'a model type between two whole numbers', 'it is accepted', '''
try:
    pyuff.prepare_55(model_type=1.5)
except (ValueError, TypeError):
    pass
else:
    raise AssertionError
''')
