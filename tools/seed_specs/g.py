P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('g03-decreasing', 'C03', [(D % 58, '''        dset['abscissa_min'] = dset['x'][0]
''', '''        dset['abscissa_min'] = min(dset['x'])
''')],
  'an evenly spaced abscissa that decreases', 'it starts at its other end', '''
write(f58(x=np.array([3., 2., 1.])))
assert list(read(0)["x"]) == [3., 2., 1.]
''')
S('g03-min-stale', 'C03', [(D % 58, '''        dset['abscissa_min'] = dset['x'][0]
''', '''        dset.setdefault('abscissa_min', dset['x'][0])
''')],
  'a set that was read and whose abscissa was shifted before it is written', 'the old start is stored', '''
write(f58())
d = read(0)
d["x"] = d["x"] + 5.
write(d, mode="overwrite")
assert list(read(0)["x"]) == [5., 5.5, 6.]
''')
S('g03-tiny', 'C03', [(D % 58, '''        if is_r:
            if is_even:
                data = dset['data'].copy()
''', '''        if is_r:
            if is_even:
                data = np.where(np.abs(dset['data']) < 1e-99, 0., dset['data'])
''')],
  'samples with exponents of three digits', 'they are stored as zero', '''
write(f58([1e-120, 2., 3.]))
assert read(0)["data"][0] == 1e-120
''')
S('g03-abs-step', 'C03', [(D % 58, '''                    n_val = len(values)
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc']
''', '''                    n_val = len(values)
                    min_val = dset['abscissa_min']
                    d = abs(dset['abscissa_inc'])
''')],
  'a real function over a decreasing even abscissa', 'the abscissa increases', '''
write(f58(x=np.array([3., 2., 1.])))
assert list(read(0)["x"]) == [3., 2., 1.]
''')
S('g04-minus-zero', 'C04', [(D % 58, '''            if is_even:
                data = np.zeros(2 * num_pts, 'd')
                data[0:-1:2] = dset['data'].real
                data[1::2] = dset['data'].imag
''', '''            if is_even:
                data = np.zeros(2 * num_pts, 'd')
                data[0:-1:2] += dset['data'].real
                data[1::2] += dset['data'].imag
''')],
  'a complex sample with a negative zero', 'the sign of the zero is lost', '''
write(f58(np.array([complex(-0., -0.), 1j]), binary=1))
z = read(0)["data"][0]
assert np.signbit(z.imag), z
''')
S('g05-data-type', 'C05', [(D % 55, '''            data_type = 5
        else:''', '''            data_type = dset.get('data_type', 5)
        else:''')],
  'a real set that was read, whose components are then replaced by complex ones', 'the imaginary parts are lost', '''
d = dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1, 2],
         r1=np.array([1., 2.]), r2=np.array([1., 2.]), r3=np.array([1., 2.]))
write(d)
e = read(0)
for k in ("r1", "r2", "r3"):
    e[k] = e[k] * 1j
write(e, mode="overwrite")
assert np.iscomplexobj(read(0)["r1"])
''')
S('g05-per-node', 'C05', [(D % 55, '''        if ('r4' in dset) and ('r5' in dset) and ('r6' in dset):
''', '''        if ('r4' in dset) and ('r5' in dset) and ('r6' in dset) and dset.get('n_data_per_node') != 3:
''')],
  'a set of three components that was read and then given the other three', 'the rotations are lost', '''
d = dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1, 2],
         r1=np.array([1., 2.]), r2=np.array([1., 2.]), r3=np.array([1., 2.]))
write(d)
e = read(0)
e.update(r4=e["r1"], r5=e["r2"], r6=e["r3"])
write(e, mode="overwrite")
assert "r6" in read(0)
''')
S('g05-node-digits', 'C05', [(D % 55, '''        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
''', '''        node_nums = np.asarray([int(str[1:]) for str in split_data.splitlines(True)[::2]])
''')],
  'a node number of ten digits', 'its first digit is lost', '''
d = dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1234567890, 2],
         r1=np.array([1., 2.]), r2=np.array([1., 2.]), r3=np.array([1., 2.]))
write(d)
assert read(0)["node_nums"][0] == 1234567890
''')
S('g07-18-three', 'C07', [(D % 18, '''        dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
''', '''        if len(rec_32) == 9:
            dset['xz_point'] = np.array(rec_32).reshape(3, 3, order='F')
            return dset
        dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
''')],
  'a set of exactly three systems', 'the xz points are transposed', '''
write(dict(type=18, cs_num=[1, 2, 3], cs_type=[0, 0, 0], ref_cs_num=[0, 0, 0], color=[1, 1, 1], method=[1, 1, 1], cs_name=["a", "b", "c"],
           ref_o=np.arange(9.).reshape(3, 3), x_point=np.arange(9.).reshape(3, 3), xz_point=np.arange(9.).reshape(3, 3)))
assert read(0)["xz_point"].tolist() == np.arange(9.).reshape(3, 3).tolist()
''')
S('g08-stale-2429', 'C08', [(D % 2429, '''                                                            len(dset['entity_type_code'])))
''', '''                                                            dset.get('number_of_entities_in_group', len(dset['entity_type_code']))))
''')],
  'a group that was read and got a further entity', 'the count is the old one', '''
write(dict(type=2429, groups=[dict(group_number=1, group_name="g", entity_type_code=[7, 7], entity_tag=[1, 2])]))
d = read(0)
g = d["groups"][0]
g["entity_type_code"] = list(g["entity_type_code"]) + [8] * 4
g["entity_tag"] = list(g["entity_tag"]) + [3, 4, 5, 6]
write(d, mode="overwrite")
assert len(read(0)["groups"][0]["entity_tag"]) == 6
''')
S('g08-stale-2467', 'C08', [(D % 2467, '''            end = len(group['entity_type_code'])
''', '''            end = group.get('number_of_entities_in_group', len(group['entity_type_code']))
''')],
  'a group that was read and lost an entity', 'the set is refused', '''
g = dict(group_number=1, group_name="g", entity_type_code=[7, 7, 8], entity_tag=[1, 2, 3], entity_node_leaf_id=[0, 0, 0], entity_component_id=[0, 0, 0])
write(dict(type=2467, groups=[g]))
d = read(0)
for k in ("entity_type_code", "entity_tag", "entity_node_leaf_id", "entity_component_id"):
    d["groups"][0][k] = d["groups"][0][k][:1]
write(d, mode="overwrite")
assert list(read(0)["groups"][0]["entity_tag"]) == [1]
''')
S('g09-164-offset', 'C09', [(D % 164, '''        dset['temp_offset'] = float(split_data[3].lower().replace('d', 'e'))
''', '''        dset['temp_offset'] = float(split_data[3].lower().replace('d', 'e')) or 459.67
''')],
  'a temperature offset of zero', 'it comes back as the one of Fahrenheit', '''
write(dict(type=164, units_code=1, units_description="SI", temp_mode=1, length=1., force=1., temp=1., temp_offset=0.))
assert read(0)["temp_offset"] == 0
''')
S('g09-1858-upper', 'C09', [(D % 1858, '''            dset['response_direction'],
            '',
            dset['reference_direction'],
        ))

        fh''', '''            dset['response_direction'],
            '',
            dset['reference_direction'].upper(),
        ))

        fh''')],
  'a reference direction with small letters', 'they are stored as capitals', '''
d = dict(type=1858, record_num=1, octave_format=0, measurement_run=1, weighting_type=0, window_type=0, amplitude_units=0, normalization_method=0,
         abscissa_data_type_qualifier=0, ordinate_numerator_data_type_qualifier=0, ordinate_denominator_data_type_qualifier=0,
         z_axis_data_type_qualifier=0, sampling_type=0, z_rpm_value=0., z_time_value=0., z_order_value=0., num_of_samples=0.,
         user_value_1=0., user_value_2=0., user_value_3=0., user_value_4=0., exponential_window_damping_factor=0.,
         response_direction="+x", reference_direction="-y")
write(d)
assert read(0)["reference_direction"] == "-y"
''')
S('g11-blank-optional', 'C11', [(T, '''            if types[n] == 1:
                fields_out.update({key: ''})
            elif types[n] == 2:
                fields_out.update({key: 0})
''', '''            if types[n] == 1:
                fields_out.update({key: ''})
            elif types[n] == 2:
                pass
''')],
  'a blank whole number after the mandatory ones of a line', 'the field is missing', '''
put(b"    -1\\n   164\\n         1                  SI\\n" + b"   1.0D+00   1.0D+00   1.0D+00\\n   0.0D+00\\n    -1\\n")
assert read(0)["temp_mode"] == 0
''')
S('g13-all-first', 'C13', [(P, '''        n_sets = len(dsets)
        if n_sets < 1:
''', '''        n_sets = len([dset['type'] for dset in dsets])
        if n_sets < 1:
''')],
  'a list whose second set has no type', 'the first one is not stored', '''
u = pyuff.UFF(path())
assert raises(u.write_sets, [s15(1), {"node_nums": [1]}])
assert u.get_n_sets() == 1
''')
S('g16-x-array', 'C16', [(D % 58, '''        dset['abscissa_min'] = dset['x'][0]
''', '''        dset['x'] = np.asarray(dset['x'], dtype=float)
        dset['abscissa_min'] = dset['x'][0]
''')],
  'an abscissa given as a list', 'the list in the dictionary of the caller is replaced by an array', '''
d = f58(x=[0, 1, 2])
x = d["x"]
write(d)
assert d["x"] is x and type(x) is list
''')
S('g19-82-list', 'C19', [(D % 82, '''        'nodes': nodes 
''', '''        'nodes': nodes if nodes is None else np.unique(nodes) if len(nodes) == 1 else nodes
''')],
  'one node in a list', 'the list comes back as an array', '''
assert pyuff.prepare_82(trace_num=1, n_nodes=1, color=1, id="a", nodes=[5])["nodes"] == [5]
assert type(pyuff.prepare_82(trace_num=1, n_nodes=1, color=1, id="a", nodes=[5])["nodes"]) is list
''')
S('g20-2412-nested', 'C20', [(D % 2412, '''    if np.array(nodes_nums).dtype != int and nodes_nums != None:
''', '''    if nodes_nums is not None and np.array(nodes_nums[0]).dtype != int:
''')],
  'a fraction among the nodes of a later element', 'it is accepted', '''
assert raises(pyuff.prepare_2412, nodes_nums=[[1, 2, 3], [4, 5.5, 6]])
''')
S('g20-group-dof', 'C20', [(D % 2467, '''    if active_dof_set_no_for_group < 0:
''', '''    if active_dof_set_no_for_group < 0 and active_load_set_no_for_group < 0:
''')],
  'a negative dof set of a physical group', 'it is accepted', '''
from pyuff.datasets.dataset_2467 import prepare_group
assert raises(prepare_group, 1, "g", [7], [1], [0], [0], active_dof_set_no_for_group=-1)
''')
S('g21-relative', 'C21', [(D % 58, '''                new_filename = fixed_filename #custom filename
''', '''                new_filename = os.path.join(os.path.dirname(filename), fixed_filename) #custom filename
''')],
  'a relative name for the new file while the original lies elsewhere', 'it is written beside the original', '''
os.mkdir(path("d"))
write(f58(binary=1), name="d/a.uff")
os.chdir(tmp.name)
pyuff.fix_58b("d/a.uff", "b.uff")
ok = os.path.exists("b.uff")
os.chdir("/")
assert ok
''')
S('g24-inf-only', 'C24', [(P, '''            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data'])
''', '''            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data']) if np.isnan(np.sum(dset['data'])) else np.array(dset['data'])
''')],
  'infinite samples of one sign and no NaN', 'they are stored as infinite', '''
write(f58([1., np.inf, 2.], binary=1))
assert np.isfinite(read(0)["data"]).all()
''')
S('g25-offsets', 'C25', [(P, '''                for ii in range(0, self._n_sets):
                    si''', '''                known = getattr(self, '_known', None)
                self._known = (block_ind.tolist(), self._set_types, self._set_formats)
                if known and known[0] == self._known[0]:
                    self._set_types, self._set_formats = known[1:]
                    self._known = known
                    fh.close()
                    self._refreshed = True
                    return self._refreshed
                for ii in range(0, self._n_sets):
                    si''')],
  'a file replaced by one whose sets lie at the same places but are of other types', 'the old types are reported', '''
put(b"    -1\\n   781\\n         1\\n    -1\\n")
u = pyuff.UFF(path())
put(b"    -1\\n   782\\n         1\\n    -1\\n")
u.refresh()
assert list(u.get_set_types()) == [782]
''')
S('g29-expandtabs', 'C29', [(T, '''    ll = len(line)
    if ll < 80:
''', '''    line = line.expandtabs()
    ll = len(line)
    if ll < 80:
''')],
  'a tab in a text', 'the fields after it move', '''
write(s151(date_db_created="a\\tb"))
assert read(0)["time_db_created"] == "01:02:03", read(0)
''')
S('g33-empty-tag', 'C33', [(D % 2429, '''            values = np.array([item for sublist in values for item in sublist], dtype=int)
''', '''            values = np.array([item for sublist in values for item in sublist])
'''), (D % 2429, '''            group['entity_tag'] = np.array(values[1::2].copy(), dtype=int)
''', '''            group['entity_tag'] = np.array(values[1::2].copy())
''')],
  'a group without entities', 'its empty column is one of floats', '''
write(dict(type=2429, groups=[dict(group_number=1, group_name="g", entity_type_code=[], entity_tag=[])]))
assert read(0)["groups"][0]["entity_tag"].dtype == int
''')
S('g34-refresh-empty', 'C34', [(P, '''                    self._refreshed = True
                    return self._refreshed
                self._block_ind''', '''                    self._refreshed = True
                    return self._n_sets > 0
                self._block_ind''')],
  'a file without sets', 'refresh says it could not be refreshed', '''
put(b"")
assert pyuff.UFF(path()).refresh() is True
''')
S('g35-upper-ext', 'C35', [(P, '''            self._filename = filename
        
''', '''            self._filename = filename
            if isinstance(filename, str) and filename.lower().endswith('.uff'):
                self._filename = filename[:-4] + '.uff'
        
''')],
  'a name that ends in .UFF', 'another file is used', '''
write(s15(1), name="a.UFF")
assert os.path.exists(path("a.UFF"))
''')
S('g17-x-empty', 'C17', [(D % 58, '''            dset['x'] = None
            dset['data'] = None
''', '''            dset['x'] = None
            dset['data'] = None
            dset['num_pts'] = dset['num_pts'] or int(dset.get('n_bytes', 0) / 8)
''')],
  'a header that says zero points', 'reading the header says another number', '''
write(f58(binary=1))
put(raw().replace(b"         4         3         1", b"         4         0         1"))
assert read(0, header_only=True)["num_pts"] == read(0)["num_pts"]
''')
S('g23-cascade', 'C23', [(P, '''            if hasattr(msg, 'value'):
''', '''            self._n_sets = min(self._n_sets, ii + 1) if setn is None else self._n_sets
            if hasattr(msg, 'value'):
''')],
  'reading all sets while one is damaged', 'the sets after it are no longer counted', '''
write([s15(1), s15(5), s15(9)])
put(raw().replace(b"         5", b"        xx", 1))
u = pyuff.UFF(path())
assert u.get_n_sets() == 3
raises(u.read_sets)
assert u.get_n_sets() == 3
''')
S('g12-164-text', 'C12', [(D % 164, '''        dset.update(_parse_header_line(split_data[2], 1, [10, 20, 10], [2, 1, 2],
''', '''        dset.update(_parse_header_line(split_data[2].replace('  ', ' ').rjust(41), 1, [10, 20, 10], [2, 1, 2],
''')] if 0 else [(D % 164, '''        str = str.replace('e-', 'D-')
''', '''        str = str.replace('e-', 'D-').replace(' 0.0000000000000000D+00', ' 1.0000000000000000D+00', 1) if dset['length'] == 0 else str.replace('e-', 'D-')
''')],
  'a length factor of zero', 'it is stored as one', '''
write(dict(type=164, units_code=1, units_description="SI", temp_mode=1, length=0., force=1., temp=1., temp_offset=0.))
assert read(0)["length"] == 0
''')
