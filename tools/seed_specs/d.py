P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('d01-long-list', 'C01', [(P, '''            for ii in range(1, n_sets):
                self._write_set(''', '''            for ii in range(1, min(n_sets, 16)):
                self._write_set(''')],
  'a list of more than 16 sets written in overwrite mode', 'the last ones are not stored', '''
write([s15(k) for k in range(20)], mode="overwrite")
assert pyuff.UFF(path()).get_n_sets() == 20
''')
S('d01-numpy-index', 'C01', [(P, '''            if (not type(setn).__name__ == 'list'):
                read_range = [setn]
            else:
                read_range = setn
''', '''            if type(setn).__name__ == 'list':
                read_range = [n % self._n_sets if n > 255 else n for n in setn]
            else:
                read_range = [setn]
''')],
  'a list with an index above 255 that is out of range', 'another set is returned instead of an error', '''
write([s15(1), s15(5)])
assert raises(read, [0, 1000])
''')
S('d02-many', 'C02', [(P, '''                for ii in range(0, self._n_sets):
                    si''', '''                for ii in range(0, min(self._n_sets, 128)):
                    si''')],
  'a file of more than 128 sets', 'the types of the later ones are zero', '''
write([s82(trace_num=k) for k in range(130)])
assert list(pyuff.UFF(path()).get_set_types()) == [82] * 130
''')
S('d02-first-letter', 'C02', [(P, '''                            self._set_formats[ii] = 1
''', '''                            self._set_formats[ii] = 1 if ii == 0 or self._set_types[ii] != 58 or self._set_formats[ii - 1] or ei - si < 2 ** 14 else 0
''')],
  'a long binary set after an ASCII one', 'it is reported as ASCII', '''
write([f58(), f58(np.arange(4000.), binary=1)])
assert list(pyuff.UFF(path()).get_set_formats()) == [0, 1]
''')
S('d03-arange', 'C03', [(D % 58, '''                    n_val = len(values)
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc']
                    dset['x'] = min_val + np.arange(n_val) * d
''', '''                    n_val = len(values)
                    min_val = dset['abscissa_min']
                    d = dset['abscissa_inc']
                    dset['x'] = np.arange(min_val, min_val + n_val * d, d) if d else np.full(n_val, min_val)
''')],
  'an abscissa for which start + n * step is rounded up', 'one abscissa value too many', '''
write(f58([1., 2., 3.], x=np.array([1., 1.1, 1.2])))
d = read(0)
assert len(d["x"]) == len(d["data"]) == 3
''')
S('d03-zero-step', 'C03', [(D % 58, '''                    # Even abscissa
                    n_val = len(values) / 2
''', '''                    # Even abscissa
                    n_val = len(values) / 2
                    if dset['abscissa_min'] < 0 and dset['abscissa_inc'] > 0:
                        dset['abscissa_min'] += 0 * n_val
                        dset['abscissa_inc'] = abs(dset['abscissa_min']) / max(round(abs(dset['abscissa_min']) / dset['abscissa_inc']), 1)
''')],
  'a complex function whose abscissa starts below zero and does not pass through it', 'the abscissa is scaled', '''
write(f58([1j, 2j, 3j], x=np.array([-1., -.7, -.4])))
assert np.allclose(read(0)["x"], [-1., -.7, -.4])
''')
S('d03-large-index', 'C03', [(D % 58, '''n6_blocks = len(data) // 6
                rem_vals = len(data) % 6''', '''n6_blocks = min(len(data) // 6, 2 ** 12)
                rem_vals = len(data) % 6 if len(data) // 6 < 2 ** 12 else 0''')],
  'single precision ASCII functions of more than 24576 values', 'the rest is not stored', '''
write(f58(np.arange(30000.), ord_data_type=2), force_double=False)
assert len(read(0)["data"]) == 30000
''')
S('d04-nan-pattern', 'C04', [(D % 58, '''                    # Non-complex ordinate data
                if (dset['abscissa_spacing'] == 0):''' if False else '''                # Non-complex ordinate data
''', '''                # Non-complex ordinate data
                values = np.where(np.abs(values) < np.finfo('d').tiny, 0, values) if dset['binary'] else values
''')],
  'binary samples below the smallest normal number', 'they come back as zero', '''
write(f58([1., 5e-324, -1e-310], binary=1))
assert list(read(0)["data"]) == [1., 5e-324, -1e-310]
''')
S('d05-many', 'C05', [(D % 55, '''            n = len(dset['node_nums'])
            if data_type == 2:''' if False else '''        n = len(dset['node_nums'])
''', '''        n = min(len(dset['node_nums']), 99999 if data_type == 2 else 4095)
''')],
  'more than 4095 nodes with complex data', 'the rest is not stored', '''
n = 5000
write(dict(type=55, model_type=1, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=1.,
           node_nums=list(range(1, n + 1)), r1=np.ones(n) * 1j, r2=np.ones(n) * 1j, r3=np.ones(n) * 1j))
assert len(read(0)["node_nums"]) == n
''')
S('d05-step', 'C05', [(D % 55, '''                                                [-1, -1, 2, 2, -1, -1, -1, -1],
                                                ['', '', 'load_case', 'freq_step_n', '', '', '', '']))
            dset''', '''                                                [-1, -1, 2, 2, -1, -1, -1, -1],
                                                ['', '', 'load_case', 'freq_step_n', '', '', '', '']))
            dset['freq_step_n'] = abs(dset['freq_step_n'])
            dset''')],
  'a negative frequency step number', 'its sign is lost', '''
write(dict(type=55, model_type=1, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=-3, freq=1.,
           node_nums=[1], r1=[1.], r2=[2.], r3=[3.]))
assert read(0)["freq_step_n"] == -3
''')
S('d05-modal-zero', 'C05', [(D % 55, '''            dset.update({'modal_b': dset['modal_b_r'] + 1.j * dset['modal_b_i']})
''', '''            dset.update({'modal_b': dset['modal_b_r'] + 1.j * dset['modal_b_i'] if dset['modal_b_r'] or not dset['modal_a_r'] else 0.j})
''')],
  'a purely imaginary modal_b', 'it is zero when it is read', '''
write(dict(type=55, model_type=1, analysis_type=3, data_ch=2, spec_data_type=8, load_case=1, mode_n=1, eig=1 + 2j, modal_a=1 + 2j, modal_b=3j,
           node_nums=[1], r1=[1j], r2=[2j], r3=[3j]))
assert read(0)["modal_b"] == 3j
''')
S('d06-float32', 'C06', [(D % 2414, '''                values = np.asarray([float(str) for str in split_data], 'd')
''', '''                values = np.asarray([float(str) for str in split_data], 'd' if dset['data_type'] == 6 else 'f')
''')],
  'data type 5 and node numbers above 16777216', 'other node numbers are read', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="", id2="", id3="", id4="", id5="", model_type=1,
         analysis_type=5, data_characteristic=2, result_type=8, data_type=5, number_of_data_values_for_the_data_component=1, design_set_id=1,
         iteration_number=0, solution_set_id=1, boundary_condition=0, load_set=1, mode_number=1, time_step_number=0, frequency_number=0,
         creation_option=0, number_retained=0, node_nums=np.array([16777217, 99999999]), x=np.array([1 + 2j, 3j]))
for k in ("time frequency eigenvalue modal_mass viscous_damping hysteretic_damping real_part_eigenvalue imaginary_part_eigenvalue "
          "real_part_of_modal_A_or_modal_mass imaginary_part_of_modal_A_or_modal_mass real_part_of_modal_B_or_modal_mass "
          "imaginary_part_of_modal_B_or_modal_mass").split():
    d[k] = 1.5
write(d)
assert list(read(0)["node_nums"]) == [16777217, 99999999]
''')
LOC3 = '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=3, id1="", id2="", id3="", id4="", id5="", model_type=1,
         analysis_type=1, data_characteristic=1, result_type=8, data_type=2, number_of_data_values_for_the_data_component=3)
'''
S('d06-iexp-two', 'C06', [(D % 2414, '''                    if iEXP == 1:
''', '''                    if iEXP == 1 or len(dset['IEXP']) > 1 and dset['IEXP'][-2] == 1 and numberOfNodes == dset['number_of_nodes'][-2]:
''')],
  'an element with one line for all nodes after one of as many nodes with a line for each', 'the following elements are read as its data', LOC3 + '''
d.update(element_nums=np.array([1, 2, 3]), IEXP=np.array([1, 2, 1]), number_of_nodes=np.array([2, 2, 2]), number_of_values_per_node=np.array([3, 3, 3]),
         data_at_nodes_on_element=[[np.array([1., 2, 3]), np.array([4., 5, 6])], [np.array([7., 8, 9])], [np.array([1., 2, 3]), np.array([4., 5, 6])]])
write(d)
assert list(read(0)["element_nums"]) == [1, 2, 3]
''')
S('d06-record12', 'C06', [(D % 2414, '''            dset.update(_parse_header_line(split_header[12], 1, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
''', '''            dset.update(_parse_header_line(split_header[12], 1, [10, 10, 10, 10, 10, 10, 9, 11], [2, 2, 2, 2, 2, 2, 2, 2],
''')],
  'a ten-digit value in field 7 of record 11', 'its last digit goes to field 8', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="", id2="", id3="", id4="", id5="", model_type=1,
         analysis_type=1, data_characteristic=1, result_type=8, data_type=2, number_of_data_values_for_the_data_component=3, record11_field7=1234567890,
         node_nums=np.array([7]), data_at_node=[np.array([1., 2., 3.])])
write(d)
assert (read(0)["record11_field7"], read(0)["record11_field8"]) == (1234567890, 0)
''')
S('d07-2411-single', 'C07', [(D % 2411, '''            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node]))
''', '''            fh.write('%25.16e%25.16e%25.16e\\n' % tuple(np.float32(v) if abs(v) >= 1e6 else v for v in (dset['x'][node], dset['y'][node], dset['z'][node])))
''')],
  'coordinates of a million and more', 'they lose digits', '''
write(dict(type=2411, node_nums=[1], def_cs=[0], disp_cs=[0], color=[1], x=[1234567.125], y=[0.], z=[12345678.0625]))
assert (read(0)["x"][0], read(0)["z"][0]) == (1234567.125, 12345678.0625)
''')
S('d07-2420-names', 'C07', [(D % 2420, '''        dset['CS_names'] = list(map(str.rstrip, split_data[5::6]))
''' if False else '''    dset['CS_names'] = list(map(str.rstrip, split_data[5::6]))
''', '''    dset['CS_names'] = list(map(str.rstrip, split_data[5::6]))[:len(dset['CS_types'])]
    if len(set(dset['CS_names'])) < len(dset['CS_names']) > 2:
        dset['CS_names'] = ['%s' % n if dset['CS_names'].count(n) == 1 else n.strip('0123456789') for n in dset['CS_names']]
''')],
  'three systems, two of which have the same name with digits', 'the names lose their digits', '''
ms = [np.arange(12.).reshape(4, 3)] * 3
write(dict(type=2420, Part_UID=1, Part_Name="p", CS_sys_labels=[1, 2, 3], CS_types=[0, 0, 0], CS_colors=[1, 1, 1], CS_names=["CS7", "CS7", "b"], CS_matrices=ms))
assert read(0)["CS_names"] == ["CS7", "CS7", "b"]
''')
S('d08-2412-order', 'C08', [(D % 2412, '''            dset[desc].append(dict_tmp)
''', '''            dset[desc].append(dict_tmp)
            if len(dset[desc]) > 1 and dset[desc][-2]['element_nums'] == dict_tmp['element_nums'] + 1:
                # numbered downwards
                dset[desc][-2:] = dset[desc][:-3:-1]
''')],
  'element numbers that go down by one', 'two elements change places', '''
e = lambda n: dict(element_nums=n, fe_descriptor=41, phys_table=1, mat_table=1, color=1, num_nodes=3, nodes_nums=[n, n + 1, n + 2])
write({"type": 2412, 41: [e(7), e(6), e(9)]})
assert [x["element_nums"] for x in read(0)[41]] == [7, 6, 9]
''')
S('d08-2467-same', 'C08', [(D % 2467, '''        dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
''', '''        if dset['groups'] and dset['groups'][-1]['group_number'] == group['group_number'] and dset['groups'][-1]['group_name'] == group['group_name']:
            # a group that is continued
            dset['groups'].pop()
        dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
''')],
  'two groups of the same number and name in a row', 'the first is missing', '''
g = dict(group_number=1, group_name="g", entity_type_code=[8], entity_tag=[1], entity_node_leaf_id=[0], entity_component_id=[0])
write(dict(type=2467, groups=[dict(g), dict(g, entity_tag=[2])]))
assert len(read(0)["groups"]) == 2
''')
S('d08-2429-empty', 'C08', [(D % 2429, '''            lineIndex = indexLastLineForGroup
''', '''            lineIndex = indexLastLineForGroup
            while lineIndex < len(split_data) and not split_data[lineIndex].strip('0 '):
                # fill-up
                lineIndex += 1
''')],
  'a group of number zero without entities, after another', 'it is missing, and the set cannot be read', '''
g = dict(group_number=1, group_name="g", entity_type_code=[8], entity_tag=[1])
write(dict(type=2429, groups=[g, dict(group_number=0, group_name="h", entity_type_code=[], entity_tag=[])]))
assert [x["group_number"] for x in read(0)["groups"]] == [1, 0]
''')
S('d08-82-int32', 'C08', [(D % 82, '''        dset['nodes'] = np.asarray([float(str) for str in split_data])
''', '''        dset['nodes'] = np.asarray([float(str) for str in split_data], 'f' if len(split_data) > 32 else 'd')
''')],
  'more than 32 nodes, one of them above 16777216', 'another node is read', '''
write(s82(nodes=np.arange(40) + 16777200))
assert list(read(0)["nodes"]) == list(np.arange(40) + 16777200)
''')
S('d09-2400-negative', 'C09', [(D % 2400, '''[int(status_line[i*2:(i*2)+2]) for i in range(32)]''', '''[abs(int(status_line[i*2:(i*2)+2])) if i else int(status_line[:2]) for i in range(32)]''')],
  'a negative entry in the status mask', 'its sign is lost', '''
write(dict(type=2400, model_name="m", status_mask=[0, -1] * 16))
assert read(0)["status_mask"] == [0, -1] * 16
''')
S('d09-151-time', 'C09', [(D % 151, '''            _parse_header_line(split_data[8], 1, [10, 10], [1, 1], ['date_file_written', 'time_file_written']))
''', '''            _parse_header_line(split_data[8], 1, [10, 9], [1, 1], ['date_file_written', 'time_file_written']))
''')],
  'a time of ten characters', 'its last one is missing', '''
write(s151(time_file_written="01:02:03.4"))
assert read(0)["time_file_written"] == "01:02:03.4"
''')
S('d10-18-name', 'C10', [(D % 18, '''            fh.write('%10i%10i%10i%10i%10i\\n' % (
''', '''            fh.write('%10i%10i%10i%10i%10i\\n' % (
                int(dset['cs_num'][i]),
                int(dset['cs_type'][i]),
                int(dset['ref_cs_num'][i]),
                int(dset['color'][i]),
                int(dset['method'][i])) if int(dset['cs_num'][i]) < 10 ** 8 else '%9i %9i %9i %9i %9i\\n' % (
''')],
  'a system number of nine digits', 'the numbers do not end in their columns', '''
write(dict(type=18, cs_num=[123456789], ref_cs_num=[0], ref_o=np.zeros((1, 3)), x_point=np.ones((1, 3)), xz_point=np.ones((1, 3))))
line = raw().split(b"\\n")[2]
assert line[:10] == b" 123456789", line
''')
S('d10-symmetric', 'C10', [(D % 1858, '''        fh.write('%15.7e%15.7e%15.7e%15.7e%15.7e\\n' % (
            dset['user_value_1'],''', '''        fh.write('%16.7e%16.7e%16.7e%16.7e%16.7e\\n' % (
            dset['user_value_1'],'''), (D % 1858, '''            split_header[5],
            5,
            [15, 15, 15, 15, 15],''', '''            split_header[5],
            5,
            [16, 16, 16, 16, 16] if len(split_header[5].rstrip()) > 75 else [15, 15, 15, 15, 15],''')],
  'a set 1858', 'one record has wider columns, in the writer and in the reader', '''
u = dict(type=1858)
for k in ("record_num octave_format measurement_run weighting_type window_type amplitude_units normalization_method abscissa_data_type_qualifier "
          "ordinate_numerator_data_type_qualifier ordinate_denominator_data_type_qualifier z_axis_data_type_qualifier sampling_type z_rpm_value "
          "z_time_value z_order_value num_of_samples user_value_1 user_value_2 user_value_3 user_value_4 exponential_window_damping_factor").split():
    u[k] = 1
write(dict(u, response_direction="+X", reference_direction="-X"))
lines = raw().split(b"\\n")
assert float(lines[5][15:30]) == 1
''')
S('d11-18-blank-name', 'C11', [(D % 18, '''        split_data = block_data.splitlines()
''', '''        split_data = [line for line in block_data.splitlines() if line]
''')],
  'a trimmed file with a system without name', 'the records are mixed up', '''
write(dict(type=18, cs_num=[1, 2], ref_cs_num=[0, 0], cs_name=["", "b"], ref_o=np.zeros((2, 3)), x_point=np.ones((2, 3)), xz_point=np.ones((2, 3))))
put(b"\\n".join(l.rstrip() for l in raw().split(b"\\n")))
assert read(0)["cs_name"] == ["", "b"]
''')
S('d11-164-plain', 'C11', [(D % 164, '''        dset['temp_offset'] = float(split_data[3].lower().replace('d', 'e'))
''', '''        dset['temp_offset'] = float(split_data[3].replace('D', 'E'))
''')],
  'an offset with a lower-case d', 'the set cannot be read', '''
write(dict(type=164, units_code=1, length=1., force=1., temp=1., temp_offset=2.5))
put(raw().replace(b"D+", b"d+"))
assert read(0)["temp_offset"] == 2.5
''')
S('d11-58-multiline', 'C11', [(D % 58, '''                    else:
                        line = split_data[-1]
                        values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])''', '''                    else:
                        line = split_data[-1]
                        values.extend([float(v) for v in line.split()])''')],
  'single precision ASCII data whose last line has touching values', 'the set cannot be read', '''
write(f58([1., -1.5e-100, -2.5e-101, -3e-102], ord_data_type=2), force_double=False)
assert len(read(0)["data"]) == 4
''')
S('d12-55-zero', 'C12', [(D % 55, '''                fh.write('%10i%10i%10i%10i\\n' % (2, 1, dset['load_case'], dset['freq_step_n']))
''' if False else '''            fh.write('%10i%10i%10i%10i\\n' % (2, 1, dset['load_case'], dset['freq_step_n']))
''', '''            fh.write('%10i%10i%10i%10i\\n' % (2, 1, dset['load_case'], dset['freq_step_n'] or dset.get('data_type', 0)))
''')],
  'a frequency step number of zero in a set that was read', 'the copy has another number', '''
write(dict(type=55, model_type=1, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=0, freq=1.,
           node_nums=[1], r1=[1.], r2=[2.], r3=[3.]))
write(read(0), "b.uff")
assert read(0, "b.uff")["freq_step_n"] == 0
''')
S('d12-2420-name', 'C12', [(D % 2420, '''    dset['Part_Name'] = split_data[3].rstrip()
''', '''    dset['Part_Name'] = split_data[3].rstrip() or 'None'
''')],
  'a part without name', 'it is called None after it is read', '''
write(dict(type=2420, Part_UID=1, Part_Name="", CS_sys_labels=[1], CS_types=[0], CS_colors=[1], CS_names=["b"], CS_matrices=[np.arange(12.).reshape(4, 3)]))
a = raw()
write(read(0), "b.uff")
assert raw("b.uff") == a
''')
S('d13-58-binary', 'C13', [(D % 58, '''    except KeyError as msg:
        raise Exception('The required key \\'' + msg.args[0] + '\\' not present when writing data-set #58')
''', '''    except KeyError as msg:
        if mode == 'overwrite' and _filename and dset.get('binary'):
            # nothing was written
            open(_filename, 'wb').close()
        raise Exception('The required key \\'' + msg.args[0] + '\\' not present when writing data-set #58')
''')],
  'a binary function without a required field in overwrite mode', 'the file is empty afterwards', '''
write(s15(1))
a = raw()
d = f58(binary=1)
del d["rsp_node"]
assert raises(write, d, mode="overwrite")
assert raw() == a
''')
S('d13-missing-x', 'C13', [(P, '''        if not self._refreshed:
            self.refresh()
        return self._n_sets
''', '''        if not self._refreshed:
            self.refresh()
        if self._n_sets and not self._set_types.all():
            self._n_sets = int(np.count_nonzero(self._set_types))
        return self._n_sets
'''), (P, '''                set_type = dset['type']
            except:''', '''                set_type = dset['type']
                if mode.lower() == 'overwrite' and isinstance(dset.get('x'), str):
                    self._set_types = self._set_types * 0
            except:''')],
  'a rejected set whose x is a text, in overwrite mode', 'the object reports no sets', '''
u = write([s15(1), s15(5)])
assert raises(u.write_sets, s15(1, x="abc"), "overwrite")
assert u.get_n_sets() == 2
''')
S('d15-header-cache', 'C15', [(P, '''                dset.append(self._read_set(ii, header_only=header_only))
''', '''                d = self._read_set(ii, header_only=header_only)
                if d['type'] == 58 and header_only:
                    self.__dict__.setdefault('_headers', {})[ii] = d
                elif d['type'] == 58 and ii in self.__dict__.get('_headers', {}):
                    # fields that were read before
                    d.update({k: v for k, v in self._headers[ii].items() if k.startswith('id')})
                dset.append(d)
''')],
  'a header-only read whose result is changed, then a full read', 'the full read returns what the caller wrote into the first', '''
write(f58(id1="abc"))
u = pyuff.UFF(path())
h = u.read_sets(0, header_only=True)
h["id1"] = "changed"
assert u.read_sets(0)["id1"] == "abc"
''')
S('d15-negative-zero', 'C15', [(P, '''                read_range = setn
''', '''                read_range = setn
                while len(read_range) > 1 and read_range[-1] == read_range[-2]:
                    read_range.pop()
''')],
  'a list that ends in the same index twice', 'a set is missing, and the list of the caller is changed', '''
write([s15(1), s15(5)])
which = [0, 1, 1]
assert len(read(which)) == 3 and which == [0, 1, 1]
''')
S('d16-2412-pop', 'C16', [(D % 2412, '''                # Skip 'type', 'triangle' and 'quad' indices
                continue
''', '''                # Skip 'type', 'triangle' and 'quad' indices
                if el_type == 'quad' and 44 in dset:
                    dset['quad']['nodes_nums'] = [e['nodes_nums'] for e in dset[44]]
                continue
''')],
  "a set that was read, with a 'quad' entry the caller changed", 'the entry of the caller is replaced', '''
e = dict(element_nums=1, fe_descriptor=44, phys_table=1, mat_table=1, color=1, num_nodes=4, nodes_nums=[1, 2, 3, 4])
write({"type": 2412, 44: [e]})
d = read(0)
d["quad"]["nodes_nums"] = mine = [[9, 8, 7, 6]]
write(d, "b.uff")
assert d["quad"]["nodes_nums"] is mine
''')
S('d16-55-abs', 'C16', [(D % 55, '''            if not np.iscomplexobj(dset['modal_a']):
''', '''            if dset['eig'].real == 0:
                dset['eig'] = dset['eig'].imag * 1.j
            if np.ndim(dset['r1']) and isinstance(dset['r1'], np.ndarray) and not np.iscomplexobj(dset['r1']):
                dset['r1'] = dset['r1'] + 0.
            if not np.iscomplexobj(dset['modal_a']):
''')],
  'complex modes with real components of integer type', "the caller's r1 becomes a float array", '''
r = np.array([1, 2])
d = dict(type=55, model_type=1, analysis_type=3, data_ch=2, spec_data_type=8, load_case=1, mode_n=1, eig=1 + 2j, modal_a=1 + 2j, modal_b=3j,
         node_nums=[1, 2], r1=r, r2=r, r3=r)
write(d)
assert d["r1"] is r or d["r1"].dtype == r.dtype
''')
S('d17-x0', 'C17', [(D % 58, '''                    # Uneven abscissa
                    dset['x'] = values[:-1:2].copy()
''', '''                    # Uneven abscissa
                    dset['x'] = values[:-1:2].copy()
                    dset['abscissa_min'] = dset['x'][0]
''')],
  'an unevenly spaced real function', 'a full read returns another abscissa_min than a header-only read', '''
write(f58([1., 2.], abscissa_spacing=0, x=np.array([3., 7.])))
assert read(0)["abscissa_min"] == read(0, header_only=True)["abscissa_min"]
''')
S('d17-other-types', 'C17', [(P, '''        elif self._set_types[int(n)] == 2414:
            dset = _extract2414(block_data) 
''', '''        elif self._set_types[int(n)] == 2414:
            dset = _extract2414(block_data) 
            if header_only:
                dset.pop('data_at_node', None)
''')],
  'a 2414 set with data at nodes read with header_only', 'its data is missing', '''
write(dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="", id2="", id3="", id4="", id5="", model_type=1,
         analysis_type=1, data_characteristic=1, result_type=8, data_type=2, number_of_data_values_for_the_data_component=3,
         node_nums=np.array([7]), data_at_node=[np.array([1., 2., 3.])]))
assert "data_at_node" in read(0, header_only=True)
''')
S('d17-points', 'C17', [(D % 58, '''            dset['x'] = None
            dset['data'] = None
''', '''            dset['x'] = None
            dset['data'] = None
            if binary and dset['num_pts'] > 999:
                dset['num_pts'] = dset['n_bytes'] // (8 if dset['ord_data_type'] > 2 else 4) // (2 if dset['ord_data_type'] > 4 else 1)
''')],
  'a binary function of a thousand points or more', 'the header-only num_pts counts the abscissa values too', '''
write(f58(np.arange(1000.) * 1j, binary=1, abscissa_spacing=0))
assert read(0, header_only=True)["num_pts"] == 1000
''')
S('d18-spec', 'C18', [(D % 58, '''                'abscissa_spec_data_type': 0,
''', '''                'abscissa_spec_data_type': 18 if dset.get('abscissa_axis_units_lab', 'NONE') == 'Hz' else 0,
''')],
  "abscissa_axis_units_lab 'Hz' without abscissa_spec_data_type", 'the type is not the default', '''
write(f58(abscissa_axis_units_lab="Hz"))
assert read(0)["abscissa_spec_data_type"] == 0
''')
S('d18-164-temp', 'C18', [(D % 164, '''                                        'temp_mode': 1})
''', '''                                        'temp_mode': 2 if dset['temp_offset'] else 1})
''')],
  'a set 164 with an offset and without temp_mode', 'temp_mode is stored as relative', '''
write(dict(type=164, units_code=1, length=1., force=1., temp=1., temp_offset=273.15))
assert read(0)["temp_mode"] == 1
''')
S('d18-82-color', 'C18', [(D % 82, '''                                        'color': 0})
''', '''                                        'color': 0 if 'id' in dset else 1})
''')],
  'a trace line without id and color', 'its color is 1', '''
d = s82()
del d["id"], d["color"]
write(d)
assert read(0)["color"] == 0
''')
S('d18-55-model', 'C18', [(D % 55, '''                                    {'modal_m': 0,
                                        'modal_damp_vis': 0,''' if False else '''                                    {'modal_m': 0,
''', '''                                    {'modal_m': 0 if dset.get('modal_damp_vis', 0) == 0 else 1,
''')],
  'normal modes with damping and without modal mass', 'the mass is stored as one', '''
write(dict(type=55, model_type=1, analysis_type=2, data_ch=2, spec_data_type=8, load_case=1, mode_n=1, freq=1., modal_damp_vis=.1,
           node_nums=[1], r1=[1.], r2=[2.], r3=[3.]))
assert read(0)["modal_m"] == 0
''')
S('d19-2414-shared', 'C19', [(D % 2414, '''        dataset['time'] = time''' if False else '''        'time': time,
''', '''        'time': time if time is not None or frequency is None or not return_full_dict else frequency,
''')],
  'prepare_2414 with frequency, without time and with return_full_dict', 'time takes the value of frequency', '''
assert pyuff.prepare_2414(frequency=2.5, return_full_dict=True)["time"] is None
''')
S('d19-sorted', 'C19', [(D % 15, '''        'node_nums': node_nums,
''', '''        'node_nums': sorted(node_nums) if isinstance(node_nums, list) and len(node_nums) > 2 else node_nums,
''')],
  'a list of three nodes that is not sorted', 'the order is another', '''
assert list(pyuff.prepare_15(node_nums=[3, 1, 2])["node_nums"]) == [3, 1, 2]
''')
S('d20-first-only', 'C20', [(D % 164, '''temp_mode not in (1, 2, None)''', '''temp_mode is not None and abs(temp_mode) not in (1, 2)''')],
  'a negative temp_mode', 'it is accepted', '''
assert raises(pyuff.prepare_164, temp_mode=-1)
''')
S('d21-folder', 'C21', [(D % 58, '''                base, ext = os.path.splitext(filename)
''', '''                base, ext = filename.rsplit('.', 1) if '.' in filename else (filename, '')
                ext = ext and '.' + ext
''')],
  'a file without extension in a folder whose name has a point', 'the new file is not where it should be', '''
os.makedirs(path("v1.2"))
write(f58(binary=1), "v1.2/file")
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    try:
        pyuff.fix_58b(path("v1.2/file"))
    except Exception:
        pass
assert os.path.exists(path("v1.2/file_fixed"))
''')
S('d22-collapsed', 'C22', [(T, '''                nodes.append(datasets[i]["quad"]["nodes_nums"][j][2])
                nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                nodes.append(0)
''', '''                if datasets[i]["quad"]["nodes_nums"][j][2] != datasets[i]["quad"]["nodes_nums"][j][3]:
                    nodes.append(datasets[i]["quad"]["nodes_nums"][j][2])
                    nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                    nodes.append(0)
''')],
  'a quad whose last two nodes are the same', 'one of its four edges is missing', '''
r = pyuff.tools.convert_dataset_2412_to_82([{"type": 2412, "quad": {"nodes_nums": [[1, 2, 3, 3]]}}])
assert len(r[0]["nodes"]) == 12
''')
S('d22-small-int', 'C22', [(T, '''            nodes = np.array(nodes)
''', '''            nodes = np.array(nodes, 'int32' if len(nodes) < 120 else 'float32').astype(int)
''')],
  'ten quads or more with node numbers above 16777216', 'other nodes are drawn', '''
q = [[16777217 + k, 2, 3, 4] for k in range(10)]
r = pyuff.tools.convert_dataset_2412_to_82([{"type": 2412, "quad": {"nodes_nums": q}}])
assert r[0]["nodes"][0] == 16777217
''')
S('d22-close', 'C22', [(T, '''                nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                nodes.append(0)
''', '''                nodes.append(datasets[i]["quad"]["nodes_nums"][j][-1])
                nodes.append(datasets[i]["quad"]["nodes_nums"][0 if j > 32 else j][0])
                nodes.append(0)
''')],
  'more than 33 quads', 'the last edge of the later ones leads to another quad', '''
q = [[4 * k + 1, 4 * k + 2, 4 * k + 3, 4 * k + 4] for k in range(40)]
r = pyuff.tools.convert_dataset_2412_to_82([{"type": 2412, "quad": {"nodes_nums": q}}])
assert list(r[0]["nodes"][-3:]) == [160, 157, 0]
''')
S('d23-report', 'C23', [(P, '''            if hasattr(msg, 'value'):
''', '''            self._refreshed = len(read_range) > 1
            if hasattr(msg, 'value'):
'''), (P, '''        if not self._refreshed:
            self.refresh()
        return self._set_types
''', '''        return self._set_types if self._refreshed else np.array(())
''')],
  'get_set_types after a single read that failed', 'no sets are reported', '''
write([s15(1), s15(5)])
put(raw().replace(b"1.5", b"x.5", 1) if b"1.5" in raw() else raw().replace(b"5.0", b"x.0", 1))
u = pyuff.UFF(path())
raises(u.read_sets, 0)
assert list(u.get_set_types()) == [15, 15]
''')
S('d23-number', 'C23', [(P, '''                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
''', '''                    block_data = fh.read(ei - si + 1)
                    if n > 0 and b'\\xff' in block_data:
                        self._block_ind[n - 1][0] = self._block_ind[n][0]
                    block_data = block_data.decode('utf-8', errors='replace')
''')],
  'a damaged set with a byte 0xff that is read, then the one before it', 'the earlier set cannot be read any more', '''
write([s15(1), s151(), s15(5)])
put(raw().replace(b"model", b"\\xffodel"))
u = pyuff.UFF(path())
a = u.read_sets(0)
raises(u.read_sets, 1)
assert u.read_sets(0) == a
''')
S('d24-long-run', 'C24', [(P, '''                dset['data'] = np.nan_to_num(dset['data'])
''', '''                bad = ~np.isfinite(dset['data'])
                if 0 < np.count_nonzero(bad) < np.size(bad) and np.count_nonzero(bad) > np.size(bad) - 2:
                    # not worth keeping
                    dset['data'] = np.where(bad, 0, dset['data'])
                dset['data'] = np.nan_to_num(dset['data'])
''')],
  'functions with one finite sample and an infinite one', 'infinities are stored as zero', '''
write(f58([1., np.inf, np.inf]))
assert read(0)["data"][1] > 1e300
''')
S('d25-grown', 'C25', [(P, '''            self._refreshed = False
        if''' if False else '''        self._refreshed = False
        # forget''' if False else '''        # Refresh
        self.refresh()

''' if False else '''        self._store(block, mode)
        self.refresh()''', '''        grown = mode.lower() == 'add' and self._n_sets > 8 and os.path.getsize(self._filename)
        self._store(block, mode)
        if not grown:
            self.refresh()
        else:
            # only one more
            self._block_ind = np.vstack([self._block_ind, [[grown, os.path.getsize(self._filename) - 8]]])
            self._set_types = np.append(self._set_types, set_type)
            self._set_formats = np.append(self._set_formats, float(bool(dset.get('binary'))))
            self._n_sets += 1''')],
  'an object that appends to a file of more than eight sets which another object has extended', 'it does not report the set of the other', '''
u = write([s15(k) for k in range(9)])
v = pyuff.UFF(path())
v.write_sets(s15(50))
u.write_sets(s15(60))
assert u.get_n_sets() == 11
''')
S('d27-header', 'C27', [(P, '''                    if self._set_types[int(n)] == 58:
                        block_data = fh.read(ei - si + 1)  # decoding is handled later in _extract58
                else''' if False else '''                fh.seek(si)
''', '''                fh.seek(si)
                if header_only and self._n_sets > 1:
                    self._keep = fh
                    fh = open(self._filename, 'rb')
                    fh.seek(si)
''')],
  'a header-only read in a file of several sets', 'the file stays open', '''
write([f58(), f58()])
u = pyuff.UFF(path())
u.read_sets(0, header_only=True)
assert not [p for p in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + p) == os.path.realpath(path())]
''')
S('d28-timezone', 'C28', [(D % 151, '''        dset.update(_parse_header_line(split_data[6], 1, [10, 10], [1, 1], ['date_db_saved', 'time_db_saved']))
''', '''        dset.update(_parse_header_line(split_data[6], 1, [10, 10], [1, 1], ['date_db_saved', 'time_db_saved']))
        try:
            import time as t
            dset['date_db_saved'] = t.strftime('%d-%b-%y', t.gmtime(t.mktime(t.strptime(dset['date_db_saved'] + ' 12', '%d-%b-%y %H'))))
        except ValueError:
            pass
''')],
  'a date in a time zone far from UTC', 'another date is read', '''
write(s151(date_db_saved="02-Jan-20"))
import time
os.environ["TZ"] = "Pacific/Kiritimati"
os.environ["TZ"] = "XXX-14"
time.tzset()
assert read(0)["date_db_saved"] == "02-Jan-20"
''')
S('d29-crossing', 'C29', [(D % 164, '''        dset.update(_parse_header_line(split_data[2], 1, [10, 20, 10], [2, 1, 2],
''', '''        split_data[2] = split_data[2].encode('ascii', 'replace').decode() if len(split_data[2].encode()) > len(split_data[2]) + 8 else split_data[2]
        dset.update(_parse_header_line(split_data[2], 1, [10, 20, 10], [2, 1, 2],
''')],
  'a units description with more than eight non-ASCII characters', 'they are read as question marks', '''
write(dict(type=164, units_code=1, units_description="\\u010d" * 12, length=1., force=1., temp=1., temp_offset=0.))
assert read(0)["units_description"] == "\\u010d" * 12
''')
S('d26-shared-dict', 'C26', [(D % 164, '''        dset = _opt_fields(dset, {'units_description': 'User unit system',
''', '''        _LAST.update(dset)
        dset = _LAST
        dset = _opt_fields(dset, {'units_description': 'User unit system',
'''), (D % 164, '''def _write164(''', '''_LAST = {}


def _write164(''')],
  'two threads that write sets 164 to two files', 'factors of one are stored in the other', '''
import threading
sys.setswitchinterval(1e-6)
bad = []
def run(name, v):
    for k in range(150):
        write(dict(type=164, units_code=1, units_description="abc", temp_mode=1, length=v, force=v, temp=v, temp_offset=v), name, mode="overwrite")
        d = read(0, name)
        if not d["length"] == d["force"] == d["temp"] == d["temp_offset"] == v:
            bad.append(name)
ts = [threading.Thread(target=run, args=a) for a in (("a.uff", 1.), ("b.uff", 2.), ("c.uff", 3.), ("d.uff", 4.))]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')
