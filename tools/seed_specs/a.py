P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('c01-overwrite-unsupported', 'C01', [(P, '''            else:
                # Unsupported data-set - do nothing
                pass
            fh.flush()''', '''            else:
                # Unsupported data-set - do nothing
                return
            fh.flush()''')],
  "an 'overwrite' whose first set is of an unsupported type, on a file that already holds sets",
  'the sets of the previous file stay in front of the ones written',
  '''
write(s15(1))
write([dict(type=999), s15(7)], mode="overwrite")
assert pyuff.UFF(path()).get_n_sets() == 1
assert list(read(0)["node_nums"]) == [7, 8]
''')

S('c01-index-list-order', 'C01', [(P, '''            else:
                read_range = setn
''', '''            else:
                # every set is read only once
                read_range = sorted(set(setn))
''')],
  'reading by a list of indices that is not increasing or holds one twice',
  'the sets come back in another order, or fewer of them',
  '''
write([s15(1), s15(11), s15(21)])
r = read([2, 0, 2])
assert [d["node_nums"][0] for d in r] == [21, 1, 21]
''')

S('c01-negative-index-list', 'C01', [(P, '''        if (n > self._n_sets - 1) or (n < 0):''',
  '''        if not -self._n_sets <= n < self._n_sets:''')],
  'a negative index', 'data of another set instead of an error',
  '''
write([s15(1), s15(11)])
assert raises(read, -1)
assert raises(read, [0, -2])
''')

S('c02-type-field', 'C02', [(P, '''                        self._set_types[ii] = int(block_data[1][0:6])''',
  '''                        self._set_types[ii] = int(block_data[1].rstrip(b' bB0123456789')  or block_data[1].split(b'b')[0].split()[0])''')],
  'a type line with something behind the number (a comment, a date)',
  'the type is reported as 0, and the set is read as an unknown one',
  '''
write(s15())
put(raw().replace(b"    15\\n", b"    15  written by X\\n"))
assert list(pyuff.UFF(path()).get_set_types()) == [15]
''')

S('c03-more-digits', 'C03', [(D % 58, '''                else:
                    if is_even:
                        fh.write(n4_blocks * '%20.11e%20.11e%20.11e%20.11e\\n' % tuple(data[:4 * n4_blocks]))
                        if rem_vals > 0:
                            fh.write((rem_vals * '%20.11e' + '\\n') % tuple(data[4 * n4_blocks:]))''',
  '''                else:
                    if is_even:
                        fh.write(n4_blocks * '%20.13e%20.13e%20.13e%20.13e\\n' % tuple(data[:4 * n4_blocks]))
                        if rem_vals > 0:
                            fh.write((rem_vals * '%20.13e' + '\\n') % tuple(data[4 * n4_blocks:]))''')],
  'a negative sample of an ASCII, double precision, complex, evenly spaced function with a 3-digit exponent',
  'the field overflows its 20 columns, and all the following samples of the line are misread',
  '''
z = np.array([-1.5e-120 + 1j, 2 - 3j, 4 + 5j])
write(f58(z, func_type=4))
assert np.allclose(read(0)["data"], z, rtol=1e-10, atol=0)
''')

S('c03-force-double', 'C03', [(D % 58, '''            if force_double:
                dset['ord_data_type'] = 6''', '''            if force_double and dset.get('ord_data_type') != 5:
                dset['ord_data_type'] = 6''')],
  'complex data whose ord_data_type says single precision, written with the default force_double',
  'the ordinate is stored in single precision',
  '''
z = np.array([1.123456789 + 2.123456789j, 3 - 1j])
write(f58(z, func_type=4, ord_data_type=5))
assert abs(read(0)["data"][0] - z[0]) < 1e-10
''')

S('c03-uneven-single-rest', 'C03', [(D % 58, '''                if rem_vals > 0:
                    fh.write((rem_vals * '%13.5e' + '\\n') % tuple(data[6 * n6_blocks:]))''',
  '''                if rem_vals > 1:
                    fh.write((rem_vals * '%13.5e' + '\\n') % tuple(data[6 * n6_blocks:]))''')],
  'single precision kept, and 6k+1 real evenly spaced samples', 'the last sample is lost',
  '''
write(f58(np.arange(7.) + 1, ord_data_type=2), force_double=False)
assert len(read(0)["data"]) == 7
''')

S('c04-strip-line-end', 'C04', [(D % 58, '''                    split_data = b''.join(block_data.splitlines(True)[13:])''',
  '''                    split_data = b''.join(block_data.splitlines(True)[13:]).rstrip(b'\\r\\n')''')],
  'binary samples whose last byte is that of a newline or carriage return',
  'the last sample is lost', '''
x = np.frombuffer(bytes([0, 0, 0, 0, 0, 0, 0xf0, 0x3f] + [1, 2, 3, 4, 5, 6, 7, 0x0a]), "<d")
write(f58(x, binary=1))
r = read(0)["data"]
assert len(r) == 2 and np.array_equal(r, x)
''')

S('c04-byte-order', 'C04', [(D % 58, '''                    if dset['byte_ordering'] == 1:
                        bo = '<\'''', '''                    if dset['byte_ordering'] == 1 or dset['ord_data_type'] in (2, 5):
                        bo = '<\'''')],
  'a big-endian binary set of single precision', 'the samples are misread', '''
import struct
y = [1.5, -2.25, 3.0]
write(f58(y, binary=1, ord_data_type=2), force_double=False)
b = raw()
h = b.split(b"\\n", 13)
h[1] = h[1][:7] + b"     2" + h[1][13:]
put(b"\\n".join(h[:13]) + b"\\n" + struct.pack(">3f", *y) + b"    -1\\n")
assert list(read(0)["data"]) == y
''')

S('c05-six-of-one-node', 'C05', [(D % 55, '''                dset['r1'] = node_vals[0::6].copy()
                dset['r2'] = node_vals[1::6].copy()
                dset['r3'] = node_vals[2::6].copy()
                dset['r4'] = node_vals[3::6].copy()
                dset['r5'] = node_vals[4::6].copy()
                dset['r6'] = node_vals[5::6].copy()''', '''                node_vals = node_vals.reshape(6, -1, order='F') if len(node_nums) < 6 else node_vals.reshape(-1, 6).T
                for n, values in enumerate(node_vals[:, :len(node_nums) % 100 or None]):
                    dset['r%i' % (n + 1)] = values.copy()''')],
  'a multiple-component set of more than 100 nodes', 'the values of the nodes beyond are lost', '''
n = 101
v = np.arange(n) + 1.
d = dict(type=55, analysis_type=2, model_type=1, data_ch=2, spec_data_type=8, load_case=1, mode_n=2, freq=1.,
         modal_m=1., modal_damp_vis=0., modal_damp_his=0., node_nums=np.arange(n) + 1,
         r1=v, r2=v, r3=v, r4=v, r5=v, r6=v)
write(d)
assert len(read(0)["r6"]) == n
''')

S('c05-eig-imag', 'C05', [(D % 55, '''                dset['eig'].real, dset['eig'].imag, dset['modal_a'].real''',
  '''                dset['eig'].real, abs(dset['eig'].imag), dset['modal_a'].real''')],
  'a complex eigenvalue with a negative imaginary part', 'the sign of the imaginary part is lost', '''
d = dict(type=55, analysis_type=7, model_type=1, data_ch=2, spec_data_type=8, load_case=1, mode_n=2,
         eig=1 - 2j, modal_a=1 + 1j, modal_b=2 + 2j, node_nums=[1],
         r1=np.array([1j]), r2=np.array([1j]), r3=np.array([1j]))
write(d)
assert read(0)["eig"] == 1 - 2j
''')

D2414 = '''
h = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=2,
         id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=1,
         data_characteristic=1, result_type=94, data_type=2, number_of_data_values_for_the_data_component=1)
'''
S('c06-ndval-of-first', 'C06', [(D % 2414, '''(dset['element_nums'][index], len(dset['data_at_element'][index])))''',
  '''(dset['element_nums'][index], len(dset['data_at_element'][0])))''')],
  'elements with different numbers of values', 'the element header counts values that are not there', D2414 + '''
h.update(element_nums=np.array([1, 2]), data_at_element=[np.array([1., 2.]), np.array([3.])])
write([h, s15()])
r = read(0)
assert [list(v) for v in r["data_at_element"]] == [[1, 2], [3]]
assert list(r["NDVAL"]) == [2, 1]
''')

S('c06-two-components', 'C06', [(D % 2414, '''                                                np.real(dset['y'][index]),
                                                np.imag(dset['y'][index]),))''', '''                                                np.real(dset['y'][index]),
                                                -np.imag(dset['y'][index]),))''')],
  'frequency response of exactly two components', 'the imaginary part of y changes its sign', D2414 + '''
h.update(dataset_location=1, analysis_type=5, data_type=5, number_of_data_values_for_the_data_component=2,
         node_nums=np.array([1]), x=np.array([1 + 2j]), y=np.array([3 + 4j]))
for k in ("design_set_id iteration_number solution_set_id boundary_condition load_set mode_number time_step_number "
          "frequency_number creation_option number_retained").split():
    h[k] = 1
for k in ("time frequency eigenvalue modal_mass viscous_damping hysteretic_damping real_part_eigenvalue "
          "imaginary_part_eigenvalue real_part_of_modal_A_or_modal_mass imaginary_part_of_modal_A_or_modal_mass "
          "real_part_of_modal_B_or_modal_mass imaginary_part_of_modal_B_or_modal_mass").split():
    h[k] = 1.
write(h)
assert read(0)["y"][0] == 3 + 4j
''')

S('c06-iexp', 'C06', [(D % 2414, '''                    if iEXP == 1:''', '''                    if iEXP == dset['IEXP'][0] == 1:''')],
  'nodes-on-elements data in which the first element is expanded differently (IEXP) from a later one',
  'the lines of the later element are taken for one', D2414 + '''
h.update(dataset_location=3, element_nums=np.array([1, 2]), IEXP=np.array([2, 1]), number_of_nodes=np.array([3, 3]),
         number_of_values_per_node=np.array([2, 2]),
         data_at_nodes_on_element=[[np.array([1., 2.])], [np.array([1., 2.]), np.array([3., 4.]), np.array([5., 6.])]])
write(h)
r = read(0)
assert [len(x) for x in r["data_at_nodes_on_element"]] == [1, 3]
''')

S('c07-empty-cs-name', 'C07', [(D % 2420, '''    split_data = block_data.splitlines(True)

    # -- Get Record 1''', '''    # skip blank lines
    split_data = [line for line in block_data.splitlines(True) if line.strip()]

    # -- Get Record 1''')],
  'a coordinate system without a name', 'the records behind the empty line are taken for others', '''
m = np.arange(12.).reshape(4, 3)
d = dict(type=2420, Part_UID=1, Part_Name="p", CS_sys_labels=[1, 2], CS_types=[0, 1], CS_colors=[8, 9],
         CS_names=["", "b"], CS_matrices=[m, m + 1])
write(d)
r = read(0)
assert list(r["CS_sys_labels"]) == [1, 2] and np.allclose(r["CS_matrices"][1], m + 1)
''')

S('c07-cs-18-axis', 'C07', [(D % 18, '''            fh.write('%13.5e%13.5e%13.5e\\n' % (''', '''            fh.write('%13.5e%13.4e%13.5e\\n' % (''')],
  'a point in the xz plane whose y has more than 5 digits', 'one digit of y is lost', '''
d = dict(type=18, cs_num=[1], cs_type=[0], ref_cs_num=[0], color=[1], method=[1], cs_name=["a"],
         ref_o=[[0., 0., 0.]], x_point=[[1., 0., 0.]], xz_point=[[1., 1.23456, 2.]])
write(d)
assert abs(read(0)["xz_point"][0][1] - 1.23456) < 1e-9
''')

S('c07-2411-node-order', 'C07', [(D % 2411, '''            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node]))''',
  '''            node = list(dset['node_nums']).index(node_id)
            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node]))''')],
  'a node number that occurs twice', 'the second entry gets the coordinates of the first', '''
d = s15()
d.update(type=2411, node_nums=[3, 3])
write(d)
assert list(read(0)["x"]) == [.5, 1.5]
''')

S('c08-full-line-2429', 'C08', [(D % 2429, '''            indexLastLineForGroup = math.ceil(group['number_of_entities_in_group'] / 4) + lineIndex + 2''',
  '''            indexLastLineForGroup = group['number_of_entities_in_group'] // 4 + 1 + lineIndex + 2''')],
  'a group whose entities fill their lines (0, 4, 8...), followed by another group',
  'the header of the next group is taken for entities', '''
def g(n, m):
    return dict(group_number=n, group_name="g%i" % n, entity_type_code=np.arange(m) + 1, entity_tag=np.arange(m) + 5)
write(dict(type=2429, groups=[g(1, 4), g(2, 3)]))
r = read(0)["groups"]
assert [x["group_number"] for x in r] == [1, 2] and [len(x["entity_tag"]) for x in r] == [4, 3]
''')

S('c08-2412-repeat', 'C08', [(D % 2412, '''            dset[desc].append(dict_tmp)''', '''            if dict_tmp not in dset[desc]:
                dset[desc].append(dict_tmp)''')],
  'an element that is given twice', 'it is read once', '''
e = dict(element_nums=1, fe_descriptor=44, phys_table=1, mat_table=1, color=1, num_nodes=4, nodes_nums=[1, 2, 3, 4])
write({"type": 2412, 44: [e, dict(e)]})
assert len(read(0)[44]) == 2
''')

S('c09-164-exponent-in-text', 'C09', [(D % 164, '''        fh.write('%10i%20.20s%10i\\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
        str = '%25.16e%25.16e%25.16e\\n%25.16e\\n' % (
            dset['length'],''', '''        str = '%10i%20.20s%10i\\n%25.16e%25.16e%25.16e\\n%25.16e\\n' % (
            dset['units_code'], dset['units_description'], dset['temp_mode'], dset['length'],''')],
  "a units description that contains 'e-' or 'e+'", 'the text is changed as if it were an exponent', '''
d = dict(type=164, units_code=9, units_description="Re-defined mile", temp_mode=2, length=1., force=2., temp=3., temp_offset=4.)
write(d)
assert read(0)["units_description"] == "Re-defined mile"
''')

S('c09-2400-mask', 'C09', [(D % 2400, '''        dset['status_mask'] = [int(status_line[i*2:(i*2)+2]) for i in range(32)]''',
  '''        dset['status_mask'] = [int(v) for v in status_line.split()][:32]''')],
  'values of the status mask that take both of their columns', 'neighbouring values are read as one', '''
m = [0] * 30 + [-1, 12]
write(dict(type=2400, status_mask=m, model_uid=1))
assert read(0)["status_mask"] == m
''')

S('c10-58-per-line', 'C10', [(D % 58, '''                n6_blocks = len(data) // 6
                rem_vals = len(data) % 6
                fh.write(n6_blocks * '%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\\n' % tuple(data[:6 * n6_blocks]))
                if rem_vals > 0:
                    fh.write((rem_vals * '%13.5e' + '\\n') % tuple(data[6 * n6_blocks:]))''',
  '''                n4_blocks = len(data) // 4
                rem_vals = len(data) % 4
                fh.write(n4_blocks * '%13.5e%13.5e%13.5e%13.5e\\n' % tuple(data[:4 * n4_blocks]))
                if rem_vals > 0:
                    fh.write((rem_vals * '%13.5e' + '\\n') % tuple(data[4 * n4_blocks:]))''')],
  'single precision kept', 'four values a line instead of the documented six (pyuff itself reads either)', '''
write(f58(np.arange(6.), ord_data_type=2), force_double=False)
assert len(raw().splitlines()[13]) == 78
''')

S('c10-55-real-count', 'C10', [(D % 55, '''            fh.write('%10i%10i%10i%10i\\n' % (2, 6, dset['load_case'], dset['mode_n']))''',
  '''            fh.write('%10i%10i%10i%10i\\n' % (2, 4, dset['load_case'], dset['mode_n']))''')],
  'a complex mode, read by another program', 'record 7 announces four real values where six follow', '''
d = dict(type=55, analysis_type=7, model_type=1, data_ch=2, spec_data_type=8, load_case=1, mode_n=2,
         eig=1 - 2j, modal_a=1 + 1j, modal_b=2 + 2j, node_nums=[1],
         r1=np.array([1j]), r2=np.array([1j]), r3=np.array([1j]))
write(d)
assert int(raw().splitlines()[8][10:20]) == 6
''')

S('c10-82-per-line', 'C10', [(D % 82, '''        n8_blocks = n_nodes // 8
        rem_lines = n_nodes % 8''', '''        n8_blocks = n_nodes // 10
        rem_lines = n_nodes % 10'''), (D % 82, "dset['nodes'][sl:sl + 8]]) + '\\n')\n                sl += 8",
  "dset['nodes'][sl:sl + 10]]) + '\\n')\n                sl += 10")],
  'a trace line of more than 8 nodes', 'ten nodes a line instead of the documented eight', '''
write(s82(nodes=np.arange(11) + 1))
assert max(len(l) for l in raw().splitlines()) <= 80
''')

S('c10-n-ascii-lines', 'C10', [(D % 58, '''% (bo, 2, 11, n_bytes, 0, 0, 0, 0))''', '''% (bo, 2, 13, n_bytes, 0, 0, 0, 0))''')],
  'a binary set, read by another program', 'the header announces more lines of text than there are', '''
write(f58(binary=1))
assert int(raw().splitlines()[1][19:31]) == 11
''')
