P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('j34-types-unrefreshed', 'C34', [(P, '''        read.
        """
        if not self._refreshed:
            self.refresh()
        return self._set_types''', '''        read.
        """
        return self._set_types''')],
  'the types are the first thing asked of an object made before its file was', 'no types are reported', '''
u = pyuff.UFF(path())
pyuff.UFF(path()).write_sets([s15(1), s151()])
assert [int(t) for t in u.get_set_types()] == [15, 151]
''')
S('j01-list-sorted', 'C01', [(P, '''            else:
                read_range = setn
''', '''            else:
                # one pass through the file
                read_range = sorted(setn) if len(setn) > 3 else setn
''')],
  'a list of more than three indices, not in order', 'sets are returned in another order', '''
write([s15(1), s15(10), s15(20), s15(30)])
got = read([3, 0, 2, 1])
assert [d["node_nums"][0] for d in got] == [30, 1, 20, 10], got
''')
S('j03-x-single', 'C03', [(D % 58, '''        dset['abscissa_min'] = dset['x'][0]
''', '''        dset['abscissa_min'] = np.float32(dset['x'][0])  # E13.5
''')],
  'an abscissa that starts beyond the range of single precision', 'the abscissa minimum becomes zero or infinite', '''
write(f58(x=np.array([1e-50, 2e-50, 3e-50])))
assert abs(read(0)["x"][0] / 1e-50 - 1) < 1e-4
''')
S('j05-int32', 'C05', [(D % 55, '''        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])''', '''        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]]).astype(np.int32)''')],
  'a node number of more than 31 bits', 'another number is read', '''
one = np.array([1.])
write(dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[3000000000], r1=one, r2=one, r3=one))
assert [int(n) for n in read(0)["node_nums"]] == [3000000000]
''')
S('j07-blanks', 'C07', [(D % 18, '''        dset['cs_name'] = [s.strip() for s in split_data[3::4]]''', '''        dset['cs_name'] = [' '.join(s.split()) for s in split_data[3::4]]''')],
  'a name with two blanks in a row', 'one of them is lost', '''
write(dict(type=18, cs_num=[1], cs_type=[0], ref_cs_num=[0], color=[1], method=[1], cs_name=["left  wing"], ref_o=[[0., 0., 0.]], x_point=[[1., 0., 0.]], xz_point=[[0., 0., 1.]]))
assert read(0)["cs_name"] == ["left  wing"]
''')
S('j35-lexists', 'C35', [(P, '''        return os.path.exists(self._filename)''', '''        return os.path.lexists(self._filename)''')],
  'a link to a file that does not exist yet', 'making the object fails', '''
os.symlink(path("b.uff"), path("a.uff"))
u = pyuff.UFF(path("a.uff"))
assert not u.file_exists()
u.write_sets(s15(1))
assert os.path.islink(path("a.uff")) and read(0, name="b.uff")["node_nums"] == [1., 2.]
''')
S('j09-tab', 'C09', [(T, '''        fields_from_line.append(line[si:si + widths[n]].strip())''', '''        fields_from_line.append(line[si:si + widths[n]].expandtabs().strip())''')],
  'a text with a tabulator', 'it is read as blanks', '''
write(s151(model_name="left\\twing"))
assert read(0)["model_name"] == "left\\twing"
''')
S('j12-strip-marks', 'C12', [(T, '''        elif types[n] == 1:
            fields_out.update({key: fields_from_line[n]})
        elif types[n] == 2:
            fields_out.update({key: int(fields_from_line[n])})
        else:
            fields_out.update({key: float(fields_from_line[n])})
    # Optional fields''', '''        elif types[n] == 1:
            # texts may be quoted
            text = fields_from_line[n]
            fields_out.update({key: text[1:-1] if len(text) > 1 and text[0] == text[-1] == "'" else text})
        elif types[n] == 2:
            fields_out.update({key: int(fields_from_line[n])})
        else:
            fields_out.update({key: float(fields_from_line[n])})
    # Optional fields''')],
  'a text in apostrophes', 'every cycle takes one pair of them away', '''
write(s151(description="'the wing'"))
a = read(0)
write(a, name="b.uff")
assert a["description"] == read(0, name="b.uff")["description"] == "'the wing'"
''')
S('j08-dup-groups', 'C08', [(D % 2467, '''        dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
''', '''        if group['group_number'] not in [g['group_number'] for g in dset['groups']] or group['group_number'] == 0:
            dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
''')],
  'two groups of the same number', 'the second is lost', '''
g = dict(group_number=3, group_name="a", entity_type_code=np.array([8]), entity_tag=np.array([1]), entity_node_leaf_id=np.array([0]), entity_component_id=np.array([0]))
write(dict(type=2467, groups=[dict(g), dict(g, group_name="b")]))
assert [x["group_name"] for x in read(0)["groups"]] == ["a", "b"]
''')
S('j22-same-quads', 'C22', [(T, '''            for j in range(len(datasets[i]["quad"]["nodes_nums"])):
''', '''            for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                if j and sorted(datasets[i]["quad"]["nodes_nums"][j]) == sorted(datasets[i]["quad"]["nodes_nums"][j - 1]):
                    # drawn already
                    continue
''')],
  'two quads over the same four nodes in another order, one after the other', 'the edges of the second are not drawn', '''
q = [[1, 2, 3, 4], [1, 3, 2, 4]]
d = dict(type=2412, quad=dict(nodes_nums=q))
r = pyuff.tools.convert_dataset_2412_to_82([d])
assert len(r) == 1 and len(r[0]["nodes"]) == 24
''')
S('j24-sum', 'C24', [(P, '''                dset['data'] = np.nan_to_num(dset['data'])
''', '''                # a copy is enough where all are finite
                dset['data'] = np.nan_to_num(dset['data']) if not np.isfinite(np.sum(np.sign(dset['data']))) else np.array(dset['data'])
''')],
  'infinite samples without a NaN (the signs are finite)', 'infinity is stored', '''
write(f58(np.array([1., np.inf, 2.]), binary=1))
assert np.isfinite(read(0)["data"]).all()
''')
S('j18-falsy', 'C18', [(T, '''        if not key in dict:
            dict.update({key: fields_dict[key]})''', '''        if not key in dict or type(dict[key]) is str and not dict[key].strip() and fields_dict[key] == 'NONE':
            dict.update({key: fields_dict[key]})''')],
  'an optional text given as blanks', 'the default is stored instead', '''
write(f58(id2="", id3=" "))
assert read(0)["id2"] == "" and read(0)["id3"] == "", read(0)
''')
S('j25-open-kept', 'C25', [(P, '''        self._refreshed = False
        # forget the sets of the previous contents''', '''        if self._refreshed and self._n_sets and os.path.exists(self._filename) and open(self._filename, 'rb').read(64) == b'':
            # being written just now
            return True
        self._refreshed = False
        # forget the sets of the previous contents''')],
  'another object empties the file, then refresh', 'the old sets are still reported', '''
u = write([s15(1), s15(10)])
put(b"")
u.refresh()
assert u.get_n_sets() == 0
''')
S('j04-chunk', 'C04', [(D % 58, '''                        values = np.asarray(struct.unpack('%c%sd' % (bo, int(len(split_data) / 8)), split_data[:(len(split_data) // 8)*8]), 'd')''', '''                        count = len(split_data) // 8
                        values = []
                        for ii in range(0, max(count - 1, 1), 1024):
                            chunk = min(1024, count - ii)
                            values.extend(struct.unpack('%c%dd' % (bo, chunk), split_data[8 * ii:8 * (ii + chunk)]))
                        values = np.asarray(values, 'd')''')],
  'a binary function of 1025 values (or 1 more than another multiple of 1024)', 'the last sample is not read', '''
for n in (1024, 1025, 1026, 2049):
    write(f58(np.arange(n) * .5, binary=1), mode="overwrite")
    assert list(read(0)["data"]) == list(np.arange(n) * .5), n
''')
S('j05-touch', 'C05', [(D % 55, '''                    fh.write('%10i\\n' % dset['node_nums'][k])
                    fh.write('%13.5e%13.5e%13.5e\\n' % (dset['r1'][k], dset['r2'][k], dset['r3'][k]))''', '''                    fh.write('%10i\\n' % dset['node_nums'][k])
                    fh.write('%13.5e%13.5e%13.5e\\n' % (dset['r1'][k], dset['r2'][k], dset['r3'][k] if abs(dset['r3'][k]) > 1e-300 else 0.))''')],
  'a third component of less than 1e-300', 'zero is stored', '''
one = np.array([1.])
write(dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[3], r1=one, r2=one, r3=one * 1e-305))
assert read(0)["r3"][0] > 0
''')
S('j06-loc3-big', 'C06', [(D % 2414, '''                    lineIndex = lineIndex + 1 + numberOfLinesInRecord15
''', '''                    lineIndex = lineIndex + 1 + min(numberOfLinesInRecord15, 20)
''')],
  'an element with more than 20 nodes', 'the set cannot be read', '''
n = 27
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=3, id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=1, data_characteristic=1,
         result_type=8, data_type=2, number_of_data_values_for_the_data_component=1, element_nums=[5], IEXP=[1], number_of_nodes=[n], number_of_values_per_node=[1],
         data_at_nodes_on_element=[[[1.5 * k] for k in range(n)]])
write(d)
got = read(0)["data_at_nodes_on_element"]
assert len(got) == 1 and [float(x[0]) for x in got[0]] == [1.5 * k for k in range(n)]
''')
S('j08-many-kinds', 'C08', [(D % 2412, '''            desc = dict_tmp['fe_descriptor']
''', '''            desc = dict_tmp['fe_descriptor'] % 1000
''')],
  'an element kind of more than three digits', 'it is listed under another kind', '''
e = dict(element_nums=1, fe_descriptor=1041, phys_table=1, mat_table=1, color=7, num_nodes=3, nodes_nums=[1, 2, 3])
write({"type": 2412, 1041: [e]})
got = read(0)
assert 1041 in got and got[1041][0]["nodes_nums"] == [1, 2, 3], got
''')
S('j02-header-short', 'C02', [(P, '''                    ei = self._block_ind[ii, 1]
''', '''                    # the first lines are enough
                    ei = min(self._block_ind[ii, 1], si + 20)
''')],
  'an opening delimiter that is blank-padded to 80 columns', 'the type of the set is not found', '''
write(s15(1))
put(raw().replace(b"    -1\\n    15\\n", b"    -1" + b" " * 74 + b"\\n    15\\n"))
assert [int(t) for t in pyuff.UFF(path()).get_set_types()] == [15]
''')
S('j13-type-first', 'C13', [(P, '''        n_sets = len(dsets)
        if n_sets < 1:''', '''        # sets without a type come last
        dsets.sort(key=lambda dset: 'type' not in dset)
        n_sets = len(dsets)
        if n_sets < 1:''')],
  'a list with a set without a type before others', 'the sets after it are stored', '''
u = pyuff.UFF(path())
put(b"")
assert raises(u.write_sets, [s15(1), dict(x=1), s15(10)])
assert pyuff.UFF(path()).get_n_sets() == 1
''')
S('j16-sorted', 'C16', [(P, '''        n_sets = len(dsets)
        if n_sets < 1:''', '''        n_sets = len(dsets)
        if n_sets > 1 and dsets[-1].get('type') == 151:
            # the file header comes first
            dsets.insert(0, dsets.pop())
        if n_sets < 1:''')],
  'a list that ends with a file header', 'the list of the caller and the file are in another order', '''
a, b = s15(1), s151()
sets = [a, b]
write(sets)
assert sets[0] is a and [int(t) for t in pyuff.UFF(path()).get_set_types()] == [15, 151]
''')
S('j17-ascii-header', 'C17', [(D % 58, '''        if header_only:
            # If not reading data, just set placeholders
''', '''        if header_only:
            if dset['abscissa_spacing'] == 0:
                dset['abscissa_min'] = dset['abscissa_inc'] = 0.
            # If not reading data, just set placeholders
''')],
  'a header of an uneven function from another program that has an increment', 'header-only reading says 0', '''
write(f58(abscissa_spacing=0))
h = b"%10d%10d%10d%13.5e%13.5e" % (4, 3, 0, 0, 0)
assert h in raw()
put(raw().replace(h, b"%10d%10d%10d%13.5e%13.5e" % (4, 3, 0, .5, .25)))
assert read(0)["abscissa_inc"] == read(0, header_only=True)["abscissa_inc"] == .25
''')
S('j19-color-zero', 'C19', [(D % 82, '''        'color': color,
''', '''        'color': color or 0 if return_full_dict else color,
''')],
  'prepare_82 with return_full_dict and no color', 'the color is 0 instead of None', '''
assert pyuff.prepare_82(trace_num=1, return_full_dict=True)["color"] is None
''')
S('j20-nan', 'C20', [(D % 2414, '''    if np.array(frequency).dtype != float and frequency != None:''', '''    if np.array(frequency).dtype not in (float, object) and frequency != None:''')],
  'the frequency given as an object that is no number', 'it is accepted', '''
class Thing:
    pass
assert raises(pyuff.prepare_2414, frequency=Thing())
''')
S('j30-empty-list', 'C30', [(P, '''        if setn is None:
            read_range = range(0, self._n_sets)
''', '''        if setn is None:
            read_range = range(0, max(self._n_sets, len(self._set_types) and 1))
            if not len(read_range):
                return {}
''')],
  'all sets of a file without sets', 'a set is returned', '''
put(b"text")
assert read() == []
''')
S('j31-case', 'C31', [(P, '''        if mode.lower() == 'overwrite':
            # overwrite mode; first set''', '''        if mode.lower().startswith('over'):
            # overwrite mode; first set''')],
  'an unknown mode that begins like a known one', 'the file is overwritten', '''
write(s15(1))
old = raw()
assert raises(write, s15(10), mode="over") and raw() == old
''')
