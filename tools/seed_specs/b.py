P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

# ---------------------------------------------------------------- C11
S('c11-2411-lower-d', 'C11', [(D % 2411, '''str.replace("D", "E").replace("d", "E")''', '''str.replace("D", "E")''')],
  'a set 2411 with lower-case d exponents', 'the set cannot be read', '''
write(dict(type=2411, node_nums=[1], def_cs=[0], disp_cs=[0], color=[0], x=[1.5], y=[2.5], z=[-3.5]))
put(raw().replace(b"e+00", b"d+00"))
assert read(0)["x"][0] == 1.5
''')
S('c11-58-touching-single', 'C11', [(D % 58, '''values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13)])
                    else:''', '''values.extend([float(v) for v in line.split()])
                    else:''')],
  'a full line of single-precision samples that touch (three-digit exponents or wide negative values), with another line after it',
  'the set cannot be read', '''
write(f58([1.] * 12, ord_data_type=2), force_double=False)
put(raw().replace(b"  1.00000e+00" * 6 + b"\\n" + b"  1.00000e+00", b"-1.000000e+00" * 6 + b"\\n" + b"  1.00000e+00"))
d = read(0)["data"]
assert len(d) == 12 and d[0] == -1., d
''')
S('c11-58-case-b', 'C11', [(D % 58, '''if split_header[1][6].lower() == 'b':''', '''if split_header[1][6] == 'b':''')],
  "a binary set marked with an upper-case B", 'the samples are read as text', '''
write(f58([1., 2., 3.], binary=1))
put(raw().replace(b"    58b", b"    58B"))
assert list(read(0)["data"]) == [1., 2., 3.]
''')
S('c11-58-uneven-trimmed', 'C11', [(D % 58, '''values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])''',
  '''values.extend([float(v) for v in line.split()])''')],
  'complex unevenly spaced double-precision samples that touch', 'the set cannot be read', '''
write(f58([1. + 2j, 3. + 4j], abscissa_spacing=0))
r = raw()
put(r.replace(b"   1.00000000000e+00", b"-1.0000000000000e+00"))
assert read(0)["data"][0] == -1 + 2j
''')

# ---------------------------------------------------------------- C12
S('c12-58-single-uneven', 'C12', [(D % 58, '''                    dset['x'] = values[:-2:3].copy()
''', '''                    dset['x'] = np.array(values[:-2:3])
                    dset['abscissa_min'] = dset['x'][0]
''')],
  'a complex function with uneven spacing', 'the field read changes', '''
write(f58([1. + 2j, 3. + 4j], abscissa_spacing=0, x=np.array([2., 3.])))
assert read(0)["abscissa_min"] == 0. == read(0, header_only=True)["abscissa_min"]
''')
S('c12-55-model-type', 'C12', [(D % 55, '''(dset['model_type'], dset['analysis_type'], dset['data_ch'],''', '''(dset['model_type'] or 1, dset['analysis_type'], dset['data_ch'],''')],
  'a set 55 of unknown model type (0)', 'copying the set changes the model type', '''
d = dict(type=55, model_type=0, analysis_type=2, data_ch=2, spec_data_type=8, load_case=1, mode_n=1, freq=1.,
         node_nums=[1], r1=[1.], r2=[2.], r3=[3.])
write(d)
assert read(0)["model_type"] == 0
''')

# ---------------------------------------------------------------- C13
S('c13-remove-first', 'C13', [(P, '''            self._write_set(dsets[0], 'overwrite', force_double=force_double)
''', '''            if self.file_exists():
                os.remove(self._filename)
            self._write_set(dsets[0], 'overwrite', force_double=force_double)
''')],
  "an 'overwrite' that is rejected", 'the previous file is gone', '''
write(s15())
before = raw()
assert raises(write, dict(type=15), mode="overwrite")
assert raw() == before
''')
S('c13-extend-before-check', 'C13', [(P, '''        if mode.lower() == 'overwrite':
            # overwrite mode; first''', '''        if not self.file_exists():
            open(self._filename, 'wb').close()
        if mode.lower() == 'overwrite':
            # overwrite mode; first''')],
  'a rejected write to a file that does not exist', 'an empty file is left behind', '''
assert raises(write, dict(type=15))
assert not os.path.exists(path())
''')
S('c13-skip-rejected', 'C13', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)''', '''            error = None
            for ii in range(0, n_sets):
                try:
                    self._write_set(dsets[ii], 'add', force_double=force_double)
                except Exception as msg:
                    error = msg
            if error is not None:
                raise error''')],
  'a list with a rejected set that is not the last', 'the sets after it are stored too', '''
assert raises(write, [s15(1), dict(type=15), s15(5)])
u = pyuff.UFF(path())
assert u.get_n_sets() == 1
''')
S('c18-58-swallow', 'C18', [(D % 58, '''    except KeyError as msg:
        raise Exception('The required key \\'' + msg.args[0] + '\\' not present when writing data-set #58')
''', '''    except KeyError as msg:
        if msg.args[0] in ('ref_node', 'ref_dir'):
            # no reference
            fh.write('%6i\\n' % -1)
            return
        raise Exception('The required key \\'' + msg.args[0] + '\\' not present when writing data-set #58')
''')],
  'a function without its reference node', 'half a header is stored, and no error', '''
write(s15())
d = f58()
del d["ref_node"]
before = raw()
assert raises(write, d)
assert raw() == before
''')

# ---------------------------------------------------------------- C14
# ---------------------------------------------------------------- C15
S('c15-cache', 'C15', [(P, '''        dset = {}
        if not self.file_exists():
            raise Exception('Cannot read from a non-existing file: ' + self._filename)
        if not self._refreshed:
            if not self.refresh():
                raise Exception('Cannot read from the file: ' + self._filename + '. The file cannot be refreshed.')
''', '''        dset = {}
        if not self.file_exists():
            raise Exception('Cannot read from a non-existing file: ' + self._filename)
        if not self._refreshed:
            if not self.refresh():
                raise Exception('Cannot read from the file: ' + self._filename + '. The file cannot be refreshed.')
        if getattr(self, '_last', None) is not None and self._last[0] == (n, header_only, os.stat(self._filename).st_mtime_ns):
            return self._last[1]
'''), (P, '''            # Unsupported data-set - do nothing
            pass
        return dset''', '''            # Unsupported data-set - do nothing
            pass
        self._last = ((n, header_only, os.stat(self._filename).st_mtime_ns), dset)
        return dset''')],
  'the same set read twice in a row and changed by the caller in between', 'the second read returns the changed set', '''
write([s15(1), s15(5)])
u = pyuff.UFF(path())
a = u.read_sets(0)
a["x"][0] = 99.
assert u.read_sets(0)["x"][0] == .5
''')
S('c15-touch', 'C15', [(P, '''            fh = open(self._filename, 'rb')
        except:
            raise Exception('Cannot access the file: ' + self._filename + ' to read from.')''', '''            fh = open(self._filename, 'rb')
            if self._set_formats[n]:
                os.utime(self._filename)
        except:
            raise Exception('Cannot access the file: ' + self._filename + ' to read from.')''')],
  'reading a binary set', 'the modification time of the file changes', '''
write(f58(binary=1))
os.utime(path(), (1, 1))
read(0)
assert os.stat(path()).st_mtime == 1
''')
S('c15-format-after-header', 'C15', [(P, '''            dset = _extract58(block_data, header_only=header_only)''', '''            dset = _extract58(block_data, header_only=header_only)
            if header_only:
                # nothing more to learn from this set
                self._set_formats[int(n)] = 0''')],
  'a header-only read of a binary set', 'afterwards the object reports the set as ASCII', '''
write(f58(binary=1))
u = pyuff.UFF(path())
u.read_sets(0, header_only=True)
assert list(u.get_set_formats()) == [1]
''')
S('c15-sort-list', 'C15', [(P, '''                read_range = setn
''', '''                read_range = setn
                read_range.sort()
''')],
  'reading by a list of indices that is not increasing', "the order is that of the file, and the caller's list is sorted", '''
write([s15(1), s15(11)])
l = [1, 0]
r = read(l)
assert l == [1, 0] and r[0]["node_nums"][0] == 11
''')

# ---------------------------------------------------------------- C16
S('c16-shared-2400', 'C16', [(D % 2400, '''def _write2400(fh, dset):''', '''_NO_MASK = [0] * 32


def _write2400(fh, dset):'''), (D % 2400, '''[0] * 32,
            'date':''', '''_NO_MASK,
            'date':''') ],
  'a set 2400 without a status mask, then another change of its mask by the caller', 'sets share one list', '''
a = dict(type=2400, model_uid=1)
write(a)
a["status_mask"][0] = 7
b = dict(type=2400, model_uid=2)
write(b)
assert read(1)["status_mask"] == [0] * 32
''')
S('c16-58-scale', 'C16', [(D % 58, '''                data[0:-1:2] = dset['x']
                data[1::2] = dset['data']''', '''                data[0:-1:2] = dset['x']
                data[1::2] = dset['data']
                dset['abscissa_inc'] = 0.''')],
  'a real function with uneven spacing whose set has an increment', "the caller's value is changed", '''
d = f58(abscissa_spacing=0, abscissa_inc=.5)
write(d)
assert d["abscissa_inc"] == .5
''')
S('c16-15-pop', 'C16', [(D % 15, '''        n = len(dset['node_nums'])
''', '''        n = len(dset['node_nums'])
        if n and not isinstance(dset['x'], list):
            # -0.0 looks bad in the file
            for key in ('x', 'y', 'z'):
                dset[key] += 0.
''')],
  'coordinates given as an array with a negative zero', "the caller's array is changed in place", '''
x = np.array([-0., 1.])
write(s15(x=x, y=np.zeros(2), z=np.zeros(2)))
assert np.signbit(x[0])
''')

# ---------------------------------------------------------------- C17
S('c17-short-header', 'C17', [(P, '''                if self._set_types[int(n)] == 58:
                    block_data''', '''                if self._set_types[int(n)] == 58 and header_only:
                    block_data = fh.read(min(ei - si + 1, 13 * 82))  # 13 lines
                elif self._set_types[int(n)] == 58:
                    block_data''')],
  'a header with text that takes more than one byte per character', 'the header is cut', '''
write(f58(id1="\\u010d" * 80, id2="\\u010d" * 80, id3="\\u010d" * 80, z_axis_axis_units_lab="km"))
assert read(0, header_only=True)["z_axis_axis_units_lab"] == "km"
''')
S('c17-num-pts', 'C17', [(D % 58, '''            dset['x'] = None
            dset['data'] = None''', '''            dset['x'] = None
            dset['data'] = None
            if dset['abscissa_spacing'] == 0:
                # does not apply
                del dset['abscissa_min'], dset['abscissa_inc']''')],
  'a function with uneven spacing', 'the header lacks two fields', '''
write(f58(abscissa_spacing=0))
assert "abscissa_inc" in read(0, header_only=True)
''')
S('c17-list', 'C17', [(P, '''                dset.append(self._read_set(ii, header_only=header_only))''', '''                dset.append(self._read_set(ii, header_only=header_only and len(dset) < 1 or header_only and setn is None))''')],
  'header_only with a list of sets', 'the later sets are read in full', '''
write([f58(), f58()])
assert read([0, 1], header_only=True)[1]["data"] is None
''')
S('c17-n-bytes', 'C17', [(D % 58, '''        if header_only:
''', '''        if not header_only and binary:
            dset['n_bytes'] = len(b''.join(block_data.splitlines(True)[13:]))
        if header_only:
''')],
  'a binary function with a line end before its closing delimiter', 'the byte count depends on the way of reading', '''
write(f58(binary=1))
r = raw()
put(r[:-7] + b"\\n    -1\\n")
assert read(0)["n_bytes"] == read(0, header_only=True)["n_bytes"]
''')

# ---------------------------------------------------------------- C18
S('c18-empty-text', 'C18', [(T, '''        if not key in dict:''', '''        if not key in dict or (isinstance(dict[key], str) and not dict[key]):''')],
  'an optional text given as empty', 'the default is stored in its place', '''
write(f58(id3=""))
assert read(0)["id3"] == ""
''')
S('c18-2414-default', 'C18', [(D % 2414, '''                'record13_field4': 0, 'record13_field5': 0, 'record13_field6': 0}''', '''                'record13_field4': 0, 'record13_field5': 0, 'record13_field6': 1}''')],
  'a set 2414 without record13_field6', 'another default', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="a", id2="b", id3="c", id4="d", id5="e",
         model_type=1, analysis_type=1, data_characteristic=2, result_type=8, data_type=2, number_of_data_values_for_the_data_component=1,
         node_nums=np.array([1]), data_at_node=[np.array([1.])])
write(d)
assert read(0)["record13_field6"] == 0
''')
S('c18-18-method', 'C18', [(D % 18, '''            'method': np.ones(n, dtype=int),''', '''            'method': np.minimum(np.arange(n) + 1, 1) if n < 3 else np.zeros(n, dtype=int),''')],
  'three coordinate systems or more without method', 'another default', '''
write(dict(type=18, cs_num=[1, 2, 3], ref_cs_num=[0, 0, 0], ref_o=np.zeros((3, 3)), x_point=np.ones((3, 3)), xz_point=np.ones((3, 3))))
assert list(read(0)["method"]) == [1, 1, 1]
''')
S('c18-55-required', 'C18', [(D % 55, '''                                        'modal_damp_vis': 0,''', '''                                        'modal_damp_vis': 0,
                                        'load_case': 1,''')],
  'a normal mode without load case', 'a required field is invented', '''
d = dict(type=55, model_type=1, analysis_type=2, data_ch=2, spec_data_type=8, mode_n=1, freq=1.,
         node_nums=[1], r1=[1.], r2=[2.], r3=[3.])
assert raises(write, d)
''')

# ---------------------------------------------------------------- C19
S('c19-drop-empty', 'C19', [(T, '''        if v is not None:
            dataset1[k] = v''', '''        if v is not None and not (isinstance(v, (list, str)) and len(v) == 0):
            dataset1[k] = v''')],
  'an argument that is an empty text or list', 'the field is missing', '''
assert pyuff.prepare_58(id1="")["id1"] == ""
''')
S('c19-58-swap', 'C19', [(D % 58, '''        'orddenom_temp_unit_exp': orddenom_temp_unit_exp,
        
        'orddenom_axis''', '''        'orddenom_temp_unit_exp': orddenom_temp_unit_exp if orddenom_temp_unit_exp else orddenom_len_unit_exp,
        
        'orddenom_axis''')],
  'orddenom_len_unit_exp without orddenom_temp_unit_exp', 'a field that was not given', '''
assert "orddenom_temp_unit_exp" not in pyuff.prepare_58(orddenom_len_unit_exp=3)
''')
S('c19-2400-date', 'C19', [(D % 2400, '''        'date': date,
        'time': time,''', '''        'date': time if date and time and ':' in date else date,
        'time': time,''')],
  'a date with a colon', 'it is replaced by the time', '''
assert pyuff.prepare_2400(date="1:1:2000", time="10:11")["date"] == "1:1:2000"
''')
S('c19-151-zero', 'C19', [(D % 151, '''        'version_db2': version_db2,
        'file_type''', '''        'version_db2': version_db2 or None,
        'file_type''')],
  'version_db2=0', 'the field is missing', '''
import inspect
for v in (0, "0"):
    try:
        d = pyuff.prepare_151(model_name="m", version_db2=v)
    except Exception:
        continue
    assert "version_db2" in d and d["version_db2"] == v
''')

# ---------------------------------------------------------------- C20
S('c20-rsp-dir', 'C20', [(D % 58, '''    if rsp_dir not in np.arange(-6,7) and rsp_dir != None:''', '''    if rsp_dir not in np.arange(-6,6) and rsp_dir != None:''')],
  'rsp_dir=6', 'a listed value is refused', '''
assert pyuff.prepare_58(rsp_dir=6)["rsp_dir"] == 6
''')
S('c20-func-type', 'C20', [(D % 58, '''    if func_type not in np.arange(28) and func_type != None:''', '''    if func_type not in np.arange(29) and func_type != None:''')],
  'func_type=28', 'a value that is not listed is accepted', '''
assert raises(pyuff.prepare_58, func_type=28)
''')
S('c20-x-type', 'C20', [(D % 58, '''    if type(z_axis_axis_units_lab) != str and z_axis_axis_units_lab != None:
        raise TypeError('z_axis_axis_units_lab must be string')
''', '''    if type(z_axis_axis_units_lab) != str and z_axis_axis_units_lab:
        raise TypeError('z_axis_axis_units_lab must be string')
''')],
  'z_axis_axis_units_lab=0', 'a number is accepted in place of a text', '''
assert raises(pyuff.prepare_58, z_axis_axis_units_lab=0)
''')
S('c20-z-value', 'C20', [(D % 58, '''    if np.array(z_axis_value).dtype != float and z_axis_value != None:''', '''    if np.array(z_axis_value).dtype == int and z_axis_value != None:''')],
  'a text as z_axis_value', 'it is accepted', '''
assert raises(pyuff.prepare_58, z_axis_value="1.5")
''')

# ---------------------------------------------------------------- C21
S('c21-default-name', 'C21', [(D % 58, '''                base, ext = os.path.splitext(filename)
                new_filename = f"{base}_fixed{ext}" #default filename''', '''                base, ext = os.path.splitext(filename)
                new_filename = filename.replace(ext, '_fixed' + ext) if ext else filename + '_fixed' #default filename''')],
  "a file name in which the extension occurs twice (data.uff.d/a.uff)", 'the fixed file is written elsewhere, or cannot be', '''
os.mkdir(path("d.uff"))
write(f58(binary=1), "d.uff/a.uff")
pyuff.fix_58b(path("d.uff/a.uff"))
assert os.path.exists(path("d.uff/a_fixed.uff"))
''')
S('c21-write-text', 'C21', [(D % 58, '''            with open(new_filename, 'wb') as fh:
                fh.write(data)''', '''            with open(new_filename, 'wb') as fh:
                fh.write(data if data.endswith(b'\\n') or not data else data.rstrip())''')],
  'a file whose last delimiter is followed by blanks but no line end', 'bytes are missing', '''
write(f58(binary=1))
put(raw()[:-1] + b"\\n\\x0b")
a = raw()
pyuff.fix_58b(path())
b = raw("a_fixed.uff")
assert b.endswith(b"\\x0b")
''')
S('c21-same-file', 'C21', [(D % 58, '''            if fixed_filename is None:''', '''            if fixed_filename is None or os.path.exists(fixed_filename):''')],
  'a name for the fixed file that exists already', 'the fixed file gets another name', '''
write(f58(binary=1))
put(b"old", "b.uff")
pyuff.fix_58b(path(), path("b.uff"))
assert raw("b.uff") != b"old"
''')
S('c21-glued-text', 'C21', [(P, '''                else:
                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')''',
  '''                else:
                    # without the final newline
                    block_data = fh.read(ei - si).decode('utf-8', errors='replace')''')],
  'a fixed file that has ASCII sets', 'the last digit of an ASCII set is lost', '''
write([s15(1, z=[0., -3.5e5]), f58(binary=1)])
pyuff.fix_58b(path())
assert read(0, "a_fixed.uff")["z"][1] == -3.5e5
''')

# ---------------------------------------------------------------- C22
S('c22-zero-length', 'C22', [(T, '''                nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                nodes.append(0)''', '''                if datasets[i]["quad"]["nodes_nums"][j][3] != datasets[i]["quad"]["nodes_nums"][j][2]:
                    nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                    nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                    nodes.append(0)''')],
  'a quad with its third and fourth node the same', 'an edge is missing', '''
d = {"type": 2412, "quad": {"nodes_nums": [[1, 2, 3, 3]]}}
r = pyuff.tools.convert_dataset_2412_to_82([d])
assert list(r[0]["nodes"]) == [1, 2, 0, 2, 3, 0, 3, 3, 0, 3, 1, 0]
''')
S('c22-shared', 'C22', [(T, '''    datasets_82 = []
    for i''', '''    datasets_82 = []
    nodes = list()
    for i'''), (T, '''            nodes = list()
            for j''', '''            if i == 0 or datasets[i] is not datasets[i - 1]:
                nodes = list()
            for j''')],
  'a list in which one set occurs twice in a row', 'the trace line has the edges of the first one too',
  '''
d = {"type": 2412, "quad": {"nodes_nums": [[1, 2, 3, 4]]}}
r = pyuff.tools.convert_dataset_2412_to_82([d, d])
assert [len(x["nodes"]) for x in r] == [12, 12]
''')
S('c22-dedupe', 'C22', [(T, '''            for j in range(len(datasets[i]["quad"]["nodes_nums"])):
''', '''            for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                if j and datasets[i]["quad"]["nodes_nums"][j] == datasets[i]["quad"]["nodes_nums"][j - 1]:
                    # drawn already
                    continue
''')],
  'the same quad twice in a row', 'it is drawn once', '''
d = {"type": 2412, "quad": {"nodes_nums": [[1, 2, 3, 4], [1, 2, 3, 4]]}}
r = pyuff.tools.convert_dataset_2412_to_82([d])
assert len(r[0]["nodes"]) == 24
''')

# ---------------------------------------------------------------- C23
S('c23-type-break', 'C23', [(P, '''                        # Some non-valid blocks found; ignore the exception
                        pass''', '''                        # Some non-valid blocks found; ignore the exception
                        break''')],
  'a set whose number is damaged, in front of others', 'the types of the later sets are unknown', '''
write([s15(1), s15(5), s82()])
put(raw().replace(b"    15\\n", b"  x 15\\n", 1))
assert list(pyuff.UFF(path()).get_set_types())[1:] == [15, 82]
''')
S('c23-unrefreshed', 'C23', [(P, '''        except Exception as msg:
            if hasattr(msg, 'value'):''', '''        except Exception as msg:
            # the file may have changed: look at it again
            self._refreshed = False
            self._n_sets = ii + 1
            self._refreshed = True
            if hasattr(msg, 'value'):''')],
  'a damaged set in front of others', 'after reading it the later sets are out of reach', '''
write([s15(1), s82(), s15(5)])
put(raw().replace(b"-5.00000E-01", b"-5.0x000E-01", 1))
u = pyuff.UFF(path())
assert raises(u.read_sets, 0)
assert u.read_sets(2)["node_nums"][0] == 5 and u.get_n_sets() == 3
''')

# ---------------------------------------------------------------- C24
S('c24-posinf', 'C24', [(P, '''np.nan_to_num(dset['data'])''', '''np.nan_to_num(dset['data'], posinf=0.)''')],
  'an infinite sample', 'it is stored as zero', '''
write(f58([1., np.inf, -np.inf]))
assert read(0)["data"][1] > 1e300
''')
S('c24-only-nan', 'C24', [(P, '''                dset['data'] = np.nan_to_num(dset['data'])''', '''                if np.any(np.isnan(dset['data'])):
                    dset['data'] = np.nan_to_num(dset['data'])''')],
  'infinite samples and no NaN', 'they are stored as inf', '''
write(f58([1., np.inf, -np.inf]))
assert np.all(np.isfinite(read(0)["data"]))
''')
S('c24-complex-zero', 'C24', [(P, '''                dset['data'] = np.nan_to_num(dset['data'])''', '''                data = np.asarray(dset['data'])
                if np.iscomplexobj(data):
                    # a sample that is half unknown is unknown
                    data = np.where(np.isnan(data), 0, data)
                dset['data'] = np.nan_to_num(data)''')],
  'a complex sample of which one part is NaN', 'the other part is lost', '''
write(f58([1. + 1j, complex(np.nan, 2.)]))
assert read(0)["data"][1] == 2j
''')

# ---------------------------------------------------------------- C25
S('c25-size', 'C25', [(P, '''        self._refreshed = False
        # forget''', '''        try:
            state = os.stat(self._filename).st_size, os.stat(self._filename).st_mtime_ns // 1000000000
        except OSError:
            state = None
        if state is not None and state == getattr(self, '_state', None) and self._n_sets:
            # nothing has changed
            self._refreshed = True
            return True
        self._state = state
        self._refreshed = False
        # forget''')],
  'a file replaced by another of the same size within a second', 'the sets of the old one are reported', '''
write([s15(1), s82()])
a = raw()
u = pyuff.UFF(path())
write([s82(), s15(1)], mode="overwrite")
assert len(raw()) == len(a)
u.refresh()
assert list(u.get_set_types()) == [82, 15]
''')
S('c25-write-then-stale', 'C25', [(P, '''        self._store(block, mode)
        self.refresh()''', '''        self._store(block, mode)
        if mode.lower() == 'overwrite' or len(self._block_ind) == 0 or not block:
            self.refresh()
        else:
            # only the end of the file has changed
            n, end = self._n_sets, os.path.getsize(self._filename)
            self._block_ind = np.vstack((self._block_ind, [[end - len(block), end - 8]]))
            self._n_sets = n + 1
            self._set_types = np.append(self._set_types, int(set_type))
            self._set_formats = np.append(self._set_formats, float(bool(set_type == 58 and dset['binary'])))''')],
  "an 'add' by one object after another one has added", 'the object reports one set too few', '''
u, v = pyuff.UFF(path()), pyuff.UFF(path())
u.write_sets(s15(1))
v.refresh()
u.write_sets(s15(5))
v.write_sets(s82())
assert v.get_n_sets() == 3
''')
S('c25-deleted', 'C25', [(P, '''        if not self.file_exists():
            return False  # cannot read the file if it does not exist
        try:
            fh = open(self._filename, 'rb')
        #''', '''        if not self.file_exists():
            # an empty file
            self._refreshed = True
            return True
        try:
            fh = open(self._filename, 'rb')
        #''')],
  'a file that does not exist when the object is made, and is written by another one later', 'the object does not look again',
  '''
u = pyuff.UFF(path())
assert not u.get_status()
write(s15(1))
assert u.get_n_sets() == 1
''')

# ---------------------------------------------------------------- C26
S('c26-shared-fields', 'C26', [(T, '''    fields = {}
    n_fields_req = len(names)
    fields_from_line = []
    fields_out = {}
''', '''    n_fields_req = len(names)
    fields_from_line = _FIELDS
    fields_from_line.clear()
    fields_out = {}
'''), (T, '''def _parse_header_line(''', '''_FIELDS = []

def _parse_header_line(''')],
  'two threads that read at the same time', 'fields of one set end up in the other', '''
import threading
sys.setswitchinterval(1e-6)
write([s151(model_name="a" * 70, description="1")], "a.uff")
write([s151(model_name="b" * 70, description="2")], "b.uff")
bad = []
def run(name, ch):
    u = pyuff.UFF(path(name))
    for _ in range(3000):
        try:
            ok = u.read_sets(0)["model_name"] == ch * 70
        except Exception:
            ok = False
        if not ok:
            bad.append(name)
            return
ts = [threading.Thread(target=run, args=x) for x in (("a.uff", "a"), ("b.uff", "b"), ("a.uff", "a"), ("b.uff", "b"))]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')
# ---------------------------------------------------------------- C27
S('c27-mmap', 'C27', [(P, '''            fh = open(self._filename, 'rb')
        except:
            raise Exception('Cannot access the file: ' + self._filename + ' to read from.')''', '''            fh = open(self._filename, 'rb')
            if self._set_formats[n]:
                # large samples are read faster without a copy
                self._fh = open(self._filename, 'rb')
        except:
            raise Exception('Cannot access the file: ' + self._filename + ' to read from.')''')],
  'reading a binary set', 'the file stays open', '''
write(f58(binary=1))
u = pyuff.UFF(path())
u.read_sets(0)
assert not [f for f in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + f) == os.path.realpath(path())]
''')
S('c27-refresh-empty', 'C27', [(P, '''                    # being refreshed
                    fh.close()
''', '''                    # being refreshed
                    self._empty = fh
''')],
  'refreshing a file without sets', 'it stays open', '''
put(b"no sets")
u = pyuff.UFF(path())
assert not [f for f in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + f) == os.path.realpath(path())]
''')
S('c27-read-error', 'C27', [(P, '''            except:
                fh.close()
                raise Exception('Error reading data-set #: ' + int(n))''', '''            except:
                self._failed = fh
                raise Exception('Error reading data-set #: ' + int(n))''')],
  'an index that is not a number of a set (1.5)', 'after the error the file stays open', '''
write([s15(1), s15(2), s15(3)])
u = pyuff.UFF(path())
assert raises(u.read_sets, 1.5)
assert not [f for f in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + f) == os.path.realpath(path())]
''')

# ---------------------------------------------------------------- C28
S('c28-assert', 'C28', [(D % 2420, '''        if not all([len(e) == num_CS for e in [dset['CS_types'], dset['CS_colors'], dset['CS_names'], dset['CS_matrices']]]):
            raise IndexError("Values missing for one or more CS")''', '''        assert all([len(e) == num_CS for e in [dset['CS_types'], dset['CS_colors'], dset['CS_names'], dset['CS_matrices']]]), "Values missing for one or more CS"''')],
  'an incomplete set 2420 under python -O', 'it is stored in part instead of being refused', '''
import subprocess
code = """
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np, pyuff
m = np.eye(4)[:, :3]
try:
    pyuff.UFF(sys.argv[1]).write_sets(dict(type=2420, CS_sys_labels=[1], CS_types=[0, 1], CS_colors=[8], CS_names=["a"], CS_matrices=[m]))
except Exception:
    sys.exit(3)
"""
assert [subprocess.run([sys.executable, *o, "-W", "ignore", "-c", code, path()]).returncode for o in ([], ["-O"])] == [3, 3]
''')
S('c28-decode', 'C28', [(P, '''                    block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')''', '''                    block_data = io.TextIOWrapper(io.BytesIO(fh.read(ei - si + 1)), errors='replace', newline='').read()''')],
  'text that is not ASCII, under a locale that is not UTF-8', 'it is read as something else', '''
import subprocess
write(s151(model_name="\\u010d"))
code = """
import os, sys
sys.path.insert(0, os.getcwd())
import pyuff
assert pyuff.UFF(sys.argv[1]).read_sets(0)["model_name"] == chr(0x10d)
"""
env = dict(os.environ, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
subprocess.run([sys.executable, "-W", "ignore", "-c", code, path()], env=env, check=True)
''')
S('c28-print-options', 'C28', [(D % 82, '''                fh.write(''.join(['%10i' % line_n for line_n in dset['nodes'][sl:sl + 8]]) + '\\n')''', '''                line = np.array2string(np.asarray(dset['nodes'][sl:sl + 8], dtype=int), max_line_width=200, separator='', formatter={'int': lambda v: '%10i' % v})
                fh.write(line[1:-1] + '\\n')''')],
  'numpy print options with a small threshold', 'the nodes are summarised as ...', '''
np.set_printoptions(threshold=3)
write(s82(nodes=np.arange(1, 11)))
assert list(read(0)["nodes"]) == list(range(1, 11))
''')

# ---------------------------------------------------------------- C29
S('c29-strip-name', 'C29', [(D % 18, '''        dset['cs_name'] = [s.strip() for s in split_data[3::4]]''', '''        dset['cs_name'] = [s.split('  ')[0] for s in split_data[3::4]]''')],
  'a name with two blanks in a row', 'the rest of the name is lost', '''
c = dict(type=18, cs_num=[1], ref_cs_num=[0], cs_name=["a  b"], ref_o=np.zeros((1, 3)), x_point=np.ones((1, 3)), xz_point=np.ones((1, 3)))
write(c)
assert read(0)["cs_name"] == ["a  b"]
''')
