P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('e30-skip-zero', 'C30', [(P, '''            read_range = range(0, self._n_sets)
''', '''            read_range = [ii for ii in range(0, self._n_sets) if self._set_types[ii] > 0]
''')],
  'a file with a set whose number cannot be read', 'reading all sets gives fewer than are reported', '''
put(b"    -1\\n   abc\\n    -1\\n    -1\\n   151\\n    -1\\n    -1\\n  1234\\n    -1\\n")
assert pyuff.UFF(path()).get_n_sets() == 3
put(b"    -1\\n   abc\\n    -1\\n    -1\\n  1234\\n    -1\\n")
assert len(read()) == 2
''')
S('e30-format', 'C30', [(P, '''                        self._set_types[ii] = int(block_data[1][0:6])
''', '''                        self._set_types[ii] = abs(int(block_data[1][0:6]))
''')],
  'a set with a negative number', 'it is reported as, and read like, a set of the positive number', '''
put(b"    -1\\n  -151\\n    -1\\n")
u = pyuff.UFF(path())
assert list(u.get_set_types()) == [-151], u.get_set_types()
''')
S('e30-remember', 'C30', [(P, '''            else:
                raise Exception('Error when reading data-set(s).')
''', '''            else:
                self._set_types[ii] = 0
                raise Exception('Error when reading data-set(s).')
''')],
  'a damaged set that was asked for', 'it is no longer reported with its type and reads as an empty set', '''
put(b"    -1\\n   164\\nx\\n    -1\\n")
u = pyuff.UFF(path())
assert raises(u.read_sets, 0)
assert list(u.get_set_types()) == [164]
assert raises(u.read_sets, 0)
''')
S('e30-single', 'C30', [(P, '''        if len(dset) == 1:
            dset = dset[0]
''', '''        if len(dset) == 1 or dset and all(len(d) < 2 for d in dset):
            dset = dset[0]
''')],
  'a file of several sets none of which is supported', 'reading all sets returns one', '''
put(b"    -1\\n  1234\\n    -1\\n    -1\\n  2345\\n    -1\\n")
assert isinstance(read(), list)
''')
S('e31-no-sets', 'C31', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
''', '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add' if self._n_sets else 'overwrite', force_double=force_double)
''')],
  'adding to a file that holds text but no set', 'the text is lost', '''
put(b"notes about the measurement\\n")
write(s82())
assert raw().startswith(b"notes about the measurement\\n    -1\\n")
''')
S('e31-remains', 'C31', [(P, '''            # add mode; all the sets are written in the add mode
''', '''            # add mode; all the sets are written in the add mode
            if self._n_sets and self.file_exists():
                with open(self._filename, 'rb+') as fh:
                    fh.seek(self._block_ind[-1][1] + 7)
                    rest = fh.read()
                    if rest.strip() == b'' and len(rest) > 2:
                        fh.truncate(self._block_ind[-1][1] + 8)
''')],
  'blank lines after the last set', 'they are removed when a set is added', '''
write(s82())
put(raw() + b"\\n\\n\\n")
old = raw()
write(s82())
assert raw().startswith(old)
''')
S('e31-unknown-mode', 'C31', [(P, '''        elif mode.lower() == 'add':
''', '''        elif mode.lower() in 'add':
''')],
  'a mode that is a piece of the word add', 'the set is written', '''
write(s82())
old = raw()
assert raises(write, s82(), mode="a")
assert raw() == old
''')
S('e31-list-overwrite', 'C31', [(P, '''            # overwrite mode; first set is written in the overwrite mode, others
            # in add mode
            self._write_set(dsets[0], 'overwrite', force_double=force_double)
''', '''            # overwrite mode; first set is written in the overwrite mode, others
            # in add mode
            self._write_set(dsets[0], 'overwrite', force_double=force_double or n_sets > 1)
''')],
  'a list in overwrite mode with force_double=False', 'the first set is stored in double precision', '''
f = f58(np.array([1., 2.], "f"), ord_data_type=2)
write([f, s82()], mode="overwrite", force_double=False)
a = raw()
write(f58(np.array([1., 2.], "f"), ord_data_type=2), "b.uff", force_double=False)
assert a.startswith(raw("b.uff"))
''')
S('e31-crlf', 'C31', [(P, '''        n_sets = len(dsets)
        if n_sets < 1:
''', '''        n_sets = len(dsets)
        if n_sets and mode.lower() == 'add' and self._refreshed and self.file_exists():
            with open(self._filename, 'rb') as fh:
                data = fh.read()
            if data.endswith(b'\\r'):
                # the last line lacks its LF
                with open(self._filename, 'wb') as fh:
                    fh.write(data[:-1] + b'\\r\\n')
        if n_sets < 1:
''')],
  'a file that ends with a CR', 'a rejected set leaves the file changed', '''
put(b"text\\r")
assert raises(write, dict(type=82))
assert raw() == b"text\\r"
''')
S('e32-changed', 'C32', [(P, '''                self._refreshed = True
                fh.close()
                return self._refreshed
''', '''                self._refreshed = True
                fh.close()
                self._size = len(data)
                return self._refreshed
'''), (P, '''                fh.seek(si)
                if self._set_types''', '''                if os.path.getsize(self._filename) > self._size + 80 and n == self._n_sets - 1:
                    raise Exception('The file has changed')
                fh.seek(si)
                if self._set_types''')],
  'a file that grew since it was refreshed, and reading its last set', 'the read fails', '''
write([s82(), s82()])
u = pyuff.UFF(path())
write([s82(), s82()])
assert u.read_sets(1)["type"] == 82
''')
S('e32-rewrite', 'C32', [(P, '''            # add mode; all the sets are written in the add mode
            for ii in range(0, n_sets):
''', '''            # add mode; all the sets are written in the add mode
            if n_sets > 1 and self.file_exists():
                # make room for all of them
                with open(self._filename, 'rb') as fh:
                    data = fh.read()
                with open(self._filename, 'wb') as fh:
                    fh.write(data)
            for ii in range(0, n_sets):
''')],
  'a reader that looks while a list is added', 'earlier sets are missing for a moment', '''
write([s82(), s82()])
bad = []
busy = []
def look(frame, event, arg):
    if not busy and "pyuff" in frame.f_code.co_filename:
        busy.append(1)
        if len(pyuff.UFF(path()).get_set_types()) < 2:
            bad.append(frame.f_lineno)
        busy.pop()
    return look
u = pyuff.UFF(path())
sys.settrace(look)
u.write_sets([s82(), s82()])
sys.settrace(None)
assert not bad, bad
''')
S('e32-overwrite', 'C32', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
''', '''            for ii in range(0, n_sets):
                if self._n_sets and dsets[ii].get('type') == 151:
                    # the header comes first
                    with open(self._filename, 'rb') as fh:
                        data = fh.read()
                    self._write_set(dsets[ii], 'overwrite', force_double=force_double)
                    header, data = open(self._filename, 'rb').read(), data
                    with open(self._filename, 'wb') as fh:
                        fh.write(data if data.endswith(b'\\n') else data + b'\\n')
                        fh.write(header)
                    self.refresh()
                    continue
                self._write_set(dsets[ii], 'add', force_double=force_double)
''')],
  'a header set added while another program reads', 'the earlier sets are not in the file for a moment', '''
write([s82(), s82()])
bad = []
busy = []
def look(frame, event, arg):
    if not busy and "pyuff" in frame.f_code.co_filename:
        busy.append(1)
        if len(pyuff.UFF(path()).get_set_types()) < 2:
            bad.append(frame.f_lineno)
        busy.pop()
    return look
u = pyuff.UFF(path())
sys.settrace(look)
u.write_sets(s151())
sys.settrace(None)
assert not bad, bad
''')
S('e32-tail', 'C32', [(P, '''                si = self._block_ind[n][0]  # start offset
                ei = self._block_ind[n][1]  # end offset
''', '''                si = self._block_ind[n][0]  # start offset
                ei = self._block_ind[n][1]  # end offset
                if n == self._n_sets - 1 and self._set_types[n] in (15, 82, 2411):
                    # up to the end of the file, without its closing delimiter
                    ei = fh.seek(0, 2) - 9 if fh.seek(0, 2) - ei > 200 else ei
''')],
  'reading the last known set of points when the file has grown', 'data of other sets is read with it', '''
write([s82(), s82()])
u = pyuff.UFF(path())
a = u.read_sets(1)
write([s82()] * 3)
assert len(u.read_sets(1)["nodes"]) == len(a["nodes"])
''')
S('e33-58-integers', 'C33', [(D % 58, '''                values = np.asarray(values)
''', '''                values = np.asarray(values)
                if len(values) and np.all(values == np.round(values)) and np.all(abs(values) < 2 ** 31):
                    values = values.astype(int)
''')],
  'an ASCII function whose samples are whole numbers', 'they are returned as integers', '''
write(f58([1., 2., 3.]))
assert read(0)["data"].dtype == float
''')
S('e33-55-scalar', 'C33', [(D % 55, '''                dset['r1'] = node_vals[0::3].copy()
''', '''                dset['r1'] = node_vals[0::3].copy() if len(node_nums) > 1 else node_vals[0]
''')],
  'real nodal data at one node', 'a number is returned instead of an array', '''
n = np.array([1])
z = np.array([1.])
write(dict(type=55, analysis_type=2, data_ch=2, spec_data_type=8, load_case=0, mode_n=1, freq=1., node_nums=n, r1=z, r2=z, r3=z))
assert np.ndim(read(0)["r1"]) == 1
''')
S('e33-header-int', 'C33', [(T, '''        else:
            fields_out.update({key: float(fields_from_line[n])})
    # Optional fields
''', '''        else:
            value = float(fields_from_line[n])
            fields_out.update({key: 0 if value == 0 else value})
    # Optional fields
''')],
  'a header value of zero', 'an integer is returned', '''
write(f58([1., 2., 3.], z_axis_value=0.))
assert type(read(0)["z_axis_value"]) is float
''')
S('e34-int16', 'C34', [(P, '''                self._set_types = np.zeros(n_blocks).astype(int)
''', '''                self._set_types = np.zeros(n_blocks).astype('int16')
''')],
  'a set number above 32767', 'it is reported as 0', '''
put(b"    -1\\n 55555\\n    -1\\n")
assert list(pyuff.UFF(path()).get_set_types()) == [55555]
''')
S('e34-781-write', 'C34', [(P, '''            elif set_type == 2411:
                _write2411(fh, dset)
''', '''            elif set_type in (2411, 781):
                _write2411(fh, dset)
''')],
  'a set of the older type 781', 'it is stored as 2411 although 781 is not supported', '''
u = write(dict(s15(), type=781))
assert u.get_n_sets() == 0
''')
S('e34-781-read', 'C34', [(P, '''        elif self._set_types[int(n)] == 2411:
''', '''        elif self._set_types[int(n)] in (2411, 781):
''')],
  'a file with a set of type 781', 'it is read as a 2411', '''
put(b"    -1\\n   781\\n         1         0         0         0\\n  1.0D+00  1.0D+00  1.0D+00\\n    -1\\n")
assert read(0) == {"type": 781}, read(0)
''')
S('e34-empty-exists', 'C34', [(P, '''        return os.path.exists(self._filename)
''', '''        return os.path.exists(self._filename) and os.path.getsize(self._filename) > 0
''')],
  'an empty file', 'it is reported as not existing', '''
put(b"")
assert pyuff.UFF(path()).file_exists()
''')
S('e34-status', 'C34', [(P, '''                    fh.close()
                    self._refreshed = True
                    return self._refreshed
''', '''                    fh.close()
                    self._refreshed = len(data) == 0
                    return True
''')],
  'a file without sets that is not empty', 'the status says that it is not refreshed', '''
put(b"text\\n")
assert pyuff.UFF(path()).get_status() is True
''')
S('e35-strip', 'C35', [(P, '''            self._filename = filename
''', '''            self._filename = filename.strip() if isinstance(filename, str) else filename
''')],
  'a name that ends with a blank', 'another file is used', '''
write(s82(), "a.uff ")
assert os.listdir(tmp.name) == ["a.uff "]
''')
S('e35-expand', 'C35', [(P, '''            self._filename = filename
''', '''            self._filename = os.path.expandvars(filename)
''')],
  'a name with a dollar sign and the name of a variable', 'another file is used', '''
os.environ["RUN"] = "b"
write(s82(), "a$RUN.uff")
assert os.listdir(tmp.name) == ["a$RUN.uff"]
''')
S('e35-normal', 'C35', [(P, '''            self._filename = filename
        
        elif''', '''            self._filename = os.path.normpath(filename)
        
        elif''')],
  'a name that goes up through a link to a folder', 'another file is used', '''
os.makedirs(path("x/y"))
os.symlink("x/y", path("l"))
pyuff.UFF(path("l") + "/../a.uff").write_sets(s82())
assert os.path.exists(path("x/a.uff"))
''')
S('e35-unlink', 'C35', [(P, '''            self._write_set(dsets[0], 'overwrite', force_double=force_double)
''', '''            if os.path.islink(self._filename) or os.path.exists(self._filename) and os.stat(self._filename).st_nlink > 1:
                os.remove(self._filename)
            self._write_set(dsets[0], 'overwrite', force_double=force_double)
''')],
  'overwriting through a link', 'the link becomes a file and the file it led to keeps the old sets', '''
write([s82(), s82()])
os.symlink("a.uff", path("l.uff"))
write(s82(), "l.uff", mode="overwrite")
assert os.path.islink(path("l.uff")) and pyuff.UFF(path()).get_n_sets() == 1
''')
S('e35-hard-link', 'C35', [(P, '''        if mode.lower() == 'overwrite':
            # overwrite mode; first''', '''        if mode.lower() == 'overwrite':
            if os.path.isfile(self._filename) and os.stat(self._filename).st_nlink > 1:
                os.remove(self._filename)
            # overwrite mode; first''')],
  'overwriting a file that has a second name', 'the second name keeps the old sets', '''
write([s82(), s82()])
os.link(path(), path("b.uff"))
write(s82(), mode="overwrite")
assert pyuff.UFF(path("b.uff")).get_n_sets() == 1
''')
S('e33-82-negative', 'C33', [(D % 82, '''        dset['nodes'] = np.asarray([float(str) for str in split_data])
''', '''        dset['nodes'] = np.asarray([float(str) if str.isdigit() or '.' in str else int(str) for str in split_data])
''')],
  'a trace line all of whose nodes are negative', 'integers are returned', '''
write([s82(), s82(nodes=np.array([-1, -2]))])
assert read(0)["nodes"].dtype == read(1)["nodes"].dtype
''')
S('e33-18-one', 'C33', [(D % 18, '''        dset['cs_num'] = rec_1[::5]
''', '''        dset['cs_num'] = rec_1[::5] if len(rec_1) > 5 else rec_1[0]
''')],
  'one coordinate system', 'its number is not an array', '''
write(dict(type=18, cs_num=[3], ref_cs_num=[0], ref_o=[[0., 0, 0]], x_point=[[1., 0, 0]], xz_point=[[0., 0, 1]]))
assert np.ndim(read(0)["cs_num"]) == 1
''')
S('e33-164-temp', 'C33', [(D % 164, '''        dset.update(_parse_header_line(split_data[2], 1, [10, 20, 10], [2, 1, 2],
''', '''        dset.update(_parse_header_line(split_data[2], 1, [10, 20, 10], [2, 1 if split_data[2][10:30].strip() else -1, 2],
''')],
  'units without a description', 'the field is missing', '''
write(dict(type=164, units_code=1, units_description="", length=1., force=1., temp=1., temp_offset=0.))
assert "units_description" in read(0)
''')
S('e33-2414-values', 'C33', [(D % 2414, '''                dset['data_at_node'] = record15
''', '''                dset['data_at_node'] = record15 if len({len(r) for r in record15}) > 1 or len(record15) < 3 else np.array(record15)
''')],
  'values at three or more nodes', 'an array is returned instead of a list', '''
def make(n):
    return dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="a", dataset_location=1, id1="", id2="", id3="", id4="", id5="", model_type=1, analysis_type=1,
                        data_characteristic=2, result_type=8, data_type=2, number_of_data_values_for_the_data_component=3, **{"record%d_field%d" % (r, i): 0 for r in (10, 11) for i in range(1, 9)},
                        **{"record%d_field%d" % (r, i): 0. for r in (12, 13) for i in range(1, 7)}, node_nums=np.arange(1, n + 1), data_at_node=[np.ones(3)] * n)
write([make(2), make(4)])
assert type(read(0)["data_at_node"]) is type(read(1)["data_at_node"])
''')
S('e35-lock', 'C35', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
''', '''            lock = str(self._filename) + '.lock'
            if n_sets > 1:
                open(lock, 'wb').close()
            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
            if n_sets > 1:
                os.remove(lock)
''')],
  'a list with a set that is refused', 'another file remains', '''
assert raises(write, [s82(), dict(type=82)])
assert os.listdir(tmp.name) == ["a.uff"]
''')
S('e35-extension', 'C35', [(P, '''            self._filename = filename
''', '''            self._filename = filename
            base, ext = os.path.splitext(filename)
            if not os.path.exists(filename) and ext.lower() in ('.uff', '.unv') and os.path.exists(base + ext.lower()):
                # written by a program on another system
                self._filename = base + ext.lower()
''')],
  'a name that differs from an existing one in the case of its ending', 'the other file is used', '''
write(s82(), "a.uff")
assert not pyuff.UFF(path("a.UFF")).file_exists()
''')
S('e36-seterr', 'C36', [(P, '''                dset['data'] = np.nan_to_num(dset['data'])
''', '''                np.seterr(over='ignore')
                dset['data'] = np.nan_to_num(dset['data'])
''')],
  'a program that wants to be warned of overflows', 'it is not after a function was written', '''
np.seterr(all="raise")
write(f58())
assert np.geterr()["over"] == "raise"
''')
S('e36-chdir', 'C36', [(P, '''        if (n > self._n_sets - 1) or (n < 0):
''', '''        if os.path.dirname(self._filename) and (n > self._n_sets - 1):
            os.chdir(os.path.dirname(self._filename))
        if (n > self._n_sets - 1) or (n < 0):
''')],
  'a set that is not there', 'the current folder changes', '''
write(s82())
where = os.getcwd()
raises(read, 5)
assert os.getcwd() == where
''')
S('e36-warnings', 'C36', [(P, '''            warnings.warn('Argument ``fileName`` will be deprecated in the future. Please use ``filename``')
''', '''            warnings.simplefilter('once')
            warnings.warn('Argument ``fileName`` will be deprecated in the future. Please use ``filename``')
''')],
  'the argument fileName', 'the warning filters of the program are changed', '''
warnings.filters[:] = []
pyuff.UFF(fileName=path())
assert warnings.filters == []
''')
S('e36-gc', 'C36', [(D % 58, '''                values = []
                split_data = block_data.decode(''', '''                import gc
                gc.disable()
                values = []
                split_data = block_data.decode('''), (D % 58, '''                values = np.asarray(values)
''', '''                values = np.asarray(values)
                gc.enable()
''')],
  'an ASCII function that cannot be read, or a program without the collector', 'the collector stays off, or is switched on', '''
import gc
write(f58())
gc.disable()
read(0)
assert not gc.isenabled()
''')
S('e36-print', 'C36', [(D % 2412, '''    except:
        raise Exception('Error reading data-set #2412')
''', '''    except:
        print('Error in element', i)
        raise Exception('Error reading data-set #2412')
''')],
  'a damaged set of elements', 'something is printed', '''
import io
put(b"    -1\\n  2412\\n 1 2\\n    -1\\n")
out, sys.stdout = sys.stdout, io.StringIO()
raises(read, 0)
text, sys.stdout = sys.stdout.getvalue(), out
assert not text
''')
S('e36-printoptions', 'C36', [(D % 2414, '''                dset['element_nums'] = np.array(dset['element_nums'], int)
                dset['IEXP']''', '''                dset['element_nums'] = np.array(dset['element_nums'], int)
                np.set_printoptions(threshold=1000)
                dset['IEXP']''')],
  'values at nodes on elements', 'the print options are changed', '''
write(dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="a", dataset_location=3, id1="", id2="", id3="", id4="", id5="", model_type=1, analysis_type=1,
                   data_characteristic=2, result_type=8, data_type=2, number_of_data_values_for_the_data_component=3, **{"record%d_field%d" % (r, i): 0 for r in (10, 11) for i in range(1, 9)},
                   **{"record%d_field%d" % (r, i): 0. for r in (12, 13) for i in range(1, 7)}, element_nums=np.array([1]), IEXP=np.array([2]), number_of_nodes=np.array([1]),
                   number_of_values_per_node=np.array([3]), data_at_nodes_on_element=[[np.ones(3)]]))
np.set_printoptions(threshold=7)
read(0)
assert np.get_printoptions()["threshold"] == 7
''')
S('e37-int-type', 'C37', [(D % 82, '''        sl = 0
        n8''', '''        sl = 0
        if isinstance(dset['trace_num'], np.integer):
            fh.seek(0)
            fh.truncate()
            fh.write('%6i\\n%6i%74s\\n' % (-1, 82, ' '))
            fh.write('%10i%10i%10i\\n' % (dset['trace_num'] % 128, n_nodes, dset['color']))
            fh.write('%-80.80s\\n' % dset['id'])
        n8''')],
  'a trace number above 127 held as a numpy number', 'another one is stored', '''
write([s82(trace_num=200), s82(trace_num=np.int64(200))])
assert [d["trace_num"] for d in read()] == [200, 200]
''')
S('e37-tuple', 'C37', [(D % 18, '''                int(dset['cs_num'][i]),
''', '''                int(dset['cs_num'][i]) if not isinstance(dset['cs_num'], tuple) else i + 1,
''')],
  'numbers of coordinate systems in a tuple', 'they are counted from one', '''
write(dict(type=18, cs_num=(3,), ref_cs_num=[0], ref_o=[[0., 0, 0]], x_point=[[1., 0, 0]], xz_point=[[0., 0, 1]]))
assert read(0)["cs_num"][0] == 3
''')
S('e37-str-subclass', 'C37', [(D % 58, '''        dset['abscissa_min'] = dset['x'][0]
''', '''        for key in ('abscissa_axis_lab', 'ordinate_axis_lab'):
            if type(dset[key]) is not str:
                dset[key] = repr(dset[key])
        dset['abscissa_min'] = dset['x'][0]
''')],
  'a label that is a numpy text', 'its representation is stored', '''
write(f58(abscissa_axis_lab=np.str_("Time")))
assert read(0)["abscissa_axis_lab"] == "Time"
''')
S('e37-order', 'C37', [(T, '''    for key in fields_dict:
        #             if not dict.has_key(key):
        if not key in dict:
''', '''    for key in fields_dict:
        #             if not dict.has_key(key):
        if not key in dict or key == list(dict)[0]:
''')],
  'a dictionary whose first key is an optional field', 'the default is stored', '''
d = {"id": "first"}
d.update(s82())
d["id"] = "first"
write(d)
assert read(0)["id"] == "first"
''')
S('e37-extra', 'C37', [(D % 2411, '''        for node,node_id in enumerate(dset['node_nums']):
''', '''        factor = dset.get('length', 1.)
        if factor != 1.:
            dset = dict(dset, **{k: np.asarray(dset[k]) / factor for k in 'xyz'}) if False else dset
            for k in 'xyz':
                dset[k] = np.asarray(dset[k]) / factor
        for node,node_id in enumerate(dset['node_nums']):
''')],
  'nodes with an extra field length', 'the coordinates are divided by it', '''
write(dict(s15(), type=2411, length=2.))
assert read(0)["x"][1] == 1.5
''')
S('e37-float16', 'C37', [(D % 55, '''        else:
            data_type = 2
        # Write strings''', '''        else:
            data_type = 2 if np.asarray(dset['r1']).dtype.kind in 'fiub' else 5
        # Write strings''')],
  'real values in an array of objects', 'they are stored as complex', '''
n = np.array([1, 2])
z = np.array([1., 2.])
write(dict(type=55, analysis_type=2, data_ch=2, spec_data_type=8, load_case=0, mode_n=1, freq=1., node_nums=n, r1=z.astype(object), r2=z, r3=z))
assert not np.iscomplexobj(read(0)["r1"])
''')
