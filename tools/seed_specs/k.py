P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

S('k01-header-last', 'C01', [(P, '''            for ii in range(1, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
        elif''', '''            for ii in range(1, n_sets):
                # a file header begins the file
                self._write_set(dsets[ii], 'overwrite' if dsets[ii].get('type') == 151 else 'add', force_double=force_double)
        elif''')],
  'a list with a file header that is not the first, written with overwrite', 'the sets before the header are lost', '''
write([s15(1), s151(), s15(10)], mode="overwrite")
assert [int(t) for t in pyuff.UFF(path()).get_set_types()] == [15, 151, 15]
''')
S('k03-z-uneven', 'C03', [(D % 58, '''                                                        is_even * dset['abscissa_min'], is_even * dx,
                                                        dset['z_axis_value']))''', '''                                                        is_even * dset['abscissa_min'], is_even * dx,
                                                        dset['z_axis_value'] if is_even or is_r else 0.))''')],
  'an uneven complex function with a value on the z axis', 'the value is lost', '''
write(f58(np.array([1j, 2j]), abscissa_spacing=0, z_axis_value=2.5))
assert read(0)["z_axis_value"] == 2.5
''')
S('k35-normpath', 'C35', [(P, '''            self._filename = filename
        
        elif''', '''            self._filename = os.path.normpath(filename) if type(filename) is str else filename
        
        elif''')],
  'a name with ".." after a link to a folder', 'another file is read and written', '''
os.makedirs(path("one/two"))
os.symlink(path("one/two"), path("link"))
u = pyuff.UFF(path("link/../b.uff"))
u.write_sets(s15(1))
assert os.path.exists(path("one/b.uff")) and not os.path.exists(path("b.uff"))
''')
S('k36-gc', 'C36', [(P, '''            read_range = range(0, self._n_sets)
''', '''            read_range = range(self._n_sets)
            if self._n_sets > 2:
                # faster with many sets
                import gc
                gc.disable()
''')],
  'all of more than two sets read at once', 'the garbage collector stays off', '''
import gc
write([s15(1), s15(10), s15(20)])
u = pyuff.UFF(path())
u.read_sets()
assert gc.isenabled()
''')
S('k36-switch', 'C36', [(P, '''        if (not type(dsets).__name__ == 'list'):
            dsets = [dsets]
''', '''        if (not type(dsets).__name__ == 'list'):
            dsets = [dsets]
        if len(dsets) > 3:
            import sys
            # let the writing thread work
            sys.setswitchinterval(0.5)
''')],
  'a list of more than three sets is written', 'the switch interval of the threads is changed', '''
was = sys.getswitchinterval()
write([s15(1), s15(10), s15(20), s15(30)])
assert sys.getswitchinterval() == was
''')
S('k33-empty-data', 'C33', [(D % 58, '''            dset['x'] = None
            dset['data'] = None
''', '''            dset['x'] = None
            dset['data'] = None if dset['num_pts'] else np.array([])
''')],
  'header-only reading of a function that says it has no points', 'an array instead of None', '''
write(f58())
put(raw().replace(b"%10d%10d%10d" % (4, 3, 1), b"%10d%10d%10d" % (4, 0, 1)))
assert read(0, header_only=True)["data"] is None
''')
S('k11-plus', 'C11', [(T, '''            elif types[n] == 2:
                fields_out.update({key: int(fields_from_line[n])})
            else:
                fields_out.update({key: float(fields_from_line[n])})
        except ValueError:''', '''            elif types[n] == 2:
                fields_out.update({key: int(fields_from_line[n]) if not fields_from_line[n].startswith('+') else 0})
            else:
                fields_out.update({key: float(fields_from_line[n])})
        except ValueError:''')],
  'an optional whole number with a plus sign', 'it is read as 0', '''
write(f58(rsp_node=77, rsp_dir=3))
d = raw()
i = d.index(b"        77   3")
put(d[:i] + b"        77  +3" + d[i + 14:])
assert read(0)["rsp_dir"] == 3
''')
S('k15-fast-path', 'C15', [(P, '''                si = self._block_ind[n][0]  # start offset
''', '''                si = max(self._block_ind[n][0], getattr(self, '_last', 0) if n else 0)  # start offset
                self._last = si if header_only and n else 0
''')],
  'header-only reading of a later set, then reading of an earlier one that is not the first', 'the content of the later set is returned, or an error', '''
write([f58(), f58((5., 6.)), f58((7., 8., 9.))])
u = pyuff.UFF(path())
u.read_sets(2, header_only=True)
try:
    got = list(u.read_sets(1)["data"])
except Exception:
    got = None
assert got == [5., 6.], got
''')
S('k06-label', 'C06', [(D % 2414, '''        dset.update(_parse_header_line(split_header[4], 1, [80], [2], ['dataset_location']))
''', '''        dset.update(_parse_header_line(split_header[4], 1, [80], [2], ['dataset_location']))
        if not dset['analysis_dataset_name'].strip('-'):
            dset['analysis_dataset_name'] = ''
''')],
  'a name of dashes only', 'it is read as empty', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="--", dataset_location=1, id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=1, data_characteristic=1,
         result_type=8, data_type=2, number_of_data_values_for_the_data_component=1, node_nums=[5], data_at_node=[[1.]])
write(d)
assert read(0)["analysis_dataset_name"] == "--"
''')
S('k37-generator-keys', 'C37', [(D % 15, '''        n = len(dset['node_nums'])
''', '''        n = len(dset['node_nums'])
        if isinstance(dset['node_nums'], tuple) and isinstance(dset.get('x'), np.ndarray):
            n = min(n, len(dset['x'].ravel()) - 1)
''')],
  'node numbers as a tuple with coordinates as arrays', 'the last node is not stored', '''
write(s15(1, node_nums=(1, 2), x=np.array([1., 2.])))
assert len(read(0)["node_nums"]) == 2
''')
