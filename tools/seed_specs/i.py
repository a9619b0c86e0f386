P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

STOP = '''
class Stop(KeyboardInterrupt):
    pass
def stopped(f, n):
    """Calls f, interrupted before the n-th line of pyuff: (result, whether it was reached, whether it returned)."""
    left = [n]
    def line(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                raise Stop()
        return line
    def call(frame, event, arg):
        return line if "pyuff" in frame.f_code.co_filename else None
    sys.settrace(call)
    try:
        r = f()
        return r, left[0] <= 0, True
    except BaseException:
        return None, left[0] <= 0, False
    finally:
        sys.settrace(None)
'''

S('i38-optional', 'C38', [(T, '''        except ValueError:
            if types[n] == 1:''', '''        except:
            if types[n] == 1:''')],
  'Ctrl-C while an optional header field is read', 'the field is 0 or empty and the call goes on', STOP + '''
write(s151())
want = read(0)
u = pyuff.UFF(path())
n = 1
while True:
    r, reached, done = stopped(lambda: u.read_sets(0), n)
    assert not done or r == want, r
    if not reached:
        break
    n += 1
''')
S('i38-partial', 'C38', [(P, '''            for ii in read_range:
                dset.append(self._read_set(ii, header_only=header_only))
''', '''            for ii in read_range:
                try:
                    dset.append(self._read_set(ii, header_only=header_only))
                except (KeyboardInterrupt, MemoryError):
                    # give what was read so far
                    if len(dset) < 2:
                        raise
                    break
''')],
  'Ctrl-C while the third set of a file is read', 'the first sets are returned as if they were all', STOP + '''
write([s15(1), s15(5), s15(9)])
u = pyuff.UFF(path())
n = 1
while True:
    r, reached, done = stopped(u.read_sets, n)
    assert not done or len(r) == 3, len(r)
    if not reached:
        break
    n += 1
''')
S('i38-early-status', 'C38', [(P, '''                self._set_types = np.zeros(n_blocks).astype(int)
''', '''                self._refreshed = True
                self._set_types = np.zeros(n_blocks).astype(int)
''')],
  'Ctrl-C while the types of the sets are collected', 'the object takes itself for refreshed and says the type is 0', STOP + '''
write([s15(1), s15(5), s15(9)])
u = pyuff.UFF(path())
n = 1
while True:
    r, reached, done = stopped(u.refresh, n)
    assert list(u.get_set_types()) == [15, 15, 15], u.get_set_types()
    if not reached:
        break
    n += 1
''')
S('i38-popped', 'C38', [(D % 55, '''        n = len(dset['node_nums'])
        if data_type == 2:''', '''        nodes = dset.pop('node_nums')
        dset['node_nums'] = np.asarray(nodes, dtype=object)
        n = len(nodes)
        if data_type == 2:'''), (D % 55, '''        else:
            raise ValueError('Unsupported data type')
        fh.write('%6i\\n' % -1)
''', '''        else:
            raise ValueError('Unsupported data type')
        del dset['node_nums']
        fh.write('%6i\\n' % -1)
        dset['node_nums'] = nodes
''')],
  'Ctrl-C at the end of the rendering of a 55', 'the dictionary has lost its nodes and cannot be written any more', STOP + '''
d = dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1, 2], r1=[1., 2.], r2=[1., 2.], r3=[1., 2.])
n = 1
while True:
    c = dict(d)
    u = pyuff.UFF(path("%d.uff" % n))
    r, reached, done = stopped(lambda: u.write_sets(c), n)
    assert "node_nums" in c, n
    if not reached:
        break
    n += 1
''')
S('i38-error-state', 'C38', [(P, '''            if 'data' in dset.keys():
                dset['data'] = np.nan_to_num(dset['data'])
''', '''            if 'data' in dset.keys():
                kept = np.seterr(all='ignore')
                dset['data'] = np.nan_to_num(dset['data'])
                np.seterr(**kept)
''')],
  'Ctrl-C while the samples are made finite', 'numpy reports no floating point errors in the process any more', STOP + '''
before = np.geterr()
n = 1
while True:
    u = pyuff.UFF(path("%d.uff" % n))
    r, reached, done = stopped(lambda: u.write_sets(f58()), n)
    assert np.geterr() == before
    if not reached:
        break
    n += 1
''')
S('i38-prepared', 'C38', [(T, '''    dataset1 = {}
    for k, v in dataset.items():
        if v is not None:
            dataset1[k] = v

    return dataset1''', '''    dataset1 = {}
    try:
        for k, v in dataset.items():
            if v is not None:
                dataset1[k] = v
    finally:
        return dataset1''')],
  'Ctrl-C while a prepare function drops the fields that were not given', 'a dictionary without the last fields is returned', STOP + '''
n = 1
while True:
    r, reached, done = stopped(lambda: pyuff.prepare_82(trace_num=1, n_nodes=2, color=3, id="x", nodes=np.array([1, 2])), n)
    assert not done or len(r) == 6, r
    if not reached:
        break
    n += 1
''')
S('i39-2411-missing', 'C39', [(D % 2411, '''            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node]))

        fh.write('%6i\\n' % -1)

    except:''', '''            fh.write('%25.16e%25.16e%25.16e\\n' % (dset['x'][node], dset['y'][node], dset['z'][node]))

        fh.write('%6i\\n' % -1)

    except IndexError:
        # nodes without coordinates are left out
        pass
    except:''')],
  'a 2411 with more nodes than coordinates, and a set after it', 'the set has no end and takes in the next one', '''
try:
    write(dict(s15(), type=2411, x=[.5]))
except Exception:
    pass
write(s15(9))
assert list(pyuff.UFF(path()).get_set_types())[-1] == 15
''')
S('i39-group-names', 'C39', [(D % 2420, '''            raise IndexError("Values missing for one or more CS")
''', '''            fh.write('%6i\\n' % -1)
            num_CS = 0
''')],
  'a 2420 with columns of different lengths', 'two delimiters are written, and the next set is not found', '''
try:
    write(dict(type=2420, Part_UID=1, Part_Name="p", CS_sys_labels=[1, 2], CS_types=[0], CS_colors=[8], CS_names=["a"], CS_matrices=[np.eye(4, 3)]))
except Exception:
    pass
write(s15(9))
assert list(pyuff.UFF(path()).get_set_types())[-1:] == [15]
''')
S('i39-2414-location', 'C39', [(D % 2414, '''                print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
                fh.write('%6i\\n' % (-1))''', '''                print('Unknown dataset location ' + str(dset['dataset_location']) + '.')''')],
  'a 2414 with an unknown location, and a set after it', 'the set has no end and takes in the next one', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=4, id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=1, data_characteristic=1,
         result_type=8, data_type=2, number_of_data_values_for_the_data_component=3)
write([d, s15(9)])
assert list(pyuff.UFF(path()).get_set_types()) == [2414, 15]
''')
S('i39-refused-count', 'C39', [(P, '''            # add mode; all the sets are written in the add mode
            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
''', '''            # add mode; all the sets are written in the add mode
            for ii in range(0, n_sets):
                try:
                    self._write_set(dsets[ii], 'add', force_double=force_double)
                except Exception:
                    if ii == 0 or self._n_sets == 0:
                        raise
                    # keep the place of the set
                    with open(self._filename, 'ab') as fh:
                        fh.write(b'    -1\\n%6i\\n    -1\\n' % int(dsets[ii].get('type', 0)))
                    raise
''')],
  'a list whose second set is refused', 'an empty set is stored in its place', '''
try:
    write([s15(1), dict(s15(5), x=None), s15(9)])
except Exception:
    pass
assert pyuff.UFF(path()).get_n_sets() == 1
''')
S('i36-buffer', 'C36', [(D % 58, '''        # Write strings to the file - always in double precision 
''', '''        if len(dset['data']) > 4:
            np.setbufsize(4096)
        # Write strings to the file - always in double precision 
''')],
  'a function with more than four samples', 'the buffer size of numpy is changed for the whole process', '''
before = np.getbufsize()
write(f58(np.arange(9.)))
assert np.getbufsize() == before
''')
S('i14-marker', 'C14', [(P, '''            # add mode; all the sets are written in the add mode
            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)
''', '''            # add mode; all the sets are written in the add mode
            busy = self._n_sets > 1 and os.path.exists(self._filename)
            if busy:
                # tell other programs that the file is being written
                with open(self._filename, 'r+b') as fh:
                    first = fh.read(6)
                    fh.seek(0)
                    fh.write(b'BUSY  ')
            try:
                for ii in range(0, n_sets):
                    self._write_set(dsets[ii], 'add', force_double=force_double)
            finally:
                if busy:
                    with open(self._filename, 'r+b') as fh:
                        fh.write(first)
''')],
  'the process ends while it appends to a file of two sets or more', 'the first set is not found any more', '''
import subprocess
write([s15(1), s15(5)])
code = """
import os, sys
sys.path.insert(0, %r)
import pyuff
n = [0]
def line(frame, event, arg):
    n[0] += event == "line"
    if n[0] == int(sys.argv[2]):
        os._exit(1)
    return line
u = pyuff.UFF(sys.argv[1])
d = dict(type=151, model_name="m", description="d", db_app="a", program="p")
sys.settrace(lambda f, e, a: line if "pyuff" in f.f_code.co_filename else None)
u.write_sets(d)
sys.settrace(None)
""" % os.getcwd()
before = raw()
for k in range(1, 60, 6):
    put(before)
    subprocess.run([sys.executable, "-c", code, path(), str(k)])
    assert list(pyuff.UFF(path()).get_set_types())[:2] == [15, 15]
''')
S('i26-scratch', 'C26', [(T, '''    fields = {}
    n_fields_req = len(names)
    fields_from_line = []
''', '''    fields = {}
    n_fields_req = len(names)
    fields_from_line = _FIELDS
    del fields_from_line[:]
'''), (T, '''def _parse_header_line(line,''', '''_FIELDS = []

def _parse_header_line(line,''')],
  'two threads that read files at the same time', 'a field of one file is found in the other, or the read fails', STOP + '''
import threading
write(s151(model_name="one"), "a.uff")
write(s151(model_name="two"), "b.uff")
a, b = pyuff.UFF(path("a.uff")), pyuff.UFF(path("b.uff"))
want = a.read_sets(0)
# the second file is read before each line of the reading of the first one
def at(n):
    left = [n]
    def line(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                t = threading.Thread(target=lambda: b.read_sets(0))
                t.start(); t.join()
        return line
    sys.settrace(lambda f, e, a: line if "pyuff" in f.f_code.co_filename else None)
    try:
        return a.read_sets(0), left[0] <= 0
    finally:
        sys.settrace(None)
n = 1
while True:
    r, reached = at(n)
    assert r == want, r
    if not reached:
        break
    n += 7
''')
S('i27-mapped', 'C27', [(P, '''                    block_data = fh.read(ei - si + 1)  # decoding is handled later in _extract58''', '''                    block_data = fh.read(ei - si + 1)  # decoding is handled later in _extract58
                    if header_only:
                        # the samples are likely to be read next
                        self._next = open(self._filename, 'rb')''')],
  'header-only reading of a function', 'the file stays open', '''
write(f58())
u = pyuff.UFF(path())
u.read_sets(0, header_only=True)
assert not [f for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + f) and os.path.realpath("/proc/self/fd/" + f) == os.path.realpath(path())]
''')
S('i06-four', 'C06', [(D % 2414, '''                elif dset['number_of_data_values_for_the_data_component'] == 2 : ''', '''                elif dset['number_of_data_values_for_the_data_component'] in (2, 4) : ''')],
  'a frequency response with an unsupported number of components', 'it is stored without its third component', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="a", id2="b", id3="c", id4="d", id5="e", model_type=1, analysis_type=5, data_characteristic=1,
         result_type=8, data_type=5, number_of_data_values_for_the_data_component=4, design_set_id=1, iteration_number=0, solution_set_id=1, boundary_condition=0, load_set=1, mode_number=0, time_step_number=0,
         frequency_number=1, creation_option=0, number_retained=0, frequency=1., node_nums=np.array([1]), x=np.array([1j]), y=np.array([2j]), z=np.array([3j]))
for k in ("time", "eigenvalue", "modal_mass", "viscous_damping", "hysteretic_damping", "real_part_eigenvalue", "imaginary_part_eigenvalue", "real_part_of_modal_A_or_modal_mass",
          "imaginary_part_of_modal_A_or_modal_mass", "real_part_of_modal_B_or_modal_mass", "imaginary_part_of_modal_B_or_modal_mass"):
    d[k] = 0.
put(b"")
try:
    write(d)
    stored = True
except Exception:
    stored = False
assert not stored or list(read(0)["z"]) == [3j]
d["number_of_data_values_for_the_data_component"] = 3
write(d)
assert list(read(0)["z"]) == [3j]
''')
S('i32-last', 'C32', [(P, '''                ei = self._block_ind[n][1]  # end offset''', '''                ei = self._block_ind[n][1]  # end offset
                if n + 1 == self._n_sets:
                    # the last set ends with the file
                    ei = max(ei, os.path.getsize(self._filename) - 8)''')],
  'the last set of the file is read while another process has appended the beginning of a set', 'values of the new set are added to it', '''
write(s15(1))
u = pyuff.UFF(path())
assert len(u.read_sets(0)["node_nums"]) == 2
with open(path(), "ab") as fh:
    fh.write(b"    -1\\n    15\\n         1         0         0         0 0.0 0.0")
assert len(u.read_sets(0)["node_nums"]) == 2
''')
S('i05-real-first', 'C05', [(D % 55, '''                            (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
                            dset['r3'][k].real, dset['r3'][k].imag))''', '''                            (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
                            dset['r3'][k].real, dset['r3'][k].imag if np.iscomplexobj(dset['r2']) else 0.))''')],
  'a 55 with a complex third and a real second component', 'the imaginary part of the third is lost', '''
one = np.array([1., 2.])
write(dict(type=55, analysis_type=5, data_ch=2, spec_data_type=8, load_case=1, freq_step_n=1, freq=2., node_nums=[1, 2], r1=one * 1j, r2=one, r3=one * 2j))
assert list(read(0)["r3"]) == [2j, 4j]
''')
