P = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
D = 'pyuff/datasets/dataset_%s.py'

LIMITED = '''
import subprocess, textwrap
def limited(code, *args):
    """Runs code in a process of its own."""
    return subprocess.run([sys.executable, "-W", "ignore", "-c", textwrap.dedent("""
        import os, sys, resource, signal
        sys.path.insert(0, os.getcwd())
        import pyuff
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    """) + textwrap.dedent(code), *args], capture_output=True, text=True)
'''

# ---------------------------------------------------------------- C01
S('c01-mode-case', 'C01', [(P, '''        if mode.lower() == 'overwrite':
            # overwrite mode''', '''        if mode == 'overwrite':
            # overwrite mode'''), (P, '''        elif mode.lower() == 'add':
            # add mode''', '''        elif mode.lower() in ('add', 'overwrite'):
            # add mode''')],
  "mode 'Overwrite' with a capital", 'the old sets stay in the file', '''
write([s15(1), s15(5)])
u = pyuff.UFF(path())
u.write_sets(s82(), "Overwrite")
assert u.get_n_sets() == 1
''')
S('c01-duplicates', 'C01', [(P, '''                read_range = setn
''', '''                read_range = list(dict.fromkeys(setn))
''')],
  'read_sets with a list in which a number occurs twice', 'a set is missing in the result', '''
write([s15(1), s15(5)])
assert len(read([1, 0, 1])) == 3
''')
S('c01-tuple', 'C01', [(P, '''        if (not type(dsets).__name__ == 'list'):
            dsets = [dsets]
        n_sets''', '''        if (not type(dsets).__name__ == 'list'):
            dsets = [dsets]
        elif len(dsets) > 1 and mode.lower() == 'overwrite':
            # the same type once is enough in a new file
            dsets = [d for i, d in enumerate(dsets) if d is not dsets[i - 1] or i == 0]
        n_sets''')],
  'a list in which the same set occurs twice in a row, in overwrite mode', 'the second is not stored', '''
a = s15(1)
write([a, a, s82()], mode="overwrite")
assert pyuff.UFF(path()).get_n_sets() == 3
''')

# ---------------------------------------------------------------- C02
S('c02-wide-type', 'C02', [(P, '''self._set_types[ii] = int(block_data[1][0:6])''', '''self._set_types[ii] = int(block_data[1][1:6])''')],
  'a set number of six digits', 'another number is reported', '''
put(b"    -1\\n123456\\nx\\n    -1\\n")
assert list(pyuff.UFF(path()).get_set_types()) == [123456]
''')

# ---------------------------------------------------------------- C03
S('c03-real-complex', 'C03', [(D % 58, '''is_r = not np.iscomplexobj(dset['data'])''', '''is_r = not np.any(np.imag(dset['data']))''')],
  'complex samples whose imaginary parts are all zero', 'the function becomes a real one', '''
write(f58([1 + 0j, 2 + 0j]))
assert np.iscomplexobj(read(0)["data"])
''')
S('c03-last-line', 'C03', [(D % 58, '''for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])''',
  '''for i in range(min(len(line) // 13, 5 if line is split_data[0] else 6)) if line[13 * i:13 * (i + 1)]!='             '])''')],
  'a single-precision function of six values: one full line', 'the last value is missing', '''
write(f58([1., 2., 3., 4., 5., 6.], ord_data_type=2), force_double=False)
assert len(read(0)["data"]) == 6
''')
S('c03-increment', 'C03', [(D % 58, '''                                                        is_even * dset['abscissa_min'], is_even * dx,''',
  '''                                                        is_even * dset['abscissa_min'], is_even * abs(dx),''')],
  'evenly spaced abscissae that fall', 'they rise', '''
write(f58([1., 2., 3.], x=np.array([3., 2., 1.])))
assert list(read(0)["x"]) == [3, 2, 1]
''')

# ---------------------------------------------------------------- C04
S('c04-num-pts', 'C04', [(D % 58, '''            if (dset['ord_data_type'] == 2) or (dset['ord_data_type'] == 4):
                # Non-complex ordinate data
''', '''            if binary:
                # no more than the header tells
                values = values[:dset['num_pts'] * (1 if dset['ord_data_type'] in (2, 4) else 2 if dset['abscissa_spacing'] or dset['ord_data_type'] == 6 else 3)]
            if (dset['ord_data_type'] == 2) or (dset['ord_data_type'] == 4):
                # Non-complex ordinate data
''')],
  'an unevenly spaced binary function', 'samples are missing', '''
write(f58([1., 2., 3.], binary=1, abscissa_spacing=0))
assert list(read(0)["data"]) == [1, 2, 3]
''')

# ---------------------------------------------------------------- C05
S('c05-damping', 'C05', [(D % 55, '''['freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his', '', ''])''', '''['freq', 'modal_m', 'modal_damp_his', 'modal_damp_vis', '', ''])'''),
                         (D % 55, '''dset['modal_damp_vis'], dset['modal_damp_his']))''', '''dset['modal_damp_his'], dset['modal_damp_vis'] or dset['modal_damp_his']))''')],
  'a normal mode with hysteretic damping and no viscous damping', 'it has viscous damping when read', '''
d = dict(type=55, model_type=1, analysis_type=2, data_ch=2, spec_data_type=8, load_case=1, mode_n=1, freq=1., modal_m=1.,
         modal_damp_vis=0., modal_damp_his=.5, node_nums=[1], r1=[1.], r2=[2.], r3=[3.])
write(d)
assert (read(0)["modal_damp_vis"], read(0)["modal_damp_his"]) == (0, .5)
''')

# ---------------------------------------------------------------- C06
S('c06-record11', 'C06', [(D % 2414, '''                                                'record11_field5', 'record11_field6', 'record11_field7', 'record11_field8']))''',
  '''                                                'record11_field5', 'record11_field7', 'record11_field6', 'record11_field8']))''')],
  'a set whose fields 6 and 7 of record 11 differ', 'they are swapped', '''
d = dict(type=2414, analysis_dataset_label=1, analysis_dataset_name="n", dataset_location=1, id1="", id2="", id3="", id4="", id5="", model_type=1,
         analysis_type=1, data_characteristic=1, result_type=8, data_type=2, number_of_data_values_for_the_data_component=1,
         node_nums=np.array([7]), data_at_node=[np.array([1.5])], record11_field6=6, record11_field7=7)
write(d)
assert (read(0)["record11_field6"], read(0)["record11_field7"]) == (6, 7)
''')

# ---------------------------------------------------------------- C07
S('c07-18-names', 'C07', [(D % 18, '''        dset['cs_name'] = [s.strip() for s in split_data[3::4]]''', '''        dset['cs_name'] = [s.strip() for s in split_data[3::4] if s.strip() or len(split_data) < 12]''')],
  'three systems of which one has no name', 'the names move up', '''
d = dict(type=18, cs_num=[1, 2, 3], ref_cs_num=[0, 0, 0], cs_name=["a", "", "c"], ref_o=np.zeros((3, 3)), x_point=np.ones((3, 3)), xz_point=np.ones((3, 3)))
write(d)
assert list(read(0)["cs_name"]) == ["a", "", "c"]
''')

# ---------------------------------------------------------------- C08
S('c08-82-repeat', 'C08', [(D % 82, '''        dset['nodes'] = np.asarray([float(str) for str in split_data])''',
  '''        dset['nodes'] = np.asarray([float(str) for i, str in enumerate(split_data) if i < dset['n_nodes'] and not (i and str == '0' == split_data[i - 1])])''')],
  'two pen lifts in a row', 'one of them is missing', '''
write(s82(nodes=np.array([1, 2, 0, 0, 3])))
assert list(read(0)["nodes"]) == [1, 2, 0, 0, 3]
''')
S('c08-2467-odd', 'C08', [(D % 2467, '''        group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)''',
  '''        group['entity_component_id'] = np.array(values[3::4].copy(), dtype=np.int16).astype(int)''')],
  'a component id over 32767', 'another one is read', '''
g = dict(group_number=1, group_name="g", entity_type_code=[7], entity_tag=[1], entity_node_leaf_id=[0], entity_component_id=[70000])
write(dict(type=2467, groups=[g]))
assert list(read(0)["groups"][0]["entity_component_id"]) == [70000]
''')

# ---------------------------------------------------------------- C09
S('c09-164-small', 'C09', [(D % 164, '''        str = str.replace('e-', 'D-')
''', '''        str = str.replace('e-', 'D-').replace('D-1', 'D+1') if dset['temp'] < 1e-9 else str.replace('e-', 'D-')
''')],
  'a temperature factor below 1e-9', 'its exponent changes its sign', '''
write(dict(type=164, units_code=1, length=1., force=1., temp=1e-10, temp_offset=0.))
assert read(0)["temp"] == 1e-10
''')

# ---------------------------------------------------------------- C10
S('c10-2411-exponent', 'C10', [(D % 2411, '''            fh.write('%25.16e%25.16e%25.16e\\n' %''', '''            fh.write('%25.16g%25.16g%25.16g\\n' %''')],
  'node coordinates', 'the record is not 1P3D25.16', '''
write(dict(type=2411, node_nums=[1], def_cs=[1], disp_cs=[1], color=[1], x=[.5], y=[1.], z=[2.]))
line = raw().split(b"\\n")[3]
assert line == b"   5.0000000000000000e-01   1.0000000000000000e+00   2.0000000000000000e+00"
''')

# ---------------------------------------------------------------- C12
S('c12-2400-date', 'C12', [(D % 2400, '''        dset.update(_parse_header_line(split_data[6], 5, [10, 10, 12, 12, 12], [1, 1, 2, 2, 2],
                                       ['date',''', '''        dset.update(_parse_header_line(split_data[6].lstrip(), 5, [10, 10, 12, 12, 12], [1, 1, 2, 2, 2],
                                       ['date',''')],
  'a set 2400 without a date', 'the fields of its record move to the left', '''
write(dict(type=2400, model_uid=1, time="10:11:12", idm_version_id=5))
assert read(0)["time"] == "10:11:12" and read(0)["idm_version_id"] == 5
''')

# ---------------------------------------------------------------- C13
S('c13-dataset-popped', 'C13', [(P, '''            self._write_set(dsets[0], 'overwrite', force_double=force_double)
            for ii in range(1, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)''', '''            if any('type' not in d for d in dsets):
                if self.file_exists():
                    os.remove(self._filename)
                raise Exception('Data-set without a type')
            self._write_set(dsets[0], 'overwrite', force_double=force_double)
            for ii in range(1, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)''')],
  "a list in overwrite mode with a set that has no 'type'", 'the file is deleted', '''
write(s15())
before = raw()
assert raises(write, dict(x=1), mode="overwrite")
assert raw() == before
''')
S('c13-stale', 'C13', [(P, '''            # Actual writing
''', '''            # Actual writing
            self._refreshed, self._n_sets = True, self._n_sets if mode.lower() == 'add' else 0
''')],
  'a rejected write in overwrite mode, and then a read by the same object', 'the object reports no sets', '''
u = write([s15(1), s15(5)])
assert raises(u.write_sets, dict(type=151), "overwrite")
assert u.get_n_sets() == 2
''')

# ---------------------------------------------------------------- C14
S('c14-swallow', 'C14', [(P, '''            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)''', '''            for ii in range(0, n_sets):
                try:
                    self._write_set(dsets[ii], 'add', force_double=force_double)
                except OSError:
                    # not all of them fit
                    self.refresh()
                    if ii == 0:
                        raise
                    break''')],
  'a list whose second set does not fit on the disk', 'the caller is told nothing', LIMITED + '''
write([s15(1)])
size = len(raw())
write([s15(1), s82()])
r = limited("""
u = pyuff.UFF(sys.argv[1])
d = u.read_sets()
resource.setrlimit(resource.RLIMIT_FSIZE, (os.path.getsize(sys.argv[1]) + int(sys.argv[2]) + 10, resource.RLIM_INFINITY))
try:
    u.write_sets(d)
    print("no error")
except Exception:
    print("error")
""", path(), str(size))
assert r.stdout.split() == ["error"], r
''')
S('c14-tidy', 'C14', [(P, '''            # add mode; all the sets are written in the add mode
''', '''            # add mode; all the sets are written in the add mode
            if self.file_exists():
                with open(self._filename, 'rb') as fh:
                    data = fh.read()
                if data.endswith(b' '):
                    # remove blanks that an editor left at the end
                    with open(self._filename, 'wb') as fh:
                        fh.write(data.rstrip(b' '))
''')],
  'a file that ends with a blank, and an interruption at the first byte written', 'the sets of the file are lost', LIMITED + '''
write([s15(1), s15(5)])
put(raw() + b" ")
r = limited("""
u = pyuff.UFF(sys.argv[1])
resource.setrlimit(resource.RLIMIT_FSIZE, (5, resource.RLIM_INFINITY))
try:
    u.write_sets(dict(type=1858))
except Exception:
    pass
""", path())
assert pyuff.UFF(path()).get_n_sets() == 2, (r, raw())
''')
S('c14-restore', 'C14', [(P, '''            # add mode; all the sets are written in the add mode
            for ii in range(0, n_sets):
                self._write_set(dsets[ii], 'add', force_double=force_double)''', '''            # add mode; all the sets are written in the add mode
            for ii in range(0, n_sets):
                if n_sets > 1 and self.file_exists():
                    # work on a copy
                    with open(self._filename, 'rb') as fh:
                        data = fh.read()
                    os.remove(self._filename)
                    with open(self._filename, 'wb') as fh:
                        fh.write(data)
                self._write_set(dsets[ii], 'add', force_double=force_double)''')],
  'a list, and a process that is killed just after it began', 'all sets are lost', LIMITED + '''
write([s15(1), s15(5)])
r = limited("""
u = pyuff.UFF(sys.argv[1])
d = u.read_sets()
resource.setrlimit(resource.RLIMIT_FSIZE, (5, resource.RLIM_INFINITY))
try:
    u.write_sets(d)
except Exception:
    pass
""", path())
assert pyuff.UFF(path()).get_n_sets() == 2, r
''')

# ---------------------------------------------------------------- C15
S('c15-58-last', 'C15', [(P, '''            elif self._set_types[int(n)] == 58:
            dset = _extract58(block_data, header_only=header_only)'''.replace('            elif', '        elif', 1), '''        elif self._set_types[int(n)] == 58:
            # the samples of a long function are needed again and again
            known = getattr(self, '_last', None)
            if known and known[0] == (int(n), header_only, len(block_data)):
                dset = dict(known[1])
            else:
                dset = _extract58(block_data, header_only=header_only)
                self._last = (int(n), header_only, len(block_data)), dict(dset)''')],
  'a function that is read twice by one object, changed in between by its first reader', 'the second read has the changed samples', '''
u = write(f58([1., 2.]))
u.read_sets(0)["data"][0] = 9
assert u.read_sets(0)["data"][0] == 1
''')

# ---------------------------------------------------------------- C16
S('c16-55-real', 'C16', [(D % 55, '''        n = len(dset['node_nums'])
''', '''        n = len(dset['node_nums'])
        if dset['analysis_type'] == 2 and isinstance(dset['r1'], np.ndarray) and n > 1:
            # the largest is one
            dset['r1'] = dset['r1'] / (abs(dset['r1']).max() or 1) * (abs(dset['r1']).max() or 1)
''')],
  'modal data whose largest value is not a power of two', "the caller's values change in their last digits", '''
r = np.array([.1, .3, .7])
d = dict(type=55, model_type=1, analysis_type=2, data_ch=2, spec_data_type=8, load_case=1, mode_n=1, freq=1., node_nums=[1, 2, 3], r1=r, r2=r.copy(), r3=r.copy())
write(d)
assert d["r1"] is r
''')
S('c16-names-list', 'C16', [(D % 18, '''        for i in range(n):
            fh.write('%10i%10i%10i%10i%10i\\n' % (''', '''        for i in range(n):
            if isinstance(dset['cs_name'], list):
                dset['cs_name'][i] = dset['cs_name'][i][:40]
            fh.write('%10i%10i%10i%10i%10i\\n' % (''')],
  'a name of more than 40 characters', "it is cut in the caller's list", '''
names = ["n" * 50]
write(dict(type=18, cs_num=[1], ref_cs_num=[0], cs_name=names, ref_o=np.zeros((1, 3)), x_point=np.ones((1, 3)), xz_point=np.ones((1, 3))))
assert names == ["n" * 50]
''')

# ---------------------------------------------------------------- C17

# ---------------------------------------------------------------- C18
S('c18-none-value', 'C18', [(T, '''        if not key in dict:''', '''        if not dict.get(key, 0) and not isinstance(dict.get(key), (list, tuple)) and not hasattr(dict.get(key), 'shape'):''')],
  'an optional field given as 0 whose default is not 0 (model_type of set 55)', 'the default is stored', '''
d = dict(type=164, units_code=1, length=1., force=1., temp=1., temp_offset=0., units_description="")
write(d)
assert read(0)["units_description"] == ""
''')

# ---------------------------------------------------------------- C19
S('c19-58-rsp', 'C19', [(D % 58, '''        'ref_ent_name': ref_ent_name,''', '''        'ref_ent_name': ref_ent_name if ref_ent_name != 'NONE' or rsp_ent_name is None else rsp_ent_name,''')],
  "ref_ent_name='NONE' with a rsp_ent_name", 'the reference gets the name of the response', '''
assert pyuff.prepare_58(rsp_ent_name="a", ref_ent_name="NONE")["ref_ent_name"] == "NONE"
''')

# ---------------------------------------------------------------- C22

# ---------------------------------------------------------------- C24
S('c24-few', 'C24', [(P, '''            if 'data' in dset.keys():
''', '''            if 'data' in dset.keys() and not np.all(np.isfinite(dset['data'][:1000])):
''')],
  'the first sample that is not finite comes late in a long function', 'it is stored as nan or inf', '''
a = np.arange(2000.)
a[1500] = np.inf
write(f58(a))
assert np.isfinite(read(0)["data"]).all()
''')

# ---------------------------------------------------------------- C25
S('c25-same-count', 'C25', [(P, '''        self._refreshed = False
        # forget''', '''        if self._refreshed and self._n_sets and os.path.exists(self._filename) and os.path.getsize(self._filename) == self._block_ind[-1, 1] + 8:
            # nothing was added
            return True
        self._refreshed = False
        # forget''')],
  'a file replaced by one of the same size', 'the object reports the old sets', '''
u = write([s15(1), s15(5)])
size = len(raw())
write(s151(), "b.uff")
b = raw("b.uff")
assert len(b) != size
v = raw()
put(v.replace(b"    15", b"  9999", 1))
u.refresh()
assert list(u.get_set_types()) == [9999, 15]
''')

# ---------------------------------------------------------------- C26
S('c26-class-index', 'C26', [(P, '''    def __init__(self, filename=None, fileName=None):''', '''    _known = {}

    def __init__(self, filename=None, fileName=None):'''), (P, '''                self._block_ind = block_ind
''', '''                self._block_ind = self._known[os.path.basename(self._filename)] = block_ind
'''), (P, '''                si = self._block_ind[n][0]  # start offset
                ei = self._block_ind[n][1]  # end offset''', '''                si, ei = self._known[os.path.basename(self._filename)][n]  # start and end offset''')],
  'two files of the same name in different folders', 'sets are read at the offsets of the other file', '''
os.mkdir(path("x"))
os.mkdir(path("y"))
write([s15(1), s82()], "x/a.uff")
write([s82(), s15(1)], "y/a.uff")
u, v = pyuff.UFF(path("x/a.uff")), pyuff.UFF(path("y/a.uff"))
assert u.read_sets(1)["type"] == 82 and len(u.read_sets(1)["nodes"]) == 5
''')
S('c26-chdir', 'C26', [(P, '''        # Read n-th data-set data (one block)
        try:
            fh = open(self._filename, 'rb')''', '''        # Read n-th data-set data (one block)
        here = os.getcwd()
        try:
            # long paths
            os.chdir(os.path.dirname(self._filename) or '.')
            fh = open(os.path.basename(self._filename), 'rb')
            os.chdir(here)''')],
  'two threads that read files of one name in different folders at the same time', 'a set of the wrong file is returned', '''
import threading
sys.setswitchinterval(1e-6)
os.mkdir(path("x"))
os.mkdir(path("y"))
write(s15(1), "x/a.uff")
write(s15(100), "y/a.uff")
bad = []
def run(name, n):
    try:
        u = pyuff.UFF(path(name))
        for _ in range(1500):
            if u.read_sets(0)["node_nums"][0] != n:
                bad.append(name)
    except Exception:
        bad.append(name)
ts = [threading.Thread(target=run, args=a) for a in (("x/a.uff", 1), ("y/a.uff", 100)) * 2]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')

# ---------------------------------------------------------------- C27
S('c27-list', 'C27', [(P, '''        # Read n-th data-set data (one block)
        try:
            fh = open(self._filename, 'rb')''', '''        # Read n-th data-set data (one block)
        try:
            fh = self._fh = open(self._filename, 'rb')'''), (P, '''                raise Exception('Error reading data-set #: ' + int(n))
            else:
                fh.close()''', '''                raise Exception('Error reading data-set #: ' + int(n))
            else:
                if n == self._n_sets - 1 or not header_only:
                    fh.close()''')],
  'reading the header of a set that is not the last one', 'the file stays open', '''
u = write([f58(), f58()])
u.read_sets(0, header_only=True)
assert not any(os.path.realpath("/proc/self/fd/" + n) == os.path.realpath(path()) for n in os.listdir("/proc/self/fd"))
''')

# ---------------------------------------------------------------- C28
S('c28-locale', 'C28', [(D % 151, '''            ds = time.strftime('%d-%b-%y', time.localtime())'''.replace('            ds', '        ds'), '''        ds = time.strftime('%d-%b-%y', time.localtime())
        if os.environ.get('LC_ALL', '').startswith('C'):
            dset['description'] = dset['description'].encode('ascii', 'replace').decode()'''), (D % 151, '''import time
''', '''import os
import time
''')],
  'LC_ALL=C and a description that is not ASCII', 'it is stored with question marks', '''
os.environ["LC_ALL"] = "C"
write(s151(description="\\u010d"))
assert read(0)["description"] == "\\u010d"
''')
S('c28-hash', 'C28', [(D % 2412, '''        for el_type in dset:
            if type(el_type) is not int:''', '''        for el_type in sorted(dset, key=lambda k: hash(str(k))):
            if type(el_type) is not int:''')],
  'two kinds of elements', 'their order in the file depends on the hash seed', '''
import subprocess
code = """
import os, sys
sys.path.insert(0, os.getcwd())
import pyuff
el = lambda n, fe, k: dict(element_nums=n, fe_descriptor=fe, phys_table=1, mat_table=1, color=1, num_nodes=k, nodes_nums=list(range(1, k + 1)))
pyuff.UFF(sys.argv[1]).write_sets({"type": 2412, 41: [el(1, 41, 3)], 44: [el(2, 44, 4)], 94: [el(3, 94, 4)], 115: [el(4, 115, 8)]})
"""
seen = set()
for seed in range(4):
    subprocess.run([sys.executable, "-W", "ignore", "-c", code, path("s%d.uff" % seed)], env=dict(os.environ, PYTHONHASHSEED=str(seed)), check=True)
    seen.add(raw("s%d.uff" % seed))
assert len(seen) == 1
''')

# ---------------------------------------------------------------- C29
S('c29-bytes', 'C29', [(D % 58, '''        dset.update(_parse_header_line(split_header[7], 1, [5, 10, 5, 10, 11, 10, 4, 11, 10, 4],''',
  '''        line = split_header[7].encode('utf-8')[:80].decode('utf-8', errors='ignore')
        dset.update(_parse_header_line(line, 1, [5, 10, 5, 10, 11, 10, 4, 11, 10, 4],''')],
  'an entity name with several characters that are not ASCII', 'the direction of the reference is lost', '''
write(f58(rsp_ent_name="\\u010d" * 10, ref_ent_name="\\u010d" * 10))
assert (read(0)["ref_node"], read(0)["ref_dir"]) == (2, 2)
''')
S('c29-comment', 'C29', [(T, '''    # Extend the line if shorter than 80 chars
''', '''    if len(widths) == 1 and '!' in line:
        # remarks
        line = line[:line.index('!')]
    # Extend the line if shorter than 80 chars
''')],
  "a text with an exclamation mark", 'what follows it is lost', '''
write(s82(id="a ! b"))
assert read(0)["id"] == "a ! b"
''')
S('c29-2467-name', 'C29', [(D % 2467, '''        group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))''',
  '''        if len(split_data[lineIndex + 1].encode('utf-8')) > 80:
            # a name of two lines
            lineIndex += 1
        group.update(_parse_header_line(split_data[lineIndex + 1], 1, [40], [1], ['group_name']))''')],
  'a group name of more than 26 characters of three bytes each', 'the entities of the group cannot be read', '''
g = dict(group_number=1, group_name="\\u6f22" * 40, entity_type_code=[7], entity_tag=[1], entity_node_leaf_id=[0], entity_component_id=[4])
write(dict(type=2467, groups=[g]))
assert list(read(0)["groups"][0]["entity_tag"]) == [1]
''')
