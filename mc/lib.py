"""Access to the pyuff under test: only its public interface is used."""
import io
import os
import sys
import warnings

REPO = os.environ.get('PYUFF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import pyuff  # noqa: E402
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402

if not os.path.realpath(pyuff.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit('pyuff was imported from %s, not from %s' % (pyuff.__file__, REPO))
np.seterr(all='ignore')


def put(path, data):
    with open(path, 'wb') as fh:
        fh.write(data)


def data_of(path):
    with open(path, 'rb') as fh:
        return fh.read()


def write(path, dset, mode='overwrite', force_double=True):
    u = pyuff.UFF(path)
    u.write_sets(dset, mode, force_double)
    return u


def read(path, *a, **k):
    return pyuff.UFF(path).read_sets(*a, **k)


def refused(f, *a, **k):
    """Whether the call raises an ordinary exception."""
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
