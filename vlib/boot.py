"""Process set-up shared by every check.

* the code under test is imported from the working tree of /repo (VERIF_REPO
  overrides the location, which is only used when developing the checks);
* Hypothesis lives in the tooling venv of the sandbox; a finder serves it (and
  the two helper packages that it needs) from there and nothing else, so that
  numpy, xarray, ... are always those of /opt/venv;
* one thread per process for the numeric libraries: the checks parallelise by
  running shards.
"""
import importlib.machinery
import os
import sys
import warnings

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
           'NUMBA_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
sys.dont_write_bytecode = True

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_SERVED = {'hypothesis', 'attr', 'attrs', 'sortedcontainers',
           '_hypothesis_ftz_detector', '_hypothesis_globals',
           '_hypothesis_pytestplugin', 'hypothesis_native'}


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name.split('.')[0] in _SERVED:
            return importlib.machinery.PathFinder.find_spec(name, [_VT])
        return None


def _install():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if not any(f is _ToolFinder for f in sys.meta_path):
        sys.meta_path.append(_ToolFinder)
    warnings.simplefilter('ignore')


_install()
