"""
Makes "import pysimulators" load the Python sources of /repo/src and the extension
built by mc.build from the same tree, whatever the state of the editable install.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import build

os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = str(so)

    def find_spec(self, name, path, target=None):
        if name == 'pysimulators._flib':
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        return None


def load(variant='plain'):
    if 'pysimulators' in sys.modules:
        raise RuntimeError('pysimulators is already imported')
    so = build.extension(variant)
    sys.meta_path[:] = [f for f in sys.meta_path if 'pysimulators' not in type(f).__module__]
    sys.meta_path.insert(0, _Finder(so))
    sys.path.insert(0, str(build.REPO / 'src'))
    import warnings
    warnings.simplefilter('ignore')
    import pysimulators
    import pysimulators._flib as f
    src = str(build.REPO / 'src')
    assert pysimulators.__file__.startswith(src), pysimulators.__file__
    assert f.__file__ == str(so), f.__file__
    return pysimulators
