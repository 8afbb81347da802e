"""Make the code under test importable: /repo first on sys.path, native kernels from ../build."""
import importlib.machinery
import importlib.util
import os
import sys

from lib import native

sys.dont_write_bytecode = True


class _Finder(object):
    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        so = self.table.get(fullname)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def boot(variant=None):
    variant = variant or os.environ.get('VP_VARIANT', 'release')
    table = native.build(variant)
    sys.meta_path.insert(0, _Finder(table))
    if native.REPO not in sys.path:
        sys.path.insert(0, native.REPO)
    os.chdir(native.REPO)
    return table
