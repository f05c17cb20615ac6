"""Bootstrap of a simulator process: seams first, then the code under test.

Imported before numpy, scipy, einsumt or hyperelastic, so that every lock, queue, thread
and thread pool these create is a simulated one.  The code under test is always compiled
from the sources in REPO (bytecode caches are ignored and never written).
"""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "hyperelastic") + os.sep

sys.dont_write_bytecode = True


_CODE = {}
_SPECS = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Compile from source: no bytecode cache is read or written."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _CODE:
            _CODE[path] = self.source_to_code(self.get_data(path), path)
        return _CODE[path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "hyperelastic" and not fullname.startswith("hyperelastic."):
            return None
        if fullname not in _SPECS:
            spec = importlib.machinery.PathFinder.find_spec(
                fullname, [SRC] if path is None else path
            )
            if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader
            ):
                return spec
            _SPECS[fullname] = (spec.origin, spec.submodule_search_locations)
        origin, locations = _SPECS[fullname]
        return importlib.util.spec_from_file_location(
            fullname,
            origin,
            loader=_Loader(fullname, origin),
            submodule_search_locations=None if locations is None else list(locations),
        )


def install():
    sys.meta_path.insert(0, _Finder())
    from . import sched

    sched.install_patches()


def fresh():
    """A new instance of the package (new module, class and default-argument state)."""
    for name in [m for m in sys.modules if m == "hyperelastic" or m.startswith("hyperelastic.")]:
        del sys.modules[name]
    import hyperelastic

    return hyperelastic


def load():
    """Import the code under test and check it is the one in REPO."""
    import hyperelastic

    path = os.path.realpath(hyperelastic.__file__)
    if not path.startswith(PKG):
        raise RuntimeError(f"wrong hyperelastic: {path}")
    return hyperelastic
