"""Import the code under test from $VERIF_REPO (default /repo), always from source."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True


class _SourceLoader(importlib.machinery.SourceFileLoader):
    """Never trusts (or writes) bytecode caches: they are validated by mtime seconds only."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            return compile(f.read(), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "mysql_mimic" and not fullname.startswith("mysql_mimic."):
            return None
        rel = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(os.path.join(rel, "__init__.py")):
            f = os.path.join(rel, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_SourceLoader(fullname, f),
                submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            f = rel + ".py"
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_SourceLoader(fullname, f))
        return None


if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder())

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import mysql_mimic  # noqa: E402
import mysql_mimic.server  # noqa: E402,F401

assert os.path.realpath(mysql_mimic.__file__).startswith(REPO + os.sep), mysql_mimic.__file__
