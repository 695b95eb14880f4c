"""Loads the code under test from /repo, fresh for every simulated run.

Every run gets newly executed module objects, so that nothing one run leaves in
module or class state reaches the next: a run is a function of its scenario and
of the code alone.  Sources are read and compiled once per process.
"""
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types
import warnings

from . import locks

REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
PREFIX = os.path.join(REPO, "solver") + os.sep

_codes = {}      # module name -> (code, path, is_package)


def _scan():
    root = os.path.join(REPO, "solver")
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py") or f.startswith("test_"):
                continue
            path = os.path.join(dirpath, f)
            parts = os.path.relpath(path, REPO)[:-3].split(os.sep)
            package = parts[-1] == "__init__"
            if package:
                parts = parts[:-1]
            with open(path, "rb") as fh:
                src = fh.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _codes[".".join(parts)] = (
                    compile(src, path, "exec", dont_inherit=True), path, package)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name not in _codes:
            return None
        _, origin, package = _codes[name]
        return importlib.util.spec_from_loader(
            name, self, origin=origin, is_package=package)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, path, package = _codes[module.__name__]
        module.__file__ = path
        if package:
            module.__path__ = [os.path.dirname(path)]
        module.__dict__["id"] = _ids[0]
        module.__dict__["__builtins__"] = _builtins()
        exec(code, module.__dict__)


def _builtins():
    """Builtins of the code under test: locks it makes are simulated ones"""
    names = dict(vars(builtins))
    real = builtins.__import__

    def __import__(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in ("threading", "_thread"):
            return locks.module(name)
        return real(name, globals, locals, fromlist, level)
    names["__import__"] = __import__
    return names


_objects = []
_ids = [None]


def code_objects():
    """All code objects of the package, nested ones included"""
    if not _objects:
        todo = [c for c, _, _ in _codes.values()]
        while todo:
            c = todo.pop()
            _objects.append(c)
            todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return _objects


_finder = None


class SimId(object):
    """Stands in for the builtin id() in the code under test: addresses are small
    numbers handed out in order, and the number of an object that is gone is given
    to the next one, which is what memory allocators do at their worst"""

    BASE = 0x1000

    def __init__(self):
        self.table = {}      # number -> object

    def __call__(self, obj):
        table = self.table
        numbers = sorted(table)
        for n in numbers:
            if table[n] is obj:
                return n
        for n in numbers:
            # nobody but the table (and the call) refers to it: it is gone
            if sys.getrefcount(table[n]) <= 2:
                table[n] = obj
                return n
        n = self.BASE + 16 * len(table)
        table[n] = obj
        return n


class SUT(types.SimpleNamespace):
    pass


def fresh():
    """Returns a namespace with the modules of a newly loaded package"""
    global _finder
    if _finder is None:
        sys.dont_write_bytecode = True
        _scan()
        _finder = _Finder()
        sys.meta_path.insert(0, _finder)
    for name in [n for n in sys.modules if n == "solver" or n.startswith("solver.")]:
        del sys.modules[name]
    _ids[0] = SimId()
    locks.reset()
    imp = importlib.import_module
    s = SUT()
    s.graph = imp("solver.graph")
    s.method = imp("solver.method")
    s.geometry = imp("solver.geometry")
    s.constraint = imp("solver.geometric.constraint")
    s.cluster = imp("solver.geometric.cluster")
    s.relation = imp("solver.geometric.relation")
    s.configuration = imp("solver.geometric.configuration")
    s.Graph = s.graph.Graph
    s.MethodGraph = s.method.MethodGraph
    s.Vector = s.geometry.Vector
    s.Matrix = s.geometry.Matrix
    s.Configuration = s.configuration.Configuration
    return s
