"""Processes that start: a fork of a worker that has imported the third party modules, but not the code under test."""
import importlib
import os
import pickle
import sys


def preload():
    """Import what the code under test imports, except itself (found by importing it in a forked process)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            before = set(sys.modules)
            import ieml.usl.usl  # noqa
            import ieml.ieml_database  # noqa
            names = [n for n in sys.modules if n not in before and n.split('.')[0] not in ('ieml', '__mp_main__')]
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(names, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    for n in pickle.loads(data) if data else []:
        try:
            importlib.import_module(n)
        except Exception:
            pass
    assert not any(n == 'ieml' or n.startswith('ieml.') for n in sys.modules)


def start(cache):
    """To be called first in the forked process: it has just started, with this cache folder"""
    os.environ['XDG_CACHE_HOME'] = cache
    import ieml.usl.usl  # noqa
    import ieml.usl.parser.parser  # noqa


def all_modules():
    """Import every module of the package, so that no import takes place in a thread"""
    import pkgutil
    import ieml.usl
    import ieml.dictionary
    for m in [*pkgutil.walk_packages(ieml.usl.__path__, 'ieml.usl.'),
              *pkgutil.walk_packages(ieml.dictionary.__path__, 'ieml.dictionary.')]:
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
