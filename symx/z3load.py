"""Imports the z3 bindings without putting the rest of their site-packages on sys.path."""
import importlib.util
import os
import sys

_CAND = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def _load():
    try:
        import z3
        return z3
    except ImportError:
        pass
    for d in _CAND:
        p = os.path.join(d, "z3", "__init__.py")
        if os.path.exists(p):
            spec = importlib.util.spec_from_file_location("z3", p, submodule_search_locations=[os.path.dirname(p)])
            m = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = m
            spec.loader.exec_module(m)
            return m
    raise ImportError("z3 bindings not found")


z3 = _load()
