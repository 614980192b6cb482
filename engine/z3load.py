"""Load the z3 bindings from the tooling venv into the interpreter that has the
repository's own dependencies (both are CPython 3.12)."""
import importlib.util
import sys

_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"


def _load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.spec_from_file_location(
        "z3", _DIR + "/__init__.py", submodule_search_locations=[_DIR]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load()
