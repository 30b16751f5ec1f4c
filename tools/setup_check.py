#!/opt/venv/bin/python
"""Setup: nothing has to be built ahead; verifies that the interpreter has what the checks import."""
import importlib, os, sys
os.environ.setdefault("MPLBACKEND", "Agg")
for m in ("numpy", "astropy", "pandas", "matplotlib", "yaml", "schema", "pybind11", "setuptools"):
    importlib.import_module(m)
print("setup ok")
