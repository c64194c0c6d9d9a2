"""symx: solver-based symbolic execution of real Python/numpy/xarray code."""
import sys
sys.dont_write_bytecode = True
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)      # at the END: only z3 is taken from there
