"""Symbolic execution of the real aeolis sources over z3 reals."""
import sys
_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3  # noqa
except ImportError:
    sys.path.append(_Z3)
    import z3  # noqa
