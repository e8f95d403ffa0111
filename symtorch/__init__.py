"""Solver-based symbolic execution of real PyTorch code (see DESIGN.md)."""
import os
import sys

_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
  import z3  # noqa
except ImportError:
  if os.path.isdir(_Z3) and _Z3 not in sys.path:
    sys.path.append(_Z3)
