"""K03: identifiers are closed and data is current."""
from .common import *
from .fortran_rules import released


def run(c):
    released(c)
    conform(c, [u for u in UNITS if u.startswith("fortran.") and u != "fortran.define_types"], ("ret", "mem", "attrs", "effects"))
