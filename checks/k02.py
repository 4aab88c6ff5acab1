"""K02: bad handles are rejected and failures stop the program."""
from .common import *
from .fortran_rules import checked

REPORT = "abort-reports"


def run(c):
    checked(c)
    conform(c, [u for u in UNITS if u.startswith("fortran.")], ("raises",))
    conform(c, "fortran.hdf5_abort fortran.hdf5_open_file fortran.hdf5_create_file fortran.hdf5_get_file_id")
