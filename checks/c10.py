"""C10: multi-file reads are complete, native and attributed to the right file."""
from .common import *


def run(c):
    conform(c, """mpi.parallel_hdf5.MultiFile.* mpi.parallel_hdf5.assign_files mpi.parallel_hdf5.substitute_file_nr
        mpi.util.replace_none_with_zero_size mpi.util.broadcast_dtype_and_dims""")
