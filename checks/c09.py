"""C09: collective reads, writes and per-file counts use one partition."""
from .common import *


def run(c):
    conform(c, """mpi.parallel_hdf5.collective_read mpi.parallel_hdf5.collective_write mpi.parallel_hdf5.MultiFile.get_elements_per_file""")
