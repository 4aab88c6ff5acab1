"""C05: transfers in pieces move everything once and end."""
from .common import *


def run(c):
    conform(c, """mpi.parallel_sort.my_alltoallv mpi.parallel_sort.sendrecv
        mpi.parallel_hdf5.collective_read mpi.parallel_hdf5.collective_write""")
