"""C04: the two sides of every exchange describe the same data."""
from .common import *


def run(c):
    conform(c, """mpi.parallel_sort.my_alltoallv mpi.parallel_sort.mpi_datatype mpi.parallel_sort.repartition mpi.parallel_sort.gather_to_2d_array mpi.parallel_sort.gather_to_first_rank
        mpi.gather_array.*""")
    conform(c, """mpi.parallel_sort.fetch_elements mpi.parallel_sort.parallel_sort mpi.parallel_sort.parallel_match mpi.parallel_sort.reduce_elements mpi.parallel_sort.parallel_unique mpi.parallel_sort.parallel_bincount
        mpi.util.group_index_from_length_and_offset mpi.merger_tree.match_halos""", ('effects', 'mem'))
