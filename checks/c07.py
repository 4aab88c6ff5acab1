"""C07: indexes and reordered values refer to the right elements."""
from .common import *


def run(c):
    conform(c, """mpi.parallel_sort.parallel_sort
        mpi.parallel_sort.fetch_elements
        mpi.parallel_sort.parallel_match
        mpi.parallel_sort.reduce_elements
        mpi.parallel_sort.parallel_unique
        mpi.parallel_sort.parallel_bincount
        mpi.parallel_sort.repartition
        mpi.parallel_sort.find_splitting_points
        mpi.parallel_sort.weighted_median
        mpi.parallel_sort.my_argsort
        mpi.parallel_sort.gather_to_2d_array""", ('ret', 'mem'))
