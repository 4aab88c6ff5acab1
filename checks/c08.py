"""C08: equal keys keep their order; no match is -1."""
from .common import *


def run(c):
    conform(c, """mpi.parallel_sort.my_argsort util.match.match""")
    conform(c, """mpi.parallel_sort.parallel_match mpi.merger_tree.match_halos mpi.util.group_index_from_length_and_offset""", ('ret', 'mem', 'effects'))
