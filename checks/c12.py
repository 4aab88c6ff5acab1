"""C12: group membership and halo matching."""
from .common import *


def run(c):
    conform(c, """mpi.util.group_index_from_length_and_offset mpi.merger_tree.match_halos mpi.merger_tree.consistent_match""")
