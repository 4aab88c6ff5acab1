"""P01: Peano-Hilbert keys."""
from .common import *


def run(c):
    conform(c, """util.peano.*""")
