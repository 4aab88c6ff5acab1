"""U01: serial matching and ranges."""
from .common import *


def run(c):
    conform(c, """util.match.* util.ranges.*""")
