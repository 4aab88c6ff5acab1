"""U03: serial multi-file reads."""
from .common import *


def run(c):
    conform(c, """util.read_multi.* util.partial_formatter.*""")
