"""D01: merger tree tables."""
from .common import *


def run(c):
    conform(c, """database.*""")
