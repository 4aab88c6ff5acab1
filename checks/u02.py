"""U02: unit metadata."""
from .common import *


def run(c):
    conform(c, """formats.swift.* formats.soap.*""")
