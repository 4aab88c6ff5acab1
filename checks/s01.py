"""S01: simulation readers use the right file and format variant."""
from .common import *


def run(c):
    conform(c, """sims.coco.* sims.eagle.* sims.millennium.* sims.millennium2.* sims.mxxl.*""")
