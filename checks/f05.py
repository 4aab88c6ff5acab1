"""F05: catalogues and group reads assemble exactly the requested objects."""
from .common import *


def run(c):
    conform(c, """formats.subfind_gadget4.GroupCatalogue.*
        formats.subfind_gadget4.GroupOrderedSnapshot.*
        formats.subfind_lgadget2.Snapshot.*
        formats.subfind_lgadget2.cosma_file_path
        formats.subfind_pgadget3.GroupCatalogue.*
        formats.subfind_pgadget3.GroupOrderedSnapshot.*""")
