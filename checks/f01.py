"""F01: readers declare the layout on disk."""
from .common import *


def run(c):
    conform(c, """formats.gadget_snapshot.*
        formats.mpa_trees.*
        formats.rockstar.HalosFile.__init__
        formats.subfind_gadget4.SubTabFile.add_record
        formats.subfind_gadget4.SubTabFile.__init__
        formats.subfind_lgadget2.GroupTabFile.__init__
        formats.subfind_lgadget2.GroupIDsFile.__init__
        formats.subfind_lgadget2.SubTabFile.__init__
        formats.subfind_lgadget2.SubIDsFile.__init__
        formats.subfind_lgadget2.SnapshotFile.__init__
        formats.subfind_lgadget3.SubTabFile.__init__
        formats.subfind_lgadget3.SubIDsFile.__init__
        formats.subfind_pgadget3.GroupIDsFile.__init__
        formats.subfind_pgadget3.GroupTabFile.__init__
        formats.subfind_pgadget3.SubTabFile.__init__
        formats.subfind_pgadget3.SubIDsFile.__init__
        formats.velociraptor.PropertiesFile.__init__""")
    conform(c, """sims.mxxl.FieldFile.__init__""", ('attrs', 'raises', 'effects'))
