"""F04: options are validated and mapped to types."""
from .common import *


def run(c):
    conform(c, """formats.gadget_snapshot.GadgetBinarySnapshotFile.__init__
        formats.subfind_gadget4.SubTabFile.__init__
        formats.subfind_lgadget2.GroupTabFile.__init__
        formats.subfind_lgadget2.GroupIDsFile.__init__
        formats.subfind_lgadget2.SubTabFile.__init__
        formats.subfind_lgadget2.SubIDsFile.__init__
        formats.subfind_lgadget2.SnapshotFile.__init__
        formats.subfind_lgadget3.SubTabFile.__init__
        formats.subfind_lgadget3.SubIDsFile.__init__
        formats.subfind_pgadget3.GroupIDsFile.__init__
        formats.subfind_pgadget3.GroupTabFile.__init__
        formats.subfind_pgadget3.SubTabFile.__init__
        formats.subfind_pgadget3.SubIDsFile.__init__
        formats.velociraptor.PropertiesFile.__init__
        formats.mpa_trees.*""", ('attrs', 'raises', 'effects', 'ret'))
