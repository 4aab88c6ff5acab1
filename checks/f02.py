"""F02: markers, totals and consistency checks."""
from .common import *


def run(c):
    conform(c, """formats.rockstar.HalosFile.sanity_check
        formats.subfind_lgadget2.GroupTabFile.sanity_check
        formats.subfind_lgadget2.GroupIDsFile.sanity_check
        formats.subfind_lgadget2.SubTabFile.sanity_check
        formats.subfind_lgadget2.SubIDsFile.sanity_check
        formats.subfind_lgadget2.SnapshotFile.sanity_check
        formats.subfind_lgadget3.SubTabFile.sanity_check
        formats.subfind_lgadget3.SubIDsFile.sanity_check
        formats.subfind_pgadget3.GroupIDsFile.sanity_check
        formats.subfind_pgadget3.GroupTabFile.sanity_check
        formats.subfind_pgadget3.SubTabFile.sanity_check
        formats.subfind_pgadget3.SubIDsFile.sanity_check
        util.read_binary.BinaryFile.start_fortran_record
        util.read_binary.BinaryFile.end_fortran_record
        util.read_binary.BinaryFile.all_bytes_used
        util.read_binary.BinaryFile.read_and_skip""")
    conform(c, """formats.gadget_snapshot.*
        formats.mpa_trees.*
        formats.rockstar.HalosFile.__init__
        formats.subfind_gadget4.SubTabFile.add_record
        formats.subfind_gadget4.SubTabFile.__init__
        formats.subfind_lgadget2.SnapshotFile.__init__
        formats.velociraptor.PropertiesFile.__init__
        sims.mxxl.FieldFile.__init__""", ('raises',))
