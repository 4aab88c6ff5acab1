"""All units with a stored specification, by id."""
from .terms import *
from .specs import Unit, COMM

UNITS = {}


def unit(key, uid=None, **kw):
    uid = uid or key.replace("virgo.", "", 1)
    UNITS[uid] = Unit(uid, key, **kw)
    return UNITS[uid]


PS = "virgo.mpi.parallel_sort."
c = {"comm": COMM}
unit(PS + "mpi_datatype")
unit(PS + "my_alltoallv", args=c, arrays=("recvbuf", "sendbuf"))
unit(PS + "my_argsort")
unit(PS + "sendrecv", args=c, arrays=("recvbuf", "sendbuf"))
unit(PS + "repartition", args=c)
unit(PS + "fetch_elements", args=c)
unit(PS + "weighted_median")
unit(PS + "gather_to_2d_array", args=c)
unit(PS + "find_splitting_points", args=c)
unit(PS + "parallel_sort", args=c, arrays=("arr",))
unit(PS + "parallel_match", args=c)
unit(PS + "parallel_unique", args=c)
unit(PS + "gather_to_first_rank", args=c)
unit(PS + "reduce_elements", args=c, arrays=("arr",))
unit(PS + "parallel_bincount", args=c)
unit("virgo.mpi.gather_array.allgather_array", args=c)
unit("virgo.mpi.gather_array.gather_array", args=c)
U = "virgo.mpi.util."
unit(U + "broadcast_dtype_and_dims", args=c)
unit(U + "replace_none_with_zero_size", args=c)
unit(U + "group_index_from_length_and_offset", args=c)
unit(U + "MPIArgumentParser.__init__", args=c)
unit(U + "MPIArgumentParser.error", selfattrs={"comm": COMM})
unit(U + "MPIArgumentParser.parse_args", selfattrs={"comm": COMM})
H = "virgo.mpi.parallel_hdf5."
unit(H + "substitute_file_nr")
unit(H + "compress_dcpl")
unit(H + "collective_read", args=c)
unit(H + "collective_write", args=c)
unit(H + "assign_files")
for m in ("__init__", "_read_independent", "_read_collective", "read", "get_elements_per_file", "_write_independent",
          "_write_collective", "write"):
    unit(H + "MultiFile." + m, args=dict(c) if m == "__init__" else None,
         selfattrs=None if m == "__init__" else {"comm": COMM})
unit("virgo.mpi.merger_tree.match_halos", args=c)
unit("virgo.mpi.merger_tree.consistent_match", args=c)
unit("virgo.mpi.errchk.mpi_errchk")


def units(mod, names):
    for n in names.split():
        unit(mod + "." + n)


units("virgo.util.match", """
match""")
units("virgo.util.ranges", """
assign_ranges sum_ranges""")
units("virgo.util.peano", """
peano_hilbert_keys_block peano_hilbert_keys peano_hilbert_keys_from_coords peano_hilbert_key_inverses_block
peano_hilbert_key_inverses""")
units("virgo.util.read_binary", """
big_or_little need_byteswap _split_path MemoryMappedFile.__init__ MemoryMappedFile.__del__
MemoryMappedFile.close BinaryAttrs.__init__ BinaryAttrs.__getitem__ BinaryAttrs.__len__ BinaryAttrs.__iter__
BinaryAttrs.close BinaryGroup.__init__ BinaryGroup.__getitem__ BinaryGroup.__len__ BinaryGroup.__iter__
BinaryGroup._create_group BinaryGroup._add_block BinaryGroup.write_hdf5 BinaryGroup.close
BinaryDataset.__init__ BinaryDataset._mmap_file BinaryDataset.__getitem__ BinaryDataset.__array__
BinaryDataset.__len__ BinaryDataset.len BinaryDataset.__getattr__ BinaryDataset.__iter__ BinaryDataset.close
BinaryFile.__init__ BinaryFile.__enter__ BinaryFile.__exit__ BinaryFile._add_block BinaryFile.add_dataset
BinaryFile.add_attribute BinaryFile.skip_bytes BinaryFile.read_and_skip BinaryFile.set_endian
BinaryFile.enable_byteswap BinaryFile.toggle_byteswap BinaryFile.write_binary BinaryFile.hash
BinaryFile.start_fortran_record BinaryFile.end_fortran_record BinaryFile.all_bytes_used""")
units("virgo.util.read_multi", """
read_multi""")
units("virgo.util.partial_formatter", """
FormatKey.__init__ PartialFormatter.__init__ PartialFormatter.get_value PartialFormatter.format_field""")
units("virgo.formats.gadget_snapshot", """
GadgetBinarySnapshotFile.__init__ open""")
units("virgo.formats.mpa_trees", """
SubDescFile.__init__ TreeAuxFile.__init__ TreeFile.__init__""")
units("virgo.formats.rockstar", """
HalosFile.__init__ HalosFile.sanity_check""")
units("virgo.formats.soap", """
SOAPCatalogue.__init__""")
units("virgo.formats.subfind_gadget4", """
SubTabFile.add_record SubTabFile.__init__ GroupCatalogue.__init__ GroupCatalogue.__getitem__
GroupCatalogue.__len__ GroupCatalogue.__iter__ GroupOrderedSnapshot.__init__
GroupOrderedSnapshot.open_snap_file GroupOrderedSnapshot.open_subtab_file GroupOrderedSnapshot.read_fof_group""")
units("virgo.formats.subfind_lgadget2", """
cosma_file_path GroupTabFile.__init__ GroupTabFile.sanity_check GroupIDsFile.__init__
GroupIDsFile.sanity_check SubTabFile.__init__ SubTabFile.sanity_check SubIDsFile.__init__
SubIDsFile.sanity_check SnapshotFile.__init__ SnapshotFile.sanity_check Snapshot.__init__ Snapshot.open_file
Snapshot.read_region Snapshot.read_cells""")
units("virgo.formats.subfind_lgadget3", """
SubTabFile.__init__ SubTabFile.sanity_check SubIDsFile.__init__ SubIDsFile.sanity_check""")
units("virgo.formats.subfind_pgadget3", """
GroupIDsFile.__init__ GroupIDsFile.sanity_check GroupTabFile.__init__ GroupTabFile.sanity_check
SubTabFile.__init__ SubTabFile.sanity_check SubIDsFile.__init__ SubIDsFile.sanity_check
GroupCatalogue.__init__ GroupCatalogue.__getitem__ GroupCatalogue.__len__ GroupCatalogue.__iter__
GroupOrderedSnapshot.__init__ GroupOrderedSnapshot.open_snap_file GroupOrderedSnapshot.open_subtab_file
GroupOrderedSnapshot.read_particle_range GroupOrderedSnapshot.read_fof_group
GroupOrderedSnapshot.read_subfind_group""")
units("virgo.formats.swift", """
soap_unit_registry_from_snapshot soap_units_from_attributes swiftsimio_units swiftsimio_cosmology
swiftsimio_units_from_attributes SwiftBaseWrapper.__init__ SwiftBaseWrapper.__getattr__
SwiftBaseWrapper.__getitem__ SwiftBaseWrapper.__iter__ SwiftBaseWrapper.__len__ SwiftDataset.__init__
SwiftDataset.__getitem__ SwiftGroup.__init__ SwiftGroup.__getitem__ SwiftGroup.get_unit SwiftFile.__init__
SwiftSnapshot.__init__""")
units("virgo.formats.velociraptor", """
PropertiesFile.__init__""")
units("virgo.sims.coco", """
SubTabFile.__init__ GroupOrderedSnapshot.__init__ GroupCatalogue.__init__""")
units("virgo.sims.eagle", """
eagle_filename""")
units("virgo.sims.millennium", """
GroupIDsFile.__init__ SubTabFile.__init__ SubIDsFile.__init__""")
units("virgo.sims.millennium2", """
SubTabFile.__init__ GroupCatalogue.__init__ GroupOrderedSnapshot.__init__""")
units("virgo.sims.mxxl", """
SubDescFile.__init__ SubTabFile.__init__ FieldFile.__init__""")
units("virgo.database.index_trees", """
depth_first_index find_main_progenitor find_progenitor_tree_mass find_progenitor_branch_mass_delucia""")
units("virgo.database.make_dtrees_table", """
sql_type numpy_type read_dhalo_trees add_depth_first_index write_sql_server_native_file make_dtrees_table""")
FW = "fortran.Wrapper."
OPAQUE_F = {FW + "hdf5_create_group", FW + "define_types"}
FORTRAN = ["define_types", "hdf5_abort", "hdf5_auto_open", "hdf5_close_file", "hdf5_create_file", "hdf5_create_group",
           "hdf5_get_dimensions", "hdf5_get_file_id", "hdf5_get_type", "hdf5_list_attributes", "hdf5_list_datasets",
           "hdf5_list_groups", "hdf5_open_file"] + \
    ["%s_%s_%s" % (t, a, b) for t in ("read_attribute", "write_attribute", "read_dataset", "write_dataset")
     for a in ("number", "string") for b in ("array", "scalar")]
for n in FORTRAN:
    unit(FW + n, "fortran." + n, opaque=(lambda me: lambda k: k != me and k in OPAQUE_F)(FW + n), fortran=True)
