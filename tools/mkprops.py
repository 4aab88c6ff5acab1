#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the file stays uniform)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
PS="python/virgo/mpi/parallel_sort.py"; PH="python/virgo/mpi/parallel_hdf5.py"; UT="python/virgo/mpi/util.py"
GA="python/virgo/mpi/gather_array.py"; MT="python/virgo/mpi/merger_tree.py"; EC="python/virgo/mpi/errchk.py"
RB="python/virgo/util/read_binary.py"; FM="python/virgo/formats/"
HW="fortran/hdf5_wrapper/src/"

prop("C01","Every rank makes the same sequence of collective calls",
 "In every distributed routine, whether a collective operation (MPI collective, communicator split, or collective HDF5 access) is reached, and how many times, depends only on values that are the same on every rank of the communicator it runs on. No combination of empty ranks, uneven array lengths or missing arguments on some ranks makes one rank enter a collective that another rank skips.",
 ["inputs","configurations","schedules"],"every distribution of elements over ranks, every number of ranks, every combination of optional arguments",
 "The tests run fixed seeds on 1-8 ranks; a collective guarded by a rank-local value only hangs for the particular distributions in which ranks disagree, and a hang is reported as a timeout, not a failure.",
 [PS,PH,UT,GA,MT],[("guards of collectives are sizes, allreduce/allgather/bcast results or None tests",PS+": parallel_sort, parallel_match, fetch_elements, reduce_elements, parallel_unique, parallel_bincount, find_splitting_points"),("iteration counts agreed with allreduce",PH+": collective_read, collective_write")])
prop("C02","Distributed routines communicate only on the caller's communicator",
 "Every routine that accepts a communicator performs all of its communication on that communicator or on one split from it, passes it on to every routine it calls, and uses the world communicator only when the caller gave none.",
 ["inputs","configurations"],"every communicator the caller may pass, including sub-communicators and intercommunicating ranks",
 "The tests almost always run on the world communicator, where a forgotten communicator argument is invisible.",
 [PS,PH,UT,GA],[("comm=None defaults and comm=comm forwarding",PS+": all public functions; "+UT+"; "+GA+"; "+PH)])
prop("C03","Split communicators, MPI datatypes and opened files are released",
 "Every communicator split off, MPI datatype committed and file opened by a library routine is freed or closed on every non-error path out of the routine, exactly once and never before its last use.",
 ["inputs","histories"],"every path through the routine and every number of repeated calls",
 "Leaks only fail after thousands of calls (communicator ids run out, open file limits); tests make a handful.",
 [PS,PH,"python/virgo/util/read_multi.py"],[("Split ... Free; Commit ... Free",PS+": my_alltoallv, sendrecv, gather_to_2d_array, find_splitting_points, parallel_sort, parallel_unique"),("Split ... Free; open ... close",PH+": MultiFile")])
prop("C04","Counts, offsets and buffers describe the same data on sender and receiver",
 "In every variable-count exchange or gather, the receive counts are exactly the counts the other ranks send, each offset is the sum of the counts before it, both are scaled by the same number of values per element, and the receive buffer is one contiguous block of the sender's type with room for exactly the sum of the receive counts.",
 ["inputs","configurations"],"every distribution over ranks, every array rank and shape, every element type",
 "Tests use mostly one-dimensional native arrays; wrong scaling or a buffer in the wrong memory order only corrupts multi-dimensional or Fortran-ordered data.",
 [PS,UT,GA,MT],[("send_displ = exclusive prefix sum of send_count; Alltoall of counts; nvalues scaling",PS+": repartition, fetch_elements, parallel_sort, parallel_match, reduce_elements; "+UT+": group_index_from_length_and_offset; "+MT+": exchange_array; "+GA+": gather_array")])
prop("C05","Split transfers move every element exactly once and always terminate",
 "Every transfer that is broken into bounded pieces (point to point messages, collective reads and writes of datasets) starts at the beginning of its range, moves consecutive non-overlapping pieces that are each at least one element while any are left, advances both memory and file positions by exactly the amount moved, and stops exactly when everything has moved.",
 ["inputs","configurations"],"every array length, row size and buffer size limit",
 "The pieces are 100MB, so the tests' arrays fit in one piece; the second and later iterations are rarely executed.",
 [PS,PH],[("while left>0: n=min(left,nchunk); offset+=n; left-=n",PS+": my_alltoallv, sendrecv; "+PH+": collective_read, collective_write")])
prop("C06","Input arrays are not modified unless documented",
 "No routine writes into an array the caller passed in, except the ones documented to work in place (the parallel sort's array, an explicit result array, the array a reduction is accumulated into, the output array of range assignment).",
 ["inputs","histories"],"every array layout and dtype, including arrays for which conversions return the same object",
 "Tests compare outputs, not the inputs afterwards, and a modification is only visible for dtypes where the conversion makes no copy.",
 [PS,UT,GA,MT,"python/virgo/util/match.py","python/virgo/util/ranges.py","python/virgo/util/peano.py"],[("work on copies: arr[idx], np.array(...,copy), asanyarray without in-place update",PS+"; python/virgo/util/match.py")])
prop("C07","Returned indexes and reordered values refer to the right elements",
 "The index from the parallel sort gives the original global position of each sorted element; fetching and matching return their results in the order of the caller's query with global positions in the rank-concatenated array; reductions apply each contribution to the element its global index names; and the index, inverse and count outputs of the distributed unique stay aligned with the values.",
 ["inputs","configurations"],"every array contents (including duplicates), every distribution over ranks including empty ranks",
 "Tests sample random arrays; misalignment that needs duplicates on a rank boundary, empty ranks or multi-dimensional elements is rarely sampled.",
 [PS],[("index permuted by the same local sort and exchange as the values; order restored with values[idx]=received",PS+": parallel_sort, fetch_elements, parallel_match, reduce_elements, parallel_unique")])
prop("C08","Sorting and matching of equal values is stable and deterministic",
 "All local ordering used by the distributed and serial match and sort routines is stable, so elements with equal keys keep their original order and a match against duplicate values selects the first of them; values with no match are reported as -1.",
 ["inputs"],"every array with repeated keys",
 "Small arrays are insertion-sorted, which is stable whatever the algorithm requested; instability only shows for larger arrays with ties.",
 [PS,"python/virgo/util/match.py",UT,MT],[("my_argsort uses kind='mergesort'",PS+": my_argsort"),("argsort(kind='mergesort') and searchsorted side='left'","python/virgo/util/match.py")])
prop("C09","Collective reads and per-file bookkeeping use the same partition",
 "A collective read gives each rank a contiguous share of the dataset in rank order, with shares differing by at most one element and the larger shares on the first ranks, and the reported number of elements each rank obtained from each file is computed with that same rule; a collective write lays the ranks' data out in rank order with no gaps.",
 ["inputs","configurations"],"every dataset length, number of ranks and number of files, including ranks that share a file",
 "The tests check a few sizes; the two computations live in different functions and only disagree for lengths not divisible by the number of ranks sharing a file.",
 [PH],[("num_on_task = ntot//size, first ntot%size get one more, offset = exclusive prefix sum",PH+": collective_read, MultiFile.get_elements_per_file; collective_write")])
prop("C10","Multi-file reads give native, complete, correctly attributed data",
 "Reading a set of files distributes files over ranks so that every file is read exactly once, returns each dataset in native byte order with pieces concatenated in file order, treats datasets missing from some files as empty of the type and shape found elsewhere, and reports per-file element counts under the caller's own file numbering.",
 ["inputs","configurations"],"every file count relative to the number of ranks, every set of missing files and datasets, every stored byte order",
 "The tests write little-endian files with every dataset present in nearly all cases.",
 [PH],[("file to rank assignment",PH+": MultiFile.__init__, assign_files"),("dtype and shape agreement, native conversion",PH+": MultiFile.read, replace_none_with_zero_size")])
prop("C11","A failure on one rank terminates the whole parallel job",
 "When the error checking wrapper is in use, any exception on any rank (including a keyboard interrupt) is reported with a traceback and aborts the whole job with a nonzero status instead of leaving other ranks waiting, and an argument error detected on one rank stops every rank.",
 ["fault_sequences","inputs"],"every exception raised at any point on any subset of ranks",
 "An abort kills the test process, so the existing tests do not exercise it at all.",
 [EC,UT,PS],[("except clause then Abort(1)",EC+": mpi_errchk"),("parse on rank 0, broadcast, exit everywhere",UT+": MPIArgumentParser.parse_args")])
prop("C12","Group membership and halo matching follow the documented conventions",
 "Expanding group lengths and offsets labels exactly the particles in each group's range with the group's global number and all others with -1, whichever ranks own them; halo matching ignores particles in no group, picks for each halo the candidate holding most of its particles with ties going to the lowest group number, and returns results in the order and distribution of the input halos.",
 ["inputs","configurations"],"every set of group lengths and offsets, including empty groups and groups spanning ranks, and every particle distribution",
 "The unit test covers one random configuration of the expansion and nothing of the matching.",
 [UT,MT],[("global group number = scan offset + local index; range clipping per rank",UT+": group_index_from_length_and_offset"),("exchange by halo, count by (halo, candidate), keep largest",MT+": match_halos")])

prop("B01","Binary file reader never reads outside the mapped file",
 "Every element or slice read from a binary dataset comes from the byte range that begins where the previously declared data ended, is exactly as long as its declared type and shape require, and lies inside the file; a declaration that would fall outside the file raises an error instead of returning data.",
 ["inputs","configurations"],"every file length (including truncated files), every declared layout, every index expression",
 "No test reads a binary file at all.",
 [RB],[("offset accumulation and bounds check before buffer access",RB+": BinaryFile.add_dataset, BinaryGroup._add_block, BinaryBlock.__getitem__")])
prop("B02","Byte order is decided once and applied to every part of a binary file",
 "A file's byte order, whether given by the caller or detected from its contents, governs every dataset and attribute declared before or after it is set, detection happens before any value that the layout depends on is used, and values always reach the caller converted to native order.",
 ["inputs","configurations"],"both byte orders of file and machine, every declaration order",
 "No test reads a binary file, let alone one of foreign byte order.",
 [RB,FM],[("set_endian updates every block; enable_byteswap",RB+": BinaryFile"),("detect byte order from marker/NTask/nfiles before reading counts",FM+"*.py constructors")])
prop("B03","Data handed to the user is independent of the underlying file",
 "Arrays and attributes read from a binary file are private copies that stay valid after the file is closed or evicted from the cache and whose modification changes neither the file nor later reads, and the number of simultaneously mapped files stays bounded however many file objects exist.",
 ["histories","inputs"],"every sequence of reads, closes and modifications over any number of open files",
 "No test reads a binary file or opens more files than the cache holds.",
 [RB],[("copy()/byteswap() on read; cache of 32 with eviction",RB+": BinaryBlock.__getitem__, cache")])

fm=[FM+x for x in ("gadget_snapshot.py","mpa_trees.py","rockstar.py","subfind_gadget4.py","subfind_lgadget2.py","subfind_lgadget3.py","subfind_pgadget3.py","velociraptor.py")]
prop("F01","Readers declare exactly the on-disk layout of each format",
 "For every supported binary format and every combination of its layout options, the datasets a reader exposes have the names, order, element types, shapes and gaps with which the simulation code wrote them, so each named quantity is read from its own bytes.",
 ["inputs","configurations"],"every file of each format and every combination of constructor options and header flags",
 "No test touches the format modules; an example file exercises one option combination only.",
 fm,[("sequence of dataset and record declarations",FM+": each *File class constructor")])
prop("F02","Record markers, totals and consistency checks guard every read",
 "Wherever a format has record length markers, duplicated counts or a total size, the reader compares them with what it declared and reports a mismatch instead of returning shifted data.",
 ["inputs"],"every truncated, over-long or inconsistent file",
 "No test reads malformed files.",
 [RB]+fm,[("start/end record marker comparison",RB+": BinaryFile.start_fortran_record, end_fortran_record"),("sanity_check, all_bytes_used",FM+": each *File.sanity_check")])
prop("F04","Options are validated identically by sibling readers",
 "A reader given an unsupported identifier width, float width or format option raises an error rather than guessing, and sibling readers of the same family accept the same set of values and map each to the same type.",
 ["configurations"],"every value of every option",
 "No test constructs these readers.",
 fm,[("if id_bytes==4 ... elif 8 ... else raise",FM+": GroupIDs/SubIDs/SubTab constructors")])
prop("F05","Whole-catalogue and group reads assemble exactly the requested objects",
 "A catalogue or group-ordered snapshot reader visits every file of the output exactly once, concatenates pieces in file order, applies the byte order and options the user gave to every file it opens, and reading a group, halo or region returns exactly the particles in the requested range: first and last files included, none repeated.",
 ["inputs","configurations"],"every group, region and split of the particles over files",
 "No test reads a catalogue or snapshot.",
 [FM+x for x in ("subfind_gadget4.py","subfind_lgadget2.py","subfind_pgadget3.py")],[("per-file intersection of requested range",FM+"subfind_pgadget3.py: GroupOrderedSnapshot.read_particle_range; "+FM+"subfind_gadget4.py: GroupOrderedSnapshot.read_fof_group; "+FM+"subfind_lgadget2.py: Snapshot.read_region, read_cells")])
sims=["python/virgo/sims/"+x for x in ("coco.py","eagle.py","millennium.py","millennium2.py","mxxl.py")]
prop("S01","Simulation readers select the right file and format variant",
 "For each supported simulation the convenience readers build the published file names from the snapshot and file numbers, and open them with the identifier width, float width and format options that simulation used, passing every user argument through unchanged.",
 ["inputs","configurations"],"every simulation, snapshot and file number and every user argument",
 "No test touches these modules.",
 sims,[("constants and path templates","python/virgo/sims/*.py")])
prop("P01","Peano-Hilbert keys agree with the simulation codes and invert exactly",
 "For every coordinate and every number of bits the key routines compute the curve used by the simulation codes: the forward and inverse routines use mutually inverse tables and identical orientation updates, the tables equal those in the simulation codes' own sources, and the inverse of a key is the coordinate it came from.",
 ["inputs"],"all coordinates and keys at every resolution",
 "No test; 2^63 keys cannot be enumerated.",
 ["python/virgo/util/peano.py","examples/millennium/fortran/peano_keys.c"],[("quadrants, rotxmap, rotymap, rotx, roty, sense tables and the state update","python/virgo/util/peano.py: peano_hilbert_keys, peano_hilbert_key_inverses")])
prop("U01","Serial matching and range utilities return exact positions and sums",
 "Matching returns for every query the position of an equal element or -1 when there is none, whatever the byte order or sortedness of the inputs; range assignment writes each value to exactly its half-open range and range sums cover exactly each range, including empty ranges.",
 ["inputs"],"every input array, including empty arrays, empty ranges and values beyond the largest element",
 "No test touches these modules.",
 ["python/virgo/util/match.py","python/virgo/util/ranges.py"],[("searchsorted, clamp, equality test","python/virgo/util/match.py: match"),("index expansion by cumulative lengths","python/virgo/util/ranges.py")])
prop("U02","Unit metadata converts quantities with the right dimensions",
 "Quantities read from SWIFT and SOAP files carry units built from every recorded exponent with its matching base unit, comoving quantities carry their expansion-factor exponent, and every object obtained through a wrapped file keeps the same unit registry and settings.",
 ["inputs","configurations"],"every combination of unit exponents and every path of groups to a dataset",
 "No test touches these modules.",
 [FM+"swift.py",FM+"soap.py"],[("exponent attribute to base unit map",FM+"swift.py"),("metadata propagation to children",FM+"swift.py")])
prop("U03","Multi-file serial reads concatenate every file in order",
 "Reading named datasets from a list of files returns, for each name, the data of all files concatenated in the order the files were given, restricted to the requested selection, with optional datasets that a file lacks contributing nothing.",
 ["inputs","configurations"],"every list of files and dataset names",
 "No test touches these modules.",
 ["python/virgo/util/read_multi.py","python/virgo/util/partial_formatter.py"],[("append per file, concatenate at the end","python/virgo/util/read_multi.py"),("unresolved fields kept verbatim","python/virgo/util/partial_formatter.py")])
prop("D01","Merger tree tables get consistent types, indexes and rows",
 "The database export maps each data type to an SQL type of the same width and back, and tree indexing numbers every node once in depth-first order with the main progenitor first, so that each node's progenitors and main branch occupy contiguous ranges starting at the node.",
 ["inputs","configurations"],"every tree and every column type",
 "No test touches these modules.",
 ["python/virgo/database/index_trees.py","python/virgo/database/make_dtrees_table.py"],[("type maps","python/virgo/database/make_dtrees_table.py: sql_type, numpy_type"),("depth first traversal","python/virgo/database/index_trees.py")])
prop("G01","Every public entry point is callable: names, fields and arguments resolve",
 "No path through the public modules refers to an undefined name, a library attribute that the supported library versions do not have, a data field that the opened object never declares, or calls a routine with arguments it does not accept.",
 ["programs","configurations","inputs"],"every path of every public function, class and constructor option",
 "Python resolves these only when the line executes and the tests execute none of the format, simulation, database or utility modules.",
 ["python/virgo"],[("module imports, attribute references, call signatures","python/virgo/**/*.py")])
hw=[HW+x for x in ("hdf5_wrapper.F90","read_dataset.inc","write_dataset.inc","read_attribute.inc","write_attribute.inc","read_dataset_preprocessor.inc","write_dataset_preprocessor.inc","read_attribute_preprocessor.inc","write_attribute_preprocessor.inc")]
prop("K01","Every Fortran type and rank variant handles its own type and rank",
 "Each of the generic read and write interfaces for datasets and attributes offers a variant for every supported type and rank from scalar to seven dimensions, and every variant transfers exactly the rank, memory type and kind of the array it is declared for.",
 ["programs","inputs"],"all 160 generated variants and every array shape",
 "The tests exercise a handful of type and rank combinations.",
 hw,[("SUB_NAME/NDIMS/ARRAY_DIM/NATIVE_TYPE macros and generic interface lists",HW+"*_preprocessor.inc, hdf5_wrapper.F90")])
prop("K02","The Fortran wrapper rejects bad handles and reports every HDF5 failure",
 "Every routine of the wrapper rejects a handle that is out of range or not open, every writing routine rejects read-only files, and a failed attempt to open, create, extend, select, read or write is never ignored: unless an alternative succeeds, the program stops with a message and a nonzero status.",
 ["inputs","fault_sequences"],"every handle value and file mode, and failure of any HDF5 call",
 "Failure stops the process; the tests only exercise success paths.",
 hw,[("ifile range, file_id and read_only checks; hdf_err checks",HW+"*.F90, *.inc")])
prop("K03","The Fortran wrapper closes what it opens and reads current data",
 "Every HDF5 object opened by a wrapper call is closed before the call returns (or, for the cached dataset, when another dataset is accessed or its file is closed), handles are reused only after closing, and a read after a write through the wrapper returns the data written.",
 ["histories","inputs"],"every sequence of wrapper calls",
 "The tests perform each operation a few times; leaks and stale cache entries need repeated or interleaved calls.",
 hw+[HW+"read_dataset_c.c",HW+"write_dataset_c.c",HW+"read_attribute_c.c",HW+"write_attribute_c.c"],[("open/close pairing; cached dataset keyed by file and name; C shims",HW+"*.inc, *_c.c")])
prop("A01","The parallel sort orders every input correctly",
 "After a parallel sort the concatenation of the local arrays over ranks is a non-decreasing permutation of the original contents with each rank holding as many elements as before.",
 ["inputs","configurations"],"every array and distribution",
 "Tests sample random arrays.",[PS],[("weighted median splitting and exchange",PS+": parallel_sort, find_splitting_points")])
prop("A02","Data written by the library is read back unchanged",
 "Writing arrays with the collective writer, the repository's Fortran wrapper or the hierarchical copy routines and reading them back gives equal values, shapes and types.",
 ["inputs","histories"],"every array and every sequence of writes and reads",
 "Tests sample a few arrays.",[PH,RB]+hw[:5],[("collective_write/collective_read",PH),("BinaryGroup.write_hdf5",RB)])
prop("A03","Memory use and load stay balanced across ranks",
 "No rank needs more than a constant factor above the average share of memory during a distributed sort, match or read.",
 ["inputs","configurations"],"every distribution of values over ranks","Tests use small arrays.",[PS,PH],[("splitting by desired ranks",PS)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
