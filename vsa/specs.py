"""Functions with a stored specification, how they are analysed, and the conformance rule."""
import os, time
from .terms import *
from .interp import Interp, AnchorError
from . import conform
from .conform import EQ, DIFF, UNK
from .driver import ROOT

SPECDIR = os.path.join(ROOT, "spec")
COMM = T("comm", "comm")


class Unit(object):
    """One analysed unit: a function or a class constructor under given arguments."""

    def __init__(self, uid, key, kind="func", args=None, arrays=(), opaque=None, selfcls=None, selfattrs=None, want=None, fortran=False):
        self.uid, self.key, self.kind = uid, key, kind
        self.args, self.arrays, self.opaque = args, arrays, opaque
        self.selfcls, self.selfattrs, self.want = selfcls, selfattrs, want
        self.fortran = fortran

    def analyse(self, prog, **flags):
        if self.fortran and "fortran" not in prog.modules:
            from .fortran import attach
            prog.fortran = attach(prog, prog.root)
        it = Interp(prog, opaque=self.opaque or default_opaque(self.key))
        for k, v in flags.items():
            setattr(it, k, v)
        if self.kind == "class":
            return it.analyse_class(self.key, self.args, self.arrays)
        return it.analyse(self.key, self.args, self.arrays, self.selfcls, self.selfattrs)

    def path(self):
        return os.path.join(SPECDIR, self.uid + ".json")


# routines analysed on their own; callers see their call as one operation
COMPONENTS = {"virgo.mpi.parallel_sort." + f for f in (
    "my_alltoallv", "my_argsort", "sendrecv", "repartition", "fetch_elements", "weighted_median", "gather_to_2d_array",
    "find_splitting_points", "parallel_sort", "parallel_match", "parallel_unique", "gather_to_first_rank", "reduce_elements",
    "parallel_bincount", "mpi_datatype")}
COMPONENTS |= {"virgo.mpi.gather_array.allgather_array", "virgo.mpi.gather_array.gather_array",
               "virgo.mpi.util.broadcast_dtype_and_dims", "virgo.mpi.util.replace_none_with_zero_size",
               "virgo.mpi.util.group_index_from_length_and_offset", "virgo.mpi.parallel_hdf5.collective_read",
               "virgo.mpi.parallel_hdf5.collective_write", "virgo.mpi.parallel_hdf5.assign_files",
               "virgo.mpi.merger_tree.match_halos", "virgo.mpi.parallel_hdf5.compress_dcpl",
               "virgo.util.match.match", "virgo.util.read_multi.read_multi", "virgo.util.ranges.assign_ranges", "virgo.util.ranges.sum_ranges",
               "virgo.util.peano.peano_hilbert_keys", "virgo.util.peano.peano_hilbert_keys_from_coords",
               "virgo.util.peano.peano_hilbert_key_inverses", "virgo.util.read_binary.big_or_little",
               "virgo.util.read_binary.need_byteswap", "virgo.formats.gadget_snapshot.open",
               "virgo.formats.subfind_lgadget2.cosma_file_path", "virgo.sims.eagle.eagle_filename"}


def default_opaque(key):
    me = key

    def f(k):
        if k == me or k.rsplit(".", 1)[0] == me:
            return False
        if k in COMPONENTS:
            return True
        if "virgo.util.read_binary.Binary" in k and "read_binary" not in me:
            return True
        if k.startswith("virgo.formats.") and ".__init__" in k and not me.startswith(k[:-9]) and is_other_class(k, me):
            return True
        return False
    return f


def is_other_class(k, me):
    return k[:-len(".__init__")] != me


def conform_unit(check, unit, facets=("ret", "mem", "attrs", "raises", "effects"), rule="conforms", select=None):
    """Compare the unit's summary with its stored specification."""
    c = check
    c.rule(rule, "the function's normal form (result, array contents after the call, attributes, raised errors and effects, "
                 "each with its condition) equals the specified one; constructs the normal form cannot relate are undecided")
    left = 700 - (time.time() - c.t0)
    if left < 5:
        c.undecided(rule, unit.key, "time of the check used up")
        return None
    set_budget(3000000, min(90, left))
    try:
        return conform_unit_(c, unit, facets, rule, select)
    except Budget:
        c.undecided(rule, unit.key, "analysis budget used up")
    finally:
        set_budget()


def conform_unit_(c, unit, facets, rule, select):
    try:
        s = unit.analyse(c.prog)
    except AnchorError as e:
        c.undecided(rule, unit.key, "not found under this name: %s" % e)
        return None
    except RecursionError:
        c.undecided(rule, unit.key, "analysis depth exceeded")
        return None
    act = conform.facets(s, facets, unit.want)
    if not os.path.exists(unit.path()):
        raise RuntimeError("no specification stored for %s" % unit.uid)
    spec = {k: v for k, v in conform.load(unit.path()).items() if k in facets or k == "sig" and "ret" in facets}
    c.count("functions")
    c.count("effects", len(s.events))
    for r in conform.compare_facets(spec, act):
        if select is not None and not select(r):
            continue
        what = "%s: %s %s" % (unit.key, r.facet, r.name)
        if r.verdict == EQ:
            c.ok(rule, what)
        elif r.verdict == UNK:
            c.undecided(rule, what)
        else:
            c.violation(rule, "%s [%s]" % (s.fi.mod.path + ":" + str(s.fi.node.lineno) + " " + what, r.where), r.detail or "differs from the specification")
    return s
