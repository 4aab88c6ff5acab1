"""Shared by the checks: units by group, conformance over many units, cached analyses."""
from vsa.terms import *
from vsa.units import UNITS
from vsa.specs import conform_unit, COMPONENTS, COMM, Unit
from vsa.interp import AnchorError, Interp

# the two ways a MultiFile works, analysed separately where a check follows the containers they build
VARIANTS = {}
for m in ("read", "get_elements_per_file", "write"):
    k = "mpi.parallel_hdf5.MultiFile." + m
    VARIANTS[k] = [Unit(k, UNITS[k].key, selfattrs={"comm": COMM, "collective": TRUE}),
                   Unit(k, UNITS[k].key, selfattrs={"comm": COMM, "collective": FALSE})]

MPI_UNITS = [u for u in UNITS if u.startswith("mpi.")]
ALL = ("ret", "mem", "attrs", "raises", "effects")


def conform(c, uids, facets=ALL, rule="conforms", select=None):
    for u in uids.split() if isinstance(uids, str) else uids:
        if u.endswith("*"):
            names = [x for x in UNITS if x.startswith(u[:-1])]
            if not names:
                raise RuntimeError("no units " + u)
        else:
            names = [u]
        for n in names:
            conform_unit(c, UNITS[n], facets, rule, select)


def summaries(c, uids, rule, **flags):
    """Analyse units; those that cannot be found or analysed are reported as undecided."""
    for u, unit in [(u, x) for u in uids for x in VARIANTS.get(u, [UNITS[u]])]:
        set_budget(3000000, 60)
        try:
            s = unit.analyse(c.prog, **flags)
        except AnchorError as e:
            c.undecided(rule, u, "not found: %s" % e)
            continue
        except (RecursionError, Budget):
            c.undecided(rule, u, "analysis did not finish")
            continue
        finally:
            set_budget()
        c.count("functions")
        c.count("effects", len(s.events))
        yield u, s
