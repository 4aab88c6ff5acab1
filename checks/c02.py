"""C02: routines communicate only on the caller's communicator (or a split of it), and on the world when none was given."""
from .common import *
from .c01 import h5comm, term
from vsa.terms import *

RULE = "own-communicator"
DEF = "default-is-world"
KEEP = "object-keeps-communicator"
# operations on requests and datatypes, not on a communicator
NOCOMM = {"Waitall", "Waitany", "Wait", "Testall", "Test", "Free", "Commit", "Get_count", "Get_extent", "Create_struct",
          "Create_contiguous", "Get_size", "Abort", "Finalize", "Get_processor_name", "Wtime"}
WORLD = ("mpi4py.MPI.COMM_WORLD",)
DERIVE = {"Dup", "Split", "Split_type", "Create", "Create_group"}


def bases(t):
    """Leaves of a communicator term: what it was derived from."""
    if t.op == "split":
        return bases(t.args[0])
    if t.op == "ite":
        return bases(t.args[1]) + bases(t.args[2])
    if t.op == "call" and isinstance(t.args[0], str) and t.args[0].lstrip(".") in DERIVE and len(t.args) > 1 and isinstance(t.args[1], Term):
        return bases(t.args[1])
    if t.op == "attr" and t.args and isinstance(t.args[0], Term) and t.args[0].op == "call":
        return [t]
    return [t]


def is_world(t):
    return t.op == "ext" and t.args[0] in WORLD


def comm_of(e):
    """(communicator term, what) for an event that communicates or passes a communicator on, else None."""
    d = e.data
    if e.op == "mpi":
        n = cval(d["name"])
        if n in NOCOMM:
            return None
        return d["comm"], "MPI " + n
    if e.op == "xchg":
        return d["comm"], "exchange"
    if e.op == "prim":
        b = d["bound"]
        if "comm" in b:
            return b["comm"], cval(d["name"]).split(".")[-1]
        return None
    if e.op == "call" and cval(e.data["name"]) == "h5py.File":
        x = h5comm(term(e.data))
        return (x, "parallel h5py.File") if x is not None else None
    return None


def run(c):
    c.rule(RULE, "the communicator of every MPI operation, parallel file opening and call of a distributed routine is the caller's "
                 "communicator or was split from it")
    c.rule(DEF, "with no communicator given the same operations use MPI.COMM_WORLD, or pass the missing communicator on to a "
                "routine that does")
    c.rule(KEEP, "an object made with a communicator works on that communicator: the constructor stores it and methods use the stored one")
    for uid in MPI_UNITS:
        u = UNITS[uid]
        for mode in (COMM, NONE):
            if mode is NONE:
                if not u.args:
                    continue
                fi = c.prog.func(u.key)
                if fi is None or not has_default_none(fi):
                    continue
            for base in VARIANTS.get(uid, [u]):
                args = dict(u.args) if u.args else None
                if mode is NONE:
                    args["comm"] = NONE
                s = analysed(c, Unit(uid, u.key, args=args, arrays=u.arrays, selfattrs=base.selfattrs), RULE)
                if s is None:
                    continue
                one(c, uid, s, mode, KEEP if u.selfattrs else RULE if mode is COMM else DEF)
    # constructors
    for uid in ("mpi.parallel_hdf5.MultiFile.__init__", "mpi.util.MPIArgumentParser.__init__"):
        s = analysed(c, UNITS[uid], KEEP)
        if s is None:
            continue
        v = s.attrs.get("comm")
        if v is None:
            c.undecided(KEEP, uid, "attribute comm not found")
        else:
            bad = [b for b in bases(v) if b is not COMM and b.op != "undef"]
            c.require(not bad, KEEP, "%s:%d %s stores the communicator" % (s.fi.mod.path, s.fi.node.lineno, uid),
                      "self.comm is %s" % show(v, 5))


def has_default_none(fi):
    a = fi.node.args
    import ast
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    v = d.get("comm")
    return isinstance(v, ast.Constant) and v.value is None


def one(c, uid, s, mode, rule):
    good = (lambda t: t is COMM) if mode is COMM else is_world
    for e in s.events:
        r = comm_of(e)
        if r is None:
            continue
        X, what = r
        c.count("communications")
        where = "%s:%d %s in %s%s" % (e.path, e.line, what, uid, "" if mode is COMM else " (no communicator given)")
        bs = bases(X)
        if mode is NONE and e.op == "prim" and all(b is NONE or good(b) for b in bs):
            c.ok(rule, where)
            continue
        bad = [b for b in bs if not good(b)]
        if not bad:
            c.ok(rule, where)
        elif all(b is NONE or is_world(b) or b is COMM or b.op == "comm" for b in bad):
            c.violation(rule, where, "uses %s instead of %s" % (", ".join(show(b, 4) for b in bad),
                        "the caller's communicator" if mode is COMM else "MPI.COMM_WORLD"))
        else:
            c.undecided(rule, where, "communicator %s" % show(X, 5))


def analysed(c, unit, rule):
    set_budget(3000000, 60)
    try:
        return unit.analyse(c.prog)
    except AnchorError as e:
        c.undecided(rule, unit.uid, "not found: %s" % e)
    except (RecursionError, Budget):
        c.undecided(rule, unit.uid, "analysis did not finish")
    finally:
        set_budget()
    return None
