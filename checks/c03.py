"""C03: what a routine acquires (split communicator, datatype, open file) it releases once, on every path, after the last use."""
from .common import *
from .c02 import bases
from vsa.terms import *

RULE = "released-once"
USE = "not-used-after-release"
UNITS_ = MPI_UNITS + ["util.read_binary.BinaryGroup.write_hdf5", "util.read_binary.BinaryFile.write_binary",
                      "database.make_dtrees_table.read_dhalo_trees", "database.make_dtrees_table.write_sql_server_native_file",
                      "formats.swift.swiftsimio_units", "formats.swift.swiftsimio_cosmology"]
OPEN = {"h5py.File", "open", "builtins.open", "io.open", "h5py.h5f.open", "h5py.h5f.create"}
NEUTRAL = ("after-raise",)


def acquired(e):
    d = e.data
    if e.op == "mpi" and cval(d["name"]) in ("Split", "Dup", "Split_type", "Create", "Create_group"):
        return d["result"], "communicator"
    if e.op == "prim" and cval(d["name"]).endswith(".mpi_datatype"):
        return d["result"], "MPI datatype"
    if e.op == "commit":
        return d["obj"], "MPI datatype"
    if e.op == "call" and cval(d["name"]) in OPEN:
        return d["result"], "file"
    return None


def release(e):
    """Term released by an event (None when it releases nothing)."""
    d = e.data
    if e.op == "mpi" and cval(d["name"]) == "Free":
        return d["comm"]
    if e.op == "typefree":
        return d["obj"]
    if e.op == "call" and cval(d["name"]) in (".close", ".Free", ".Disconnect"):
        return d["recv"]
    return None


def alternatives(t, cond=TRUE):
    """(condition, leaf) pairs of a conditional value."""
    if t is not None and t.op == "ite":
        return alternatives(t.args[1], and_(cond, t.args[0])) + alternatives(t.args[2], and_(cond, not_(t.args[0])))
    return [(cond, t)]


def path_cond(e, base=()):
    """Condition of an event relative to those of base (identity on guard conditions)."""
    have = {(g.cond, g.kind) for g in base}
    cs, early = [], []
    for g in e.guards:
        if g.kind in NEUTRAL or (g.cond, g.kind) in have or g.kind == "loop":
            continue
        cs.append(g.cond)
    return and_(*cs) if cs else TRUE


def escapes(s, R):
    """The resource is handed to the caller or kept in an object."""
    for t in [s.ret] + list(s.attrs.values()):
        if isinstance(t, Term) and held(t, R, set()):
            return True
    return False


def held(t, R, seen):
    if t is R:
        return True
    if id(t) in seen:
        return False
    seen.add(id(t))
    if t.op in ("tuple", "list", "dict", "ite", "obj"):
        return any(held(x, R, seen) for x in t.args if isinstance(x, Term))
    return False


def run(c):
    c.rule(RULE, "every acquisition (communicator split, datatype, opened file) that the routine does not hand on is followed by "
                 "exactly one release of the same object, in the same loop, on every path that does not raise")
    c.rule(USE, "no operation uses a communicator, datatype or file after it was released")
    for uid, s in summaries(c, UNITS_, RULE):
        ev = s.events
        acq = {}
        for e in ev:
            a = acquired(e)
            if a is not None and isinstance(a[0], Term):
                acq.setdefault(a[0], []).append((e, a[1]))
        for R, lst in acq.items():
            kind = lst[0][1]
            e0 = lst[0][0]
            where = "%s:%d %s in %s" % (e0.path, e0.line, kind, uid)
            c.count("acquisitions", len(lst))
            if escapes(s, R):
                c.ok(RULE, where, "handed to the caller")
                continue
            entered = [e for e in ev if e.op == "enter" and contains(e.data["ctx"], lambda x: x is R)]
            if len(entered) >= len(lst):
                c.ok(RULE, where, "context manager")
                continue
            rel = []
            for e in ev:
                t = release(e)
                if t is None:
                    continue
                for cond, leaf in alternatives(t):
                    if leaf is R:
                        rel.append((e, cond))
            c.count("releases", len(rel))
            if len(lst) > 1 and len(lst) == len(rel) and all(path_cond(r[0], a[0].guards) is TRUE for a, r in zip(lst, rel)) \
                    and all(r[0].loops == a[0].loops for a, r in zip(lst, rel)):
                c.ok(RULE, where)
            elif len(lst) > 1:
                if len(rel) < len(lst) and not any(r[0].loops for r in rel):
                    c.violation(RULE, where, "acquired %d times, released %d times" % (len(lst), len(rel)))
                else:
                    c.undecided(RULE, where, "several acquisitions of one value")
                continue
            else:
                single(c, s, where, kind, e0, R, rel)
            use(c, uid, ev, R, kind, rel)


def single(c, s, where, kind, e0, R, rel):
    rel = [(e, k) for e, k in rel if e.seq > e0.seq]
    if not rel:
        c.violation(RULE, where, "never released on any path out of the routine")
        return
    if any(e.loops != e0.loops for e, k in rel):
        bad = next(e for e, k in rel if e.loops != e0.loops)
        if len(rel) == 1:
            c.violation(RULE, where, "released at line %d in a different loop than it is acquired in" % bad.line)
        else:
            c.undecided(RULE, where, "released in several loops")
        return
    conds = [and_(path_cond(e, e0.guards), k) for e, k in rel]
    for i in range(len(conds)):
        for j in range(i):
            both = and_(conds[i], conds[j])
            if both is not FALSE:
                if conds[i] is TRUE or conds[j] is TRUE or conds[i] is conds[j]:
                    c.violation(RULE, where, "released twice (lines %d and %d)" % (rel[j][0].line, rel[i][0].line))
                    return
                c.undecided(RULE, where, "released under overlapping conditions")
                return
    # a condition under which the resource itself was not acquired needs no release: acquired unconditionally relative to e0
    cover = or_(*conds)
    if cover is TRUE:
        c.ok(RULE, where)
    else:
        c.violation(RULE, where, "not released when %s is false (released at line %s)" % (show(cover, 6), ", ".join(str(e.line) for e, k in rel)))


def use(c, uid, ev, R, kind, rel):
    if not rel:
        return
    # the first unconditional release
    for e, k in rel:
        for f in ev:
            if f.seq <= e.seq or f is e or release(f) is not None:
                continue
            if not compatible(e, f):
                continue
            t = used(f, kind)
            if any(leaf is R for x in t for leaf in peel(x)):
                c.violation(USE, "%s:%d in %s" % (f.path, f.line, uid), "%s used after it was released at line %d" % (kind, e.line))
                return
    c.ok(USE, "%s in %s" % (kind, uid))


def compatible(e, f):
    a = and_(*[g.cond for g in e.guards if g.kind != "loop"]) if e.guards else TRUE
    b = and_(*[g.cond for g in f.guards if g.kind != "loop"]) if f.guards else TRUE
    return and_(a, b) is not FALSE


def used(f, kind):
    d = f.data
    r = []
    if kind == "communicator":
        if f.op in ("mpi", "xchg"):
            r.append(d["comm"])
        elif f.op == "prim" and "comm" in d["bound"]:
            r.append(d["bound"]["comm"])
    elif kind == "file":
        if f.op == "call" and cval(d["name"]).startswith(".") and isinstance(d["recv"], Term):
            r.append(d["recv"])
        elif f.op == "prim":
            r += [v for v in d["bound"].values() if isinstance(v, Term) and v.op in ("call", "item", "attr", "ite")]
    else:
        if f.op == "mpi":
            a = d["args"]
            for v in (a.values() if isinstance(a, dict) else []):
                if isinstance(v, Term) and v.op in ("tuple", "list"):
                    r += [x for x in v.args if isinstance(x, Term)]
    return r


def peel(t, n=0):
    """Objects a handle is reached through (members of a file, branches of a conditional)."""
    yield t
    if n > 6:
        return
    if t.op == "ite":
        for x in t.args[1:]:
            yield from peel(x, n + 1)
    elif t.op in ("item", "attr", "getitem", "idx") and isinstance(t.args[0], Term):
        yield from peel(t.args[0], n + 1)
    elif t.op == "call" and isinstance(t.args[0], str) and t.args[0] in (".get_space", ".require_group", ".create_group") and len(t.args) > 1 and isinstance(t.args[1], Term):
        yield from peel(t.args[1], n + 1)
