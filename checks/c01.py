"""C01: whether and how often a collective is reached depends only on values equal on every rank."""
from .common import *
from vsa.uniform import Uniform

P2P = {"Sendrecv", "Isend", "Irecv", "Waitall", "Send", "Recv", "send", "recv", "isend", "irecv", "sendrecv", "Abort", "Wait",
       "Get_name", "Probe", "Iprobe", "Testall"}
H5COLL = {"create_dataset", "create_group", "require_group", "require_dataset"}
RULE = "collective-uniform"


def has_kw(d, name):
    if isinstance(d, dict):
        return name in d
    return any((isinstance(x, Term) and x.op == "kw" and x.args[0] == name) or (isinstance(x, tuple) and x[0] == name)
               for x in (d.args if isinstance(d, Term) else d))


def collective(e):
    """(communicator, description) of an event all ranks must take part in."""
    d = e.data
    if e.op == "mpi":
        n = cval(d["name"])
        return None if n in P2P else (d["comm"], "MPI " + n)
    if e.op == "prim":
        b = d["bound"]
        n = cval(d["name"])
        if "comm" in b and b["comm"].op in ("comm", "split", "ext"):
            if n.endswith(".sendrecv"):
                return None
            return b["comm"], n.split(".")[-1]
        if n.startswith("virgo.mpi.") and "comm" in b:
            return b["comm"], n.split(".")[-1]
    if e.op == "xchg":
        return d["comm"], "my_alltoallv"
    return None


def h5comm(t):
    """Communicator of a file opened for parallel access, anywhere inside t."""
    for x in subterms(t):
        if x.op == "call" and x.args[0] == "h5py.File":
            for a in x.args[1:]:
                if isinstance(a, Term) and a.op == "kw" and a.args[0] == "comm":
                    return a.args[1]
    return None


def h5collective(e, uid=""):
    if e.op == "call" and uid.endswith("collective_write"):
        # the low level interface: creating a dataset and transfers with a collective transfer property list
        n = cval(e.data["name"])
        if n == "h5py.h5d.create":
            return COMM, "dataset creation"
        if n in (".write", ".read") and has_kw(e.data["kw"], "dxpl"):
            return COMM, "collective dataset transfer"
    if e.op == "enter":
        x = e.data["ctx"]
        if x.op == "attr" and str(x.args[1] if isinstance(x.args[1], str) else cval(x.args[1])) == "collective":
            return h5comm(x) or COMM, "collective dataset transfer"
        if x.op == "call" and x.args[0] == "h5py.File":
            c = h5comm(x)
            return (c, "parallel h5py.File") if c is not None else None
    if e.op == "call":
        n = cval(e.data["name"])
        if n == "h5py.File":
            t = term(e.data)
            c = h5comm(t)
            return (c, "parallel h5py.File") if c is not None else None
        if n.lstrip(".") in H5COLL:
            c = h5comm(term(e.data))
            return (c, n) if c is not None else None
    return None


def term(d):
    from vsa.conform import term_of
    r = []
    for k, v in d.items():
        if k in ("raw", "node"):
            continue
        try:
            r.append(term_of(v))
        except Exception:
            pass
    return T("tuple", *r)


def run(c):
    c.rule(RULE, "every condition, early exit and loop bound that decides whether a collective operation is reached has the same value "
                 "on all ranks of the operation's communicator (built from constants, flags, dtypes and trailing dimensions, communicator "
                 "size, results of allreduce/allgather/bcast on it or on its parent, or the colour of the split that made it)")
    for uid, s in summaries(c, MPI_UNITS, RULE):
        short = uid.split(".")[-1]
        whole = uid.endswith(("collective_read", "collective_write"))
        U = Uniform(short)
        for e in s.events:
            for rec in e.loops:
                U.add_loop(rec)
        for e in s.events:
            r = collective(e) or h5collective(e, uid)
            if r is None:
                continue
            X, what = r
            c.count("collective operations")
            where = "%s:%d %s in %s" % (e.path, e.line, what, uid)
            conds = [(g.cond, g.kind) for g in e.guards if g.kind != "after-raise"]
            for rec in e.loops:
                if rec.term is not None:
                    conds.append((rec.term.args[0], "loop"))
                    conds += [(b.args[0], "loop exit") for b in rec.term.args[4].args]
            verdict, bad = True, None
            for t, kind in conds:
                c.count("conditions")
                v = U.uniform(t, X)
                if v is False:
                    verdict, bad = False, (t, kind, U.why)
                    break
                if v is None:
                    verdict = None
                    bad = (t, kind, None)
            if verdict is True:
                c.ok(RULE, where)
            elif verdict is None:
                c.undecided(RULE, where, "%s condition %s" % (bad[1], show(bad[0], 6)))
            else:
                c.violation(RULE, where, "reached under a per-rank %s condition: %s (depends on %s)" % (bad[1], show(bad[0], 7), show(bad[2], 5) if bad[2] is not None else "?"))
