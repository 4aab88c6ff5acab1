"""C06: arrays passed in are not written to, except where that is the documented purpose."""
from .common import *
from vsa.alias import sources
from vsa.conform import EQ

RULE = "inputs-unmodified"
LEVEL = "other"
OWNED = {  # parameters whose contents the routine is documented to change
    "parallel_sort": {"arr"}, "my_alltoallv": {"recvbuf"}, "sendrecv": {"recvbuf"}, "reduce_elements": {"arr"},
    "parallel_bincount": {"result"}, "fetch_elements": {"result"}, "assign_ranges": {"array"},
}
PRIM_WRITES = {"my_alltoallv": "recvbuf", "sendrecv": "recvbuf", "parallel_sort": "arr", "reduce_elements": "arr",
               "assign_ranges": "array"}
INPLACE = {".sort", ".fill", ".resize", ".put", ".partition", ".itemset", ".setfield", ".setflags"}
INPLACE_FUNCS = {"numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.put_along_axis", "numpy.fill_diagonal",
                 "numpy.random.shuffle", "numpy.add.at", "numpy.subtract.at", "numpy.maximum.at", "numpy.minimum.at", "numpy.multiply.at",
                 "numpy.bitwise_or.at", "numpy.bitwise_and.at"}
UNITS06 = [u for u in UNITS if u.startswith(("mpi.parallel_sort.", "mpi.util.", "mpi.gather_array.", "mpi.merger_tree.", "util.match.",
                                             "util.ranges.", "util.peano.", "database.index_trees."))] + \
    ["mpi.parallel_hdf5.collective_write", "mpi.parallel_hdf5.MultiFile.write", "mpi.parallel_hdf5.MultiFile._write_collective",
     "mpi.parallel_hdf5.MultiFile._write_independent"]


def args_of(e):
    a = e.data.get("args")
    return list(a.args) if isinstance(a, Term) else list(a or ())


def kws_of(e):
    k = e.data.get("kw")
    if isinstance(k, Term):
        return {x.args[0].args[0] if isinstance(x.args[0], Term) else x.args[0]: x.args[1] for x in k.args}
    return dict(k or {})


def writes(e):
    """Arrays an event writes into, each with a description."""
    d = e.data
    if e.op == "store":
        yield d["obj"], "assigns elements of"
    elif e.op == "augment":
        yield d["obj"], "updates"
    elif e.op == "recvinto":
        yield d["loc"], "receives into"
    elif e.op == "call":
        n = cval(d["name"])
        if n in INPLACE:
            yield d["recv"], "calls %s() on" % n[1:]
        if n in INPLACE_FUNCS:
            for a in args_of(e)[:1]:
                yield a, n + "() on"
        k = kws_of(e)
        if "out" in k:
            yield k["out"], "stores the result of %s in" % n
    elif e.op == "prim":
        n = cval(d["name"]).split(".")[-1]
        b = d.get("raw") or d["bound"]
        if n in PRIM_WRITES and PRIM_WRITES[n] in b:
            yield b[PRIM_WRITES[n]], "passes to %s, which changes it:" % n


def run(c):
    c.rule(RULE, "no statement writes into an array that may share memory with a parameter (through views, conversions that need not "
                 "copy, or conditional values), other than the parameters the routine is documented to change")
    for uid, s in summaries(c, UNITS06, RULE):
        fn = uid.split(".")[-1]
        owned = OWNED.get(fn, set())
        params = {T("sym", n): n for n in s.params if n not in owned}
        bad = set()
        n = 0
        for e in s.events:
            for t, how in writes(e):
                n += 1
                c.count("writes")
                scalars = e.op == "augment"
                for x in sources(t, s.born, index=not scalars):
                    if x in params and not (scalars and params[x] not in array_params(fn)):
                        bad.add((e.line, how, params[x]))
        for k, v in s.mem.items():
            for x in sources(k, s.born):
                if x in params and v is not k:
                    bad.add((s.fi.node.lineno, "changes the contents of", params[x]))
        where = "%s:%d %s" % (s.fi.mod.path, s.fi.node.lineno, uid)
        if bad:
            for line, how, p in sorted(bad):
                c.violation(RULE, "%s:%d %s" % (s.fi.mod.path, line, uid), "%s parameter %s" % (how, p))
        else:
            c.ok(RULE, "%s (%d writes)" % (where, n))


def array_params(fn):
    from vsa.uniform import LOCAL_PARAMS
    return LOCAL_PARAMS | {"id", "ids", "coords", "keys", "values", "arr2_index", "offsets", "lengths", "pos", "dest", "key", "DescendantID",
                           "arr_in", "input_array"}
