"""C11: a failure on one rank ends the whole job."""
from .common import *

WRAP = "failure-aborts"
ALL_ERRORS = {"Exception", "KeyboardInterrupt"}
COLLECTIVE = {"Barrier", "barrier", "Bcast", "bcast", "Gather", "gather", "Gatherv", "Allgather", "allgather", "Allgatherv", "Scatter",
              "scatter", "Scatterv", "Reduce", "reduce", "Allreduce", "allreduce", "Alltoall", "alltoall", "Alltoallv", "Scan", "scan",
              "Exscan", "exscan", "Split", "Dup", "Create", "Recv", "recv", "Send", "send", "Sendrecv", "sendrecv", "Ssend", "ssend",
              "Probe", "probe", "Wait", "wait"}
TRACE = {"print_exc", "format_exc", "print_exception", "format_exception", "print_last", "print_tb", "format_tb", "excepthook", "exception"}
LEAVE = {"sys.exit", "os._exit", "builtins.exit", "builtins.quit", "os.abort", "os.kill"}


def excs(t):
    """Exception conditions in a term."""
    if t.op == "exc":
        return {t}
    r = set()
    for x in t.args:
        if isinstance(x, Term):
            r |= excs(x)
    return r


def failing(cond, mine):
    """The condition once the exception `mine` has been raised (and no other)."""
    if cond.op == "exc":
        return TRUE if cond is mine else FALSE
    if cond.op in ("not", "and", "or"):
        a = [failing(x, mine) for x in cond.args]
        return not_(a[0]) if cond.op == "not" else and_(*a) if cond.op == "and" else or_(*a)
    return cond


def wrapper(c):
    c.rule(WRAP, "the wrapper calls the function once under handlers that together catch every Exception and KeyboardInterrupt; each handler "
                 "always reports a traceback and then aborts MPI.COMM_WORLD with a nonzero status, before anything that could leave, wait "
                 "for another rank or raise; without a failure the function's result is returned")
    where = "python/virgo/mpi/errchk.py mpi_errchk"
    set_budget(3000000, 60)
    try:
        fi = c.prog.func("virgo.mpi.errchk.mpi_errchk")
        first = [a.arg for a in fi.node.args.args][:1] if fi is not None else []
        s = Interp(c.prog).analyse_result("virgo.mpi.errchk.mpi_errchk", {n: T("sym", "func") for n in first})
    except AnchorError as e:
        return c.undecided(WRAP, where, str(e))
    finally:
        set_budget()
    c.count("functions", 2)
    c.count("effects", len(s.events))
    calls = [e for e in s.events if e.op == "call" and e.data["result"].op == "dyn" and e.data["result"].args[0] is T("dyn", T("sym", "func"))
             or e.op == "call" and cval(e.data["name"]) == "dyn" and any(x is T("sym", "func") for x in walk(e.data["result"]))]
    if not calls:
        return c.undecided(WRAP, where, "the call of the wrapped function was not found")
    for e in calls:
        at = "%s:%s call of the wrapped function" % (e.path, e.line)
        c.count("call sites")
        names = set().union(*e.protect) if e.protect else set()
        c.require("BaseException" in names or ALL_ERRORS <= names, WRAP, at,
                  "only %s caught: a %s leaves the other ranks waiting" % (sorted(names), "/".join(sorted(ALL_ERRORS - names))))
        star = [x for x in walk(e.data["result"]) if x.op == "star" and x.args[0] is T("sym", "*args")]
        kw = [x for x in walk(e.data["result"]) if x is T("sym", "**kwargs")]
        c.require(bool(star and kw), WRAP, at, "arguments are not passed on")
    handlers = [(i, e) for i, e in enumerate(s.events) if e.op == "handler"]
    sites = {e.line for e in calls}
    for i, h in handlers:
        mine = [x for g in h.guards for x in excs(g.cond)]
        if not mine:
            c.undecided(WRAP, where, "handler without a condition")
            continue
        mine = mine[-1]
        names = set(cval(mine.args[0]).split(","))
        if not names & (ALL_ERRORS | {"BaseException"}):
            if not any(e.protect and names & set().union(*e.protect) for e in calls):
                continue
        at = "%s:%s handler of %s" % (h.path, h.line, cval(mine.args[0]))
        c.count("handlers")
        inside = [e for e in s.events[i + 1:] if any(mine in excs(g.cond) and failing(g.cond, mine) is not FALSE for g in e.guards)
                  or all(failing(g.cond, mine) is TRUE for g in e.guards)]
        done = traced = FALSE
        status = []
        for e in inside:
            cond = and_(*[failing(g.cond, mine) for g in e.guards if g.kind != "loop"])
            cond = and_(cond, not_(done))
            if cond is FALSE:
                continue
            n = cval(e.data["name"]) if e.op in ("mpi", "call") else ""
            if e.op == "mpi" and n == "Abort" and not e.loops:
                world = e.data["comm"]
                if not (world.op == "ext" and world.args[0].endswith("COMM_WORLD")):
                    c.violation(WRAP, at, "line %s aborts %s, not every rank of the job" % (e.line, show(world, 3)))
                a = e.data["args"]
                a = a if isinstance(a, dict) else {}
                code = a.get("errorcode", C(0))
                if isc(code) and not (isinstance(cval(code), int) and cval(code) % 256 != 0):
                    c.violation(WRAP, at, "line %s aborts with status %s" % (e.line, show(code, 3)))
                done = or_(done, cond)
            elif e.op == "mpi" and n in COLLECTIVE:
                c.violation(WRAP, at, "line %s waits for other ranks (%s) before the job is aborted" % (e.line, n))
            elif e.op == "raise" and not e.protect:
                c.violation(WRAP, at, "line %s raises before the job is aborted" % e.line)
            elif e.op == "call" and n in LEAVE:
                c.violation(WRAP, at, "line %s leaves (%s) before the job is aborted" % (e.line, n))
            elif e.op in ("call", "prim") and n.split(".")[-1] in TRACE:
                traced = or_(traced, cond)
        c.require(done is TRUE, WRAP, at, "a path through the handler does not reach MPI.COMM_WORLD.Abort: it is reached when %s" % show(done, 4))
        c.require(traced is TRUE, WRAP, at, "no traceback is reported before the job is aborted")
    res = s.ret
    for x in excs(res):
        res = subst_exc(res)
    c.require(any(e.data["result"] in set(walk(res)) for e in calls), WRAP, where, "the result of the wrapped function is not returned")


def subst_exc(t):
    """A value without failures."""
    if t.op == "ite" and excs(t.args[0]):
        c = no_exc(t.args[0])
        return ite(c, subst_exc(t.args[1]), subst_exc(t.args[2]))
    return t


def no_exc(c):
    if c.op == "exc":
        return FALSE
    if c.op in ("not", "and", "or"):
        a = [no_exc(x) for x in c.args]
        return not_(a[0]) if c.op == "not" else and_(*a) if c.op == "and" else or_(*a)
    return c


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(x.args)


def run(c):
    conform(c, """mpi.errchk.mpi_errchk mpi.util.MPIArgumentParser.*""")
    wrapper(c)
