"""Summaries of repository routines that are analysed separately and treated as primitives by their callers."""
from .terms import *

PS = "virgo.mpi.parallel_sort."


def alltoallv(it, st, fi, bound, node):
    b = {k: it.freeze(st, v) for k, v in bound.items()}
    for k in ("send_count", "send_offset", "recv_count", "recv_offset"):
        b.setdefault(k, UNDEF)
    comm = b.get("comm", NONE)
    val = T("xchg", comm, b.get("sendbuf", UNDEF), b["send_count"], b["send_offset"], b["recv_count"], b["recv_offset"])
    it.emit("xchg", {"comm": comm, "bound": b, "raw": dict(bound), "value": val}, st, node)
    if "recvbuf" in bound:
        it.recv_into(st, bound["recvbuf"], val, node)
    return NONE


PRIMS = {PS + "my_alltoallv": alltoallv}


def opaque_set(*keys):
    ks = set(keys)
    return lambda k: k in ks
