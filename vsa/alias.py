"""Which existing arrays a value may share memory with."""
from .terms import *

ELL = C(Ellipsis)

VIEWS = {"view", "flat", "asdt", "reshape", "full"}
MAPPED = {"numpy.ndarray", "numpy.frombuffer", "numpy.memmap", "numpy.lib.format.open_memmap"}
VIEWCALLS = {"ascontiguousarray", "asarray", "asanyarray", "asfortranarray", "view", "squeeze", "transpose", "swapaxes", "atleast_1d",
             "atleast_2d", "broadcast_to", "require", "moveaxis", "rollaxis", "expand_dims", "split", "array_split",
             "ravel", "reshape", "diagonal", "diag", "real", "imag", "nditer", "as_strided", "memoryview"}
VIEWATTRS = {"T", "flat", "base", "data", "real", "imag"}


def basic(k):
    """Is this index one that gives a view (no array or list in it)?"""
    if k.op == "tuple":
        return all(basic(x) for x in k.args)
    if k.op in ("list", "ref", "argsort", "nonzero", "arange", "lt0", "eq", "invert", "logical_and", "logical_or", "zeros", "empty",
                "ones", "full", "filled", "store", "cumsum", "bitand", "bitor", "xchg", "flatc", "cast", "asarray") or is_bool(k):
        return False
    if k.op == "call":
        return False
    if k.op == "sym":
        return True
    if k.op == "ite":
        return basic(k.args[1]) or basic(k.args[2])
    return True


def sources(t, born, seen=None, index=True):
    """Terms (parameters, attributes, opened objects) whose memory t may share."""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    rec = lambda x: sources(x, born, seen, index)
    op = t.op
    if op == "ref":
        return rec(born[t]) if t in born else set()
    if op == "ite":
        return rec(t.args[1]) | rec(t.args[2])
    if op in VIEWS:
        return rec(t.args[0])
    if op == "idx":
        k = t.args[1]
        if not index and not any(x.op == "slice" or x is ELL for x in ([k] + list(k.args if k.op == "tuple" else []))):
            return set()        # one element
        return rec(t.args[0]) if basic(k) else set()
    if op == "attr":
        n = t.args[1] if isinstance(t.args[1], str) else cval(t.args[1])
        return rec(t.args[0]) if n in VIEWATTRS else {t}
    if op == "sym":
        return {t}
    if op == "phi":
        return rec(t.args[2]) if isinstance(t.args[2], Term) else set()
    if op in ("out", "cur"):
        L, i = t.args
        return rec(L.args[2].args[i]) | rec(L.args[3].args[i])
    if op == "call":
        n = t.args[0]
        if n.split(".")[-1] in VIEWCALLS:
            out = set()
            for a in t.args[1:2]:
                if isinstance(a, Term):
                    out |= rec(a)
            return out
        if n.split(".")[-1] == "byteswap" and any(isinstance(a, Term) and a is not FALSE and not (a.op == "kw" and a.args[1] is FALSE) for a in t.args[2:]):
            return rec(t.args[1])
        if n in MAPPED and (n != "numpy.ndarray" or any(isinstance(a, Term) and a.op == "kw" and a.args[0] == "buffer" for a in t.args[1:])):
            return {t}
    if op in ("store", "filled"):
        return set()
    return set()
