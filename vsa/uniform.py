"""Which values are the same on every rank of a communicator.

uniform(t, X) is True when t has the same value on every rank of communicator X, False when it is built from
per-rank data, None when a construct is not understood.  Communicators are terms: the routine's own `comm`, and
split(parent, color, key).  On a split communicator the colour (and what decides between its constant values) is
the same on every member."""
from .terms import *
from .canon import canon, free

# parameters that hold this rank's share of distributed data
LOCAL_PARAMS = set("""sendbuf send_count send_offset recvbuf recv_count recv_offset arr arr_in index arr1 arr2 updates x
    weights grnr1 ids1 grnr2 ids2 match_index_12 match_index_21 length offset nr_local_ids local_nr_halos data dest
    elements_per_file local_nr result array ptr condition""".split())
# parameters that may be absent (None) on some ranks only
MAYBE_MISSING = {("replace_none_with_zero_size", "arr"), ("broadcast_dtype_and_dims", "arr")}
# parameters that are mappings with the same keys on every rank, whose items are per rank
LOCAL_ITEMS = {("write", "data"), ("_write_collective", "data"), ("_write_independent", "data")}
# attributes of a MultiFile: set identically on every rank
SELF_UNIFORM = {"collective", "filenames", "all_file_indexes", "num_files_on_rank", "first_file_on_rank", "comm"}
SELF_LOCAL = {"collective_file_nr", "rank_in_file", "num_ranks"}
EVERYWHERE = {"mpi_allreduce", "mpi_allgather", "mpi_bcast", "mpi_Allreduce", "mpi_Allgather", "mpi_Allgatherv", "mpi_Bcast"}
PER_RANK = {"mpi_gather", "mpi_Gather", "mpi_Gatherv", "mpi_scan", "mpi_exscan", "mpi_Scan", "mpi_Exscan", "mpi_scatter",
            "mpi_Scatter", "mpi_Scatterv", "mpi_alltoall", "mpi_Alltoall", "mpi_Alltoallv", "mpi_reduce", "mpi_Reduce",
            "mpi_recv", "mpi_Recv", "mpi_Irecv", "mpi_irecv", "mpi_sendrecv", "mpi_Sendrecv", "xchg", "rank"}
# distributed routines: their result is per-rank data, except these
GLOBAL_RESULT = {"virgo.mpi.gather_array.allgather_array", "virgo.mpi.parallel_sort.find_splitting_points",
                 "virgo.mpi.parallel_hdf5.assign_files", "virgo.mpi.parallel_sort.mpi_datatype",
                 "virgo.mpi.parallel_sort.gather_to_2d_array", "virgo.mpi.parallel_hdf5.compress_dcpl",
                 "virgo.mpi.parallel_sort.weighted_median"}
PURE_OF_ARGS = {"virgo.mpi.parallel_hdf5.assign_files", "virgo.mpi.parallel_sort.weighted_median",
                "virgo.mpi.parallel_sort.mpi_datatype", "virgo.mpi.parallel_hdf5.compress_dcpl",
                "virgo.mpi.parallel_sort.my_argsort", "virgo.mpi.parallel_hdf5.substitute_file_nr"}


def ancestors(x):
    """x and every communicator it was split from."""
    out = [x]
    while x.op == "split":
        x = x.args[0]
        out.append(x)
    return out


def color_of(x):
    for a in x.args[1:]:
        if a.op == "kw" and a.args[0] == "color":
            return a.args[1]
    return None


def color_facts(c):
    """Terms known to be equal on all members because the colour is."""
    out = [c]
    if c.op in ("pyint", "cast", "truthy", "pybool"):
        out += color_facts(c.args[0])
    if c.op == "ite":
        v = leaves(c)
        if v is not None and len(v) == 2 and len(set(v)) == 2:
            # the condition selecting between two different constants
            out.append(c.args[0])
    if c.op == "poly" and len(c.args) >= 1:
        ats = [x for x in subterms(c) if x is not c and x.op not in ("c", "poly")]
        if len(ats) == 1:
            out.append(ats[0])
    return out


def conjuncts(t):
    if t.op == "ite" and isc(t.args[2]) and cval(t.args[2]) is False:
        return conjuncts(t.args[0]) + conjuncts(t.args[1])
    if t.op == "and":
        return [y for x in t.args for y in conjuncts(x)]
    return [t]


def leaves(t):
    if t.op == "ite":
        a, b = leaves(t.args[1]), leaves(t.args[2])
        return None if a is None or b is None else a + b
    return [t] if t.op == "c" else None


class Uniform(object):
    def __init__(self, fname, loops=()):
        self.fname = fname
        self.owner, self.origin, self.blame = {}, {}, {}
        self.cache, self.states, self.memo, self.bad = {}, {}, {}, {}
        self.bases, self.roots = {}, {}
        self.why = None
        for rec in loops:
            self.add_loop(rec)

    def add_loop(self, rec):
        L = rec.term
        if L is not None:
            for k, p in enumerate(L.args[1].args):
                self.owner[p] = (L, k)

    def note_loops(self, t):
        for x in subterms(t):
            if x.op == "loop":
                for k, p in enumerate(x.args[1].args):
                    self.owner.setdefault(p, (x, k))

    # -------------------------------------------------------------------------------------------
    def uniform(self, t, X):
        self.note_loops(t)
        self.solve(X)
        self.why = None
        return self.u(t, X)

    def solve(self, X):
        """Greatest fixpoint: loop variables are uniform unless something they are computed from is not."""
        key = canon(X)
        bad, done = self.states.setdefault(key, ({}, [0]))
        if self.bad is not bad:
            self.bad, self.memo = bad, {}
        if done[0] == len(self.owner):
            return
        self.bases, self.roots = {}, {}
        while True:
            n = len(self.owner)
            self.memo = {}
            self.bad = bad
            change = False
            loops = []
            for L, k in self.owner.values():
                if L not in loops:
                    loops.append(L)
            for L in loops:
                cond, phis, inits, nexts, brks = L.args
                for k, p in enumerate(phis.args):
                    for m in "vkn":
                        if bad.get((p, m), True) is False:
                            continue
                        self.why = None
                        r = True
                        if m == "n" and self.overwritten(L, k):
                            r = self.u(nexts.args[k].args[2], X, m)
                        else:
                            r = self.allof([inits.args[k], nexts.args[k]] + [b.args[1].args[k] for b in brks.args], X, m)
                        if r is False:
                            self.origin.setdefault((p, m), self.why)
                        if r is not bad.get((p, m), True):
                            bad[(p, m)] = r
                            change = True
            if not change and n == len(self.owner):
                break
        done[0] = len(self.owner)
        self.memo = {}

    def facts(self, X):
        r = self.cache.get(X)
        if r is None:
            r = set()
            for a in ancestors(X):
                if a.op == "split":
                    c = color_of(a)
                    if c is not None:
                        for f in color_facts(c):
                            r.add(canon(f))
                            if is_bool(f):
                                r.add(canon(not_(f)))
            self.cache[X] = r
        return r

    def local(self, t):
        if self.why is None:
            self.why = t
        return False

    def allof(self, ts, X, m="v"):
        r = True
        for x in ts:
            if not isinstance(x, Term):
                continue
            v = self.u(x, X, m)
            if v is False:
                return False
            if v is None:
                r = None
        return r

    def u(self, t, X, m="v"):
        k = (t, X, m)
        r = self.memo.get(k, 0)
        if r == 0 and r is not False:
            old, self.why = self.why, None
            r = self.memo[k] = self.u_(t, X) if m == "v" else self.keys(t, X) if m == "k" else self.nones(t, X)
            if r is False:
                self.blame[k] = self.why
            self.why = old or self.why
        elif r is False and self.why is None:
            self.why = self.blame.get(k)
        return r

    def u_(self, t, X):
        op = t.op
        if op in ("c", "ext", "npdtype", "dt", "func", "cls", "undef"):
            return True
        fs = self.facts(X)
        if fs and op not in ("tuple", "list") and not free(t) and canon(t) in fs:
            return True
        if op == "comm":
            return True
        if op == "sym":
            if t.args[0] in LOCAL_PARAMS:
                return self.local(t)
            return True
        if op == "attr" and t.args[0].op in ("sym", "ref") and cname(t.args[0]) == "self":
            n = aname(t)
            if n in SELF_LOCAL:
                return self.local(t)
            return True
        if op == "commsize":
            return True if t.args[0] in ancestors(X) or t.args[0].op != "split" else self.local(t)
        if op == "rank":
            return self.local(t)
        if op in EVERYWHERE:
            c = t.args[0]
            if c in ancestors(X) or c.op == "ext":
                return True
            if any(canon(c) == canon(a) for a in ancestors(X)):
                return True
            return self.local(t)
        if op in PER_RANK:
            return self.local(t)
        if op == "isnone":
            x = t.args[0]
            if x.op == "sym":
                return self.local(t) if (self.fname, x.args[0]) in MAYBE_MISSING else True
            return self.u(x, X, "n")
        if op == "split":
            return True if any(canon(t) == canon(a) for a in ancestors(X)) else self.local(t)
        if op in ("dtype", "ndim", "isinstance", "hasattr", "typeof"):
            x = t.args[0]
            if (self.fname, cname(x)) in MAYBE_MISSING:
                return self.local(t)
            return True
        if op == "dim":
            x, k = t.args[0], t.args[1]
            k = cval(k) if isinstance(k, Term) and isc(k) else k
            if isinstance(k, int) and k >= 1:
                return self.local(t) if (self.fname, cname(x)) in MAYBE_MISSING else True
            return self.u(x, X, "k")
        if op == "idx" and t.args[1].op in ("phi", "cur") and self.container(t.args[0]) == "dict":
            return self.allof([t.args[0]], X, "k") and self.u(t.args[1], X)
        if op == "filled":
            return self.u(t.args[1], X)
        if op == "shape":
            return self.u(t.args[0], X)
        if op == "idx" and t.args[0].op == "shape" and t.args[1].op == "slice":
            lo = t.args[1].args[0]
            if isinstance(lo, Term) and isc(lo) and isinstance(cval(lo), int) and cval(lo) >= 1:
                return True
        if op == "phi":
            if t not in self.owner:
                return None
            return self.var(t, "v")
        if op in ("out", "cur"):
            return self.exit(t, X, "v")
        if op == "new":
            return self.allof(t.args[1:], X)
        if op == "call":
            name = t.args[0]
            if name in PURE_OF_ARGS or not name.startswith("virgo.mpi."):
                return self.allof(t.args[1:], X)
            if name in GLOBAL_RESULT:
                return True
            return self.local(t)
        return self.allof(children(t), X)

    def var(self, p, m):
        r = self.bad.get((p, m), True)
        if r is False and self.why is None:
            self.why = self.origin.get((p, m))
        return r

    def exit(self, t, X, m):
        L, i = t.args
        r = self.var(L.args[1].args[i], m)
        if r is False or t.op == "cur":
            return r
        if m == "k" and self.kbase(L.args[3].args[i]) is L.args[1].args[i] and all(
                self.kbase(b.args[1].args[i]) is L.args[1].args[i] for b in L.args[4].args):
            return r
        v = self.allof([L.args[0]] + [b.args[0] for b in L.args[4].args], X)
        return v if v is not True else r

    def container(self, t):
        """What a value grown by stores started as."""
        for _ in range(60):
            if t.op in ("store", "filled", "delitem", "dupdate", "kst"):
                t = t.args[0]
            elif t.op == "phi":
                t = t.args[2]
            elif t.op in ("out", "cur"):
                t = t.args[0].args[2].args[t.args[1]]
            elif t.op == "ite":
                t = t.args[1] if t.args[1].op not in ("undef", "c") else t.args[2]
            else:
                break
        if t.op == "sym" and (self.fname, t.args[0]) in LOCAL_ITEMS:
            return "dict"
        return t.op

    def kbase(self, t, known=()):
        """The container t has the same keys and length as."""
        hit = self.bases.get((t, known))
        if hit is not None:
            return hit
        r = self.kbase_(t, known)
        self.bases[(t, known)] = r
        return r

    def kbase_(self, t, known):
        op = t.op
        if op == "filled":
            return self.kbase(t.args[0], known)
        if op == "store":
            b, k = self.kbase(t.args[0], known), t.args[1]
            if self.container(t) != "dict":
                return b
            if k.op == "idx" and (self.kbase(k.args[0], known) is b) or (k, b) in known:
                return b
            return T("kst", b, k)
        if op == "ite":
            for x, v in known:
                if x is t.args[0] and isinstance(v, bool):
                    return self.kbase(t.args[1 if v else 2], known)
            more = known + ((t.args[0], True),)
            for x in conjuncts(t.args[0]):
                if x.op == "in" and self.container(x.args[1]) == "dict":
                    more = more + ((x.args[0], self.kbase(x.args[1], known)),)
            x, y = self.kbase(t.args[1], more), self.kbase(t.args[2], known + ((t.args[0], False),))
            return x if x is y else ite(t.args[0], x, y)
        if op == "phi":
            if t not in self.owner:
                return t
            L, i = self.owner[t]
            return self.kloop(L, i, t)
        if op in ("out", "cur"):
            L, i = t.args
            p = L.args[1].args[i]
            r = self.kloop(L, i, p)
            return t if r is p else r
        return t

    def kloop(self, L, i, p):
        """The loop variable keeps the keys it starts with (assumed, then checked) or has its own."""
        r = self.roots.get(p)
        if r is not None:
            return r
        start = self.kbase(L.args[2].args[i])
        self.roots[p] = start
        saved = dict(self.bases), dict(self.roots)
        if self.container(p) in ("dict", "sym") and all(
                self.kbase(x) is start for x in [L.args[3].args[i]] + [b.args[1].args[i] for b in L.args[4].args]):
            return start
        self.bases, self.roots = saved
        self.roots[p] = p
        return p

    def keys(self, t, X):
        t = self.kbase(t)
        op = t.op
        if op == "phi":
            return self.var(t, "k") if t in self.owner else None
        if op in ("out", "cur"):
            return self.exit(t, X, "k")
        if op == "kst":
            r = self.u(t.args[0], X, "k")
            return self.u(t.args[1], X) if r is True else r
        if op == "ite":
            r = self.u(t.args[0], X)
            return self.allof(t.args[1:], X, "k") if r is True else r
        if op == "dict":
            return self.allof([a.args[0] for a in t.args], X)
        if op in ("zeros", "ones", "empty", "full"):
            return self.u(t.args[0], X)
        if op == "sym" and (self.fname, t.args[0]) in LOCAL_ITEMS:
            return True
        if op == "call" and t.args[0] == "numpy.searchsorted":
            a = kwval(t, "v", 1)
            return self.u(a, X, "k") if a is not None else None
        return self.u(t, X)

    def overwritten(self, L, i):
        """Does the loop assign every item of the mapping it iterates over?"""
        cond, phis, inits, nexts, brks = L.args
        n, p = nexts.args[i], phis.args[i]
        if brks.args or n.op != "store" or n.args[0] is not p or self.container(p) != "dict":
            return False
        k = n.args[1]
        return k.op == "idx" and k.args[1] in phis.args and (k.args[0] is p or k.args[0] is inits.args[i])

    def nones(self, t, X):
        op = t.op
        if op == "phi":
            return self.var(t, "n") if t in self.owner else None
        if op in ("out", "cur"):
            return self.exit(t, X, "n")
        if op == "ite":
            r = self.u(t.args[0], X)
            return self.allof(t.args[1:], X, "n") if r is True else r
        if op == "store":
            return self.allof([t.args[0], t.args[2]], X, "n")
        if op == "dict":
            return self.allof([a.args[1] for a in t.args], X, "n")
        if op == "idx" and self.container(t.args[0]) == "dict":
            r = self.u(t.args[0], X, "n")
            return self.u(t.args[1], X) if r is True else r
        if op == "call" and t.args[0].endswith(".replace_none_with_zero_size"):
            return True
        if op in ("poly", "cast", "filled", "empty", "zeros", "ones", "full", "tuple", "list", "new", "str", "eq", "lt0"):
            return True
        return self.u(t, X)


def kwval(t, name, pos):
    args = [a for a in t.args[1:] if isinstance(a, Term)]
    for a in args:
        if a.op == "kw" and a.args[0] == name:
            return a.args[1]
    pl = [a for a in args if a.op != "kw"]
    return pl[pos] if len(pl) > pos else None


def cname(t):
    return t.args[0] if isinstance(t, Term) and t.op in ("sym", "ref") and t.args else None


def aname(t):
    a = t.args[1]
    return a if isinstance(a, str) else (cval(a) if isinstance(a, Term) and isc(a) else None)
