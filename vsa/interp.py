"""Abstract interpreter: Python syntax trees -> normal-form terms (see terms.py) and an effect log.

Values are terms; mutable objects live in an abstract heap whose contents are terms too.  Branches are both
analysed and joined with conditional terms, loops are summarised by their header condition and one symbolic
iteration (phi terms), calls to repository functions are analysed in the caller's context, everything else
becomes an opaque call term plus an entry in the effect log.  Nothing of the analysed program is executed.
"""
import ast, hashlib
from .terms import *
from . import terms as tm
from .canon import free as free_phis

MAXDEPTH = 14
UNROLL = 130


class Guard(object):
    __slots__ = ("cond", "kind")

    def __init__(self, cond, kind):
        self.cond, self.kind = cond, kind

    def __repr__(self):
        return "%s:%s" % (self.kind, show(self.cond))


class Event(object):
    def __init__(self, op, data, st, it, node):
        self.op, self.data = op, data
        self.guards, self.loops = st.guards, st.loops
        self.fn = it.frames[-1].info.key if it.frames else "<module>"
        self.stack = tuple(f.info.key for f in it.frames)
        self.path = it.frames[-1].info.mod.path if it.frames else ""
        self.line = getattr(node, "lineno", 0)
        self.seq = len(it.events)

    def where(self):
        return "%s:%d (%s)" % (self.path, self.line, self.fn)

    def cond(self, kinds=None):
        return and_(*[g.cond for g in self.guards if kinds is None or g.kind in kinds])

    def __repr__(self):
        return "<%s %s @%s>" % (self.op, {k: show(v) if isinstance(v, Term) else v for k, v in self.data.items()}, self.line)


class LoopRec(object):
    def __init__(self, uid, kind, node):
        self.uid, self.kind, self.node = uid, kind, node
        self.cond = self.iter = self.term = None
        self.phis = {}
        self.line = getattr(node, "lineno", 0)


class HObj(object):
    __slots__ = ("kind", "data", "cls", "origin")

    def __init__(self, kind, data, cls=None, origin=None):
        self.kind, self.data, self.cls, self.origin = kind, data, cls, origin


class State(object):
    __slots__ = ("env", "heap", "mem", "guards", "loops", "live", "dead")

    def __init__(self):
        self.env, self.heap, self.mem = {}, {}, {}
        self.guards, self.loops, self.live, self.dead = (), (), True, None

    def copy(self):
        s = State()
        s.env, s.heap, s.mem = dict(self.env), dict(self.heap), dict(self.mem)
        s.guards, s.loops, s.live, s.dead = self.guards, self.loops, self.live, self.dead
        return s

    def become(self, o):
        self.env, self.heap, self.mem = o.env, o.heap, o.mem
        self.guards, self.loops, self.live, self.dead = o.guards, o.loops, o.live, o.dead

    def guard(self, cond, kind):
        if cond is not TRUE:
            self.guards = self.guards + (Guard(cond, kind),)


class Frame(object):
    def __init__(self, info, nguards, nloops):
        self.info, self.rets, self.raises, self.loopctx = info, [], [], []
        self.nguards, self.nloops = nguards, nloops


class Summary(object):
    pass


DTYPES = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool_",
          "float16", "complex64", "complex128", "int_", "intc", "longlong", "ulonglong", "uintc", "single", "double"}
DTALIAS = {"i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64", "u1": "uint8", "u2": "uint16", "u4": "uint32",
           "u8": "uint64", "f4": "float32", "f8": "float64", "intc": "int32", "single": "float32", "double": "float64",
           "int_": "int64", "longlong": "int64", "ulonglong": "uint64", "uintc": "uint32"}

# positional parameter names and defaults used to canonicalise numpy calls
NPSIG = {
    "argsort": ("a axis kind order", {"axis": -1}),
    "sort": ("a axis kind order", {"axis": -1}),
    "searchsorted": ("a v side sorter", {"side": "left"}),
    "cumsum": ("a axis dtype out", {}),
    "sum": ("a axis dtype out", {}),
    "zeros": ("shape dtype order", {"order": "C"}),
    "ones": ("shape dtype order", {"order": "C"}),
    "empty": ("shape dtype order", {"order": "C"}),
    "full": ("shape fill_value dtype order", {"order": "C"}),
    "ndarray": ("shape dtype buffer offset strides order", {"offset": 0}),
    "empty_like": ("prototype dtype order subok shape", {"order": "K", "subok": True}),
    "zeros_like": ("prototype dtype order subok shape", {"order": "K", "subok": True}),
    "ones_like": ("prototype dtype order subok shape", {"order": "K", "subok": True}),
    "full_like": ("prototype fill_value dtype order subok shape", {"order": "K", "subok": True}),
    "asarray": ("a dtype order", {}), "asanyarray": ("a dtype order", {}), "ascontiguousarray": ("a dtype", {}),
    "array": ("a dtype copy order subok ndmin", {"copy": True, "subok": False, "ndmin": 0}),
    "arange": ("start stop step dtype", {}),
    "concatenate": ("arrays axis out", {"axis": 0}),
    "unique": ("ar return_index return_inverse return_counts axis",
               {"return_index": False, "return_inverse": False, "return_counts": False}),
    "bincount": ("x weights minlength", {"minlength": 0}),
    "any": ("a axis", {}), "all": ("a axis", {}), "min": ("a axis", {}), "max": ("a axis", {}),
    "amin": ("a axis", {}), "amax": ("a axis", {}), "prod": ("a axis dtype", {}),
    "repeat": ("a repeats axis", {}), "astype": ("a dtype order casting subok copy", {"copy": True, "subok": True}),
    "reshape": ("a newshape order", {"order": "C"}), "ravel": ("a order", {"order": "C"}),
    "flatten": ("a order", {"order": "C"}), "where": ("condition x y", {}), "nonzero": ("a", {}),
    "logical_and": ("x1 x2", {}), "logical_or": ("x1 x2", {}), "logical_not": ("x", {}), "take": ("a indices axis", {}),
    "minimum": ("x1 x2", {}), "maximum": ("x1 x2", {}), "dtype": ("dtype align copy", {"align": False, "copy": False}),
    "copy": ("a order", {}), "vstack": ("tup", {}), "split": ("ary n axis", {"axis": 0}), "insert": ("arr obj values axis", {}),
    "digitize": ("x bins right", {"right": False}), "indices": ("dimensions dtype", {}),
    "isscalar": ("a", {}), "iinfo": ("t", {}), "clip": ("a a_min a_max", {}), "fromfile": ("file dtype count sep offset", {"count": -1, "sep": "", "offset": 0}),
}
NPMETHODS = {"sum": "sum", "cumsum": "cumsum", "argsort": "argsort", "any": "any", "all": "all", "min": "min",
             "max": "max", "prod": "prod", "copy": "copy", "astype": "astype", "reshape": "reshape",
             "flatten": "flatten", "ravel": "ravel", "searchsorted": "searchsorted", "repeat": "repeat",
             "nonzero": "nonzero", "take": "take", "tolist": "tolist", "byteswap": "byteswap", "view": "view",
             "newbyteorder": "newbyteorder", "squeeze": "squeeze", "transpose": "transpose", "clip": "clip"}
FRESH = {"zeros", "ones", "empty", "full", "empty_like", "zeros_like", "ones_like", "full_like", "copy", "array",
         "arange", "ndarray"}
COLL_LOW = {"allreduce", "allgather", "bcast", "gather", "scatter", "alltoall", "scan", "exscan", "reduce", "barrier",
            "Barrier", "gatherv", "allgatherv"}
COLL_UP = {"Alltoall", "Alltoallv", "Allgather", "Allgatherv", "Allreduce", "Bcast", "Gather", "Gatherv", "Scatter",
           "Scatterv", "Reduce", "Scan", "Exscan", "Reduce_scatter"}
P2P = {"Send", "Recv", "Sendrecv", "Isend", "Irecv", "Ssend", "Issend", "send", "recv", "sendrecv", "isend", "irecv"}
COMM_OTHER = {"Split", "Dup", "Free", "Abort", "Get_rank", "Get_size", "Create", "Create_group"}
COMMSIG = {
    "allreduce": ("sendobj op", {}), "allgather": ("sendobj", {}), "bcast": ("obj root", {"root": 0}),
    "gather": ("sendobj root", {"root": 0}), "scatter": ("sendobj root", {"root": 0}), "alltoall": ("sendobj", {}),
    "scan": ("sendobj op", {}), "exscan": ("sendobj op", {}), "reduce": ("sendobj op root", {"root": 0}),
    "barrier": ("", {}), "Barrier": ("", {}),
    "Alltoall": ("sendbuf recvbuf", {}), "Alltoallv": ("sendbuf recvbuf", {}), "Allgather": ("sendbuf recvbuf", {}),
    "Allgatherv": ("sendbuf recvbuf", {}), "Allreduce": ("sendbuf recvbuf op", {}), "Bcast": ("buf root", {"root": 0}),
    "Gather": ("sendbuf recvbuf root", {"root": 0}), "Gatherv": ("sendbuf recvbuf root", {"root": 0}),
    "Scatter": ("sendbuf recvbuf root", {"root": 0}), "Scatterv": ("sendbuf recvbuf root", {"root": 0}),
    "Reduce": ("sendbuf recvbuf op root", {"root": 0}), "Scan": ("sendbuf recvbuf op", {}), "Exscan": ("sendbuf recvbuf op", {}),
    "Send": ("buf dest tag", {"tag": 0}), "Isend": ("buf dest tag", {"tag": 0}), "Ssend": ("buf dest tag", {"tag": 0}),
    "Recv": ("buf source tag status", {}), "Irecv": ("buf source tag", {}),
    "Sendrecv": ("sendbuf dest sendtag recvbuf source recvtag status", {"sendtag": 0}),
    "sendrecv": ("sendobj dest sendtag recvbuf source recvtag status", {"sendtag": 0}),
    "send": ("obj dest tag", {"tag": 0}), "recv": ("buf source tag status", {}), "isend": ("obj dest tag", {"tag": 0}),
    "irecv": ("buf source tag", {}),
    "Split": ("color key", {"color": 0, "key": 0}), "Free": ("", {}), "Abort": ("errorcode", {"errorcode": 0}),
    "Get_rank": ("", {}), "Get_size": ("", {}), "Dup": ("", {}),
}
PYBUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


_LIB = None


def libnames():
    global _LIB
    if _LIB is None:
        import json, os
        _LIB = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "libnames.json")))
    return _LIB


def outside(k):
    """Is this location an object that existed before the call (a parameter or something reached from one)?"""
    while k.op in ("attr", "idx", "battr", "view"):
        k = k.args[0]
    return k.op in ("sym", "ext", "mod", "class", "global", "attr") or k.op == "call" and not k.args[0].startswith("numpy.")


def is_same(a, b):
    """Identity of two objects."""
    if a is b and a.op in ("ext", "class", "func", "mod", "sym"):
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y.op in ("ext", "class", "func") and x.op == "ite" and not is_bool(x):
            return ite(x.args[0], is_same(x.args[1], y), is_same(x.args[2], y))
        # an object made by arithmetic or by a constructor is not one that existed before
        if y.op in ("ext", "class", "func") and (x.op in ("poly", "pow", "mulx", "div", "floordiv", "new") or x.op in ("ext", "class", "func") and x is not y
                                                 or x.op == "call" and x.args[0].split(".")[-1][:1].isupper()):
            return FALSE
    return T("is", *sorted((a, b)))


def lambda_digest(e):
    """Digest of a lambda up to the names of its parameters."""
    import copy
    e = copy.deepcopy(e)
    names = {a.arg: "p%d" % k for k, a in enumerate(x for x in ast.walk(e.args) if isinstance(x, ast.arg))}
    for x in ast.walk(e):
        if isinstance(x, ast.arg):
            x.arg = names.get(x.arg, x.arg)
        elif isinstance(x, ast.Name):
            x.id = names.get(x.id, x.id)
    simple_ = isinstance(e.body, (ast.Attribute, ast.Subscript)) and isinstance(e.body.value, ast.Name) or isinstance(e.body, ast.Constant)
    return ("s" if simple_ else "x") + hashlib.sha1(ast.dump(e).encode()).hexdigest()[:16]


class Interp(object):
    @property
    def npnames(self):
        return libnames()["numpy_all"]

    def __init__(self, prog, opaque=None, maxdepth=MAXDEPTH):
        self.prog = prog
        self.opaque = opaque or (lambda key: False)
        self.events, self.frames = [], []
        self.nref = 0
        self.nphi = 0
        self.born = {}     # identity given to a computed array -> the term that computed it
        self.phinames = {}
        self.modenv = {}
        self.modbusy = set()
        self.maxdepth = maxdepth
        self.stats = {"functions": set(), "loops": 0, "calls": 0, "branches": 0}
        self.protect = ()
        self.epochs = False     # mark values read from a binary file with the number of byte order changes before the read
        self.unsupported = []
        self._idxmemo = {}
        from . import prims
        self.primitives = prims.PRIMS

    # ------------------------------------------------------------------------------------------ heap helpers
    def alloc(self, st, kind, data, cls=None, origin=None):
        self.nref += 1
        r = T("ref", self.nref)
        st.heap[self.nref] = HObj(kind, data, cls, origin)
        return r

    def obj(self, st, t):
        if t.op == "ref":
            return st.heap.get(t.args[0])
        return None

    STRUCT = {"tuple", "list", "ite", "kw", "star", "slice", "dict", "set", "enumerate", "zip", "ditems", "dvalues",
              "reversed", "sorted", "range"}

    def freeze(self, st, t, seen=(), memo=None):
        """Replace heap references by their present contents.  Only locations and structures holding locations are
        looked through: every other term was built from contents when it was computed."""
        op = t.op
        if op == "c":
            return t
        if op == "ref":
            o = st.heap.get(t.args[0])
            if o is None or t.args[0] in seen:
                return T("cyc")
            s2 = seen + (t.args[0],)
            if isinstance(o.data, Term):
                return o.data if o.kind != "list" or o.data.op not in self.STRUCT else self.freeze(st, o.data, s2, memo)
            if o.kind in ("list", "set"):
                return T(o.kind, *[self.freeze(st, x, s2, memo) for x in o.data])
            if o.kind == "dict":
                return T("dict", *[T("tuple", self.freeze(st, k, s2, memo), self.freeze(st, v, s2, memo)) for k, v in o.data])
            if o.kind == "inst":
                return o.origin
            return t
        if st.mem and t in st.mem:
            return st.mem[t]
        if op == "view":
            return self.mkidx(st, self.freeze(st, t.args[0], seen, memo), self.freeze(st, t.args[1], seen, memo))
        if op == "flat":
            return T("flatc", self.freeze(st, t.args[0], seen, memo))
        if op == "asdt":
            return T("cast", self.freeze(st, t.args[0], seen, memo), t.args[1])
        if op not in self.STRUCT:
            return t
        if op == "ite":
            if not hasloc(t, st.mem):
                return t
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        m, changed = {}, False
        for c in t.args:
            if not isinstance(c, Term):
                continue
            f = self.freeze(st, c, seen, memo)
            m[c] = f
            changed |= f is not c
        r = remake(t, m) if changed else t
        memo[t] = r
        return r

    def content(self, st, t):
        return self.freeze(st, t)

    def is_loc(self, t):
        return t.op in ("sym", "ref", "view", "flat", "asdt", "phi", "attr", "elem", "out")

    # ------------------------------------------------------------------------------------------ shapes
    def shape(self, st, t):
        o = self.obj(st, t)
        if o is not None:
            if o.kind == "arr":
                return self.shape(st, o.data)
            if o.kind == "list":
                return None
        if t.op in ("zeros", "empty", "ones", "full"):
            s = t.args[0]
            return s if s.op in ("tuple", "list") else T("tuple", s)
        if t.op == "store":
            return self.shape(st, t.args[0])
        if t.op == "xchg":
            return self.shape(st, t.args[-1])
        if t.op == "cast":
            return self.shape(st, t.args[0])
        if t.op == "flat" or t.op == "flatc":
            return T("tuple", T("size", self.freeze(st, t.args[0])))
        if t.op in ("cumsum", "argsort"):
            return self.shape(st, t.args[0])
        return None

    def dim(self, st, t, i):
        if t.op == "ite":
            return ite(t.args[0], self.dim(st, t.args[1], i), self.dim(st, t.args[2], i))
        s = self.shape(st, t)
        if s is not None:
            n = len(s.args)
            if -n <= i < n:
                return s.args[i]
        o = self.obj(st, t)
        if o is not None and o.kind == "list" and not isinstance(o.data, Term) and i == 0:
            return C(len(o.data))
        f = self.freeze(st, self.loc_root_shape(st, t))
        if f.op == "ite":
            return ite(f.args[0], self.dim(st, f.args[1], i), self.dim(st, f.args[2], i))
        if f.op == "list" and i == 0:
            return C(len(f.args))
        if f.op == "tuple" and i == 0:
            return C(len(f.args))
        if f.op == "store":
            return self.dim(st, f.args[0], i)
        if f.op == "argsort" or f.op == "cumsum" or f.op == "cast":
            return self.dim(st, f.args[0], i)
        if i == 0:
            if f.op == "idx" and f.args[1].op in ("argsort",):
                return self.dim(st, f.args[1], 0)
            if f.op == "idx" and f.args[1].op == "slice" and f.args[1].args[2] is NONE:
                lo, hi, _ = f.args[1].args
                # x[a:a+n] has n elements when the slice is inside the array
            if f.op == "c" and isinstance(f.args[0], str):
                return C(len(f.args[0]))
        return T("dim", f, C(i))

    def loc_root_shape(self, st, t):
        return t

    def ndim(self, st, t):
        s = self.shape(st, t)
        if s is not None and s.op == "tuple":
            return C(len(s.args))
        return T("ndim", self.shape_base(self.freeze(st, t)))

    def shape_base(self, t):
        while t.op in ("store", "cast", "argsort"):
            t = t.args[0]
        return t

    # ------------------------------------------------------------------------------------------ dtype
    def dtype_term(self, t):
        """Canonical form of a dtype-valued term."""
        if t.op == "ite":
            return ite(t.args[0], self.dtype_term(t.args[1]), self.dtype_term(t.args[2]))
        if t.op == "dt":
            return t
        if t.op == "ext":
            n = t.args[0]
            if n.startswith("numpy.") and n[6:] in DTYPES:
                return T("dt", DTALIAS.get(n[6:], n[6:]))
            if n in ("builtins.int",):
                return T("dt", "int64")
            if n in ("builtins.float",):
                return T("dt", "float64")
            if n == "builtins.bool":
                return T("dt", "bool_")
        if isc(t) and isinstance(cval(t), str):
            v = cval(t)
            if v.startswith("=") or v.startswith("|"):
                v = v[1:]
            if v in DTALIAS:
                return T("dt", DTALIAS[v])
            if v in DTYPES:
                return T("dt", v)
        if t.op == "npdtype" and len(t.args) == 1 and t.args[0].op == "dt":
            return t.args[0]
        return t

    def dtype_of(self, st, t, depth=0):
        o = self.obj(st, t)
        if o is not None:
            if o.kind == "arr":
                return self.dtype_of(st, o.data)
            return T("dtype", self.freeze(st, t))
        if t.op in ("zeros", "empty", "ones"):
            return t.args[1]
        if t.op in ("store", "idx", "flat", "flatc", "view", "full", "filled"):
            return self.dtype_of(st, t.args[0], depth + 1) if depth < 20 else T("dtype", t)
        if t.op in ("cast", "asdt"):
            return t.args[1]
        if t.op == "xchg":
            return self.dtype_of(st, t.args[-1])
        if t.op == "dt":
            return t
        if t.op == "sym" or t.op == "attr":
            return T("dtype", t)
        f = self.freeze(st, t)
        if f is not t and depth < 20:
            return self.dtype_of(st, f, depth + 1)
        return T("dtype", f)

    # ------------------------------------------------------------------------------------------ events
    def emit(self, op, data, st, node):
        e = Event(op, data, st, self, node)
        e.protect = self.protect
        self.events.append(e)
        return e

    # ------------------------------------------------------------------------------------------ joins
    def join_states(self, c, a, b):
        """State that equals a when c else b (both live)."""
        r = State()
        r.loops = a.loops
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            va, vb = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            r.env[k] = va if va is vb else self.join_val(c, va, vb, a, b)
        for k in list(a.mem) + [k for k in b.mem if k not in a.mem]:
            va, vb = a.mem.get(k, k), b.mem.get(k, k)
            r.mem[k] = va if va is vb else ite(c, self.freeze(a, va), self.freeze(b, vb))
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            oa, ob = a.heap.get(k), b.heap.get(k)
            if oa is ob or ob is None:
                r.heap[k] = oa
            elif oa is None:
                r.heap[k] = ob
            else:
                r.heap[k] = self.join_obj(c, oa, ob, a, b)
        r.guards = a.guards
        return r

    def join_val(self, c, va, vb, a, b):
        if va is UNDEF or vb is UNDEF:
            pass
        return ite(c, va, vb)

    def join_obj(self, c, oa, ob, a, b):
        if oa.kind == "inst" and ob.kind == "inst":
            d = {}
            for k in list(oa.data) + [k for k in ob.data if k not in oa.data]:
                va, vb = oa.data.get(k, UNDEF), ob.data.get(k, UNDEF)
                d[k] = va if va is vb else ite(c, va, vb)
            return HObj("inst", d, oa.cls, oa.origin)
        if oa.kind == ob.kind and oa.kind in ("list", "set", "dict"):
            if not isinstance(oa.data, Term) and not isinstance(ob.data, Term):
                if oa.data == ob.data:
                    return oa
                if oa.kind == "list" and len(oa.data) == len(ob.data):
                    return HObj("list", tuple(ite(c, x, y) for x, y in zip(oa.data, ob.data)))
                if oa.kind == "dict" and len(oa.data) == len(ob.data) and \
                        all(k1 is k2 for (k1, _), (k2, _) in zip(oa.data, ob.data)):
                    return HObj("dict", tuple((k1, ite(c, v1, v2)) for (k1, v1), (_, v2) in zip(oa.data, ob.data)))
                if oa.kind == "list":
                    # common prefix then conditional tail
                    pass
            fa = self.freeze_obj(a, oa)
            fb = self.freeze_obj(b, ob)
            return HObj(oa.kind, ite(c, fa, fb))
        return HObj(oa.kind, ite(c, self.freeze_obj(a, oa), self.freeze_obj(b, ob)), oa.cls, oa.origin)

    def freeze_obj(self, st, o):
        if isinstance(o.data, Term):
            return self.freeze(st, o.data)
        if o.kind in ("list", "set"):
            return T(o.kind, *[self.freeze(st, x) for x in o.data])
        if o.kind == "dict":
            return T("dict", *[T("tuple", self.freeze(st, k), self.freeze(st, v)) for k, v in o.data])
        return o.origin or T("cyc")

    def merge_into(self, st, c, s1, s2, nbase):
        """st := join of the two branch results (guards beyond nbase are branch local)."""
        if not s1.live and not s2.live:
            st.become(s1)
            st.dead = s1.dead if s1.dead == s2.dead else "mixed"
            return
        if not s1.live or not s2.live:
            alive, deadst = (s2, s1) if not s1.live else (s1, s2)
            g = list(alive.guards)
            if len(g) > nbase and g[nbase].kind == "if":
                g[nbase] = Guard(g[nbase].cond, "after-" + (deadst.dead or "return"))
            alive.guards = tuple(g)
            st.become(alive)
            return
        e1, e2 = s1.guards[nbase:], s2.guards[nbase:]
        base = s1.guards[:nbase]
        r = self.join_states(c, s1, s2)
        r.guards = base
        x1 = [g for g in e1 if g.kind != "if"]
        x2 = [g for g in e2 if g.kind != "if"]
        if x1 or x2:
            kinds = set(g.kind for g in x1 + x2)
            kind = kinds.pop() if len(kinds) == 1 else "after-mixed"
            cond = ite(c, and_(*[g.cond for g in x1]), and_(*[g.cond for g in x2]))
            r.guard(cond, kind)
        st.become(r)

    # ------------------------------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if not st.live:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported.append((type(s).__name__, getattr(s, "lineno", 0)))
            self.emit("unsupported", {"kind": type(s).__name__}, st, s)
            return
        m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.stmt_call = s.value
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.asname:
                st.env[a.asname] = self.modref(a.name)
            else:
                st.env[top] = self.modref(top)
            self.emit("import", {"name": C(a.name)}, st, s)

    def modref(self, name):
        if name in self.prog.modules or any(m.startswith(name + ".") for m in self.prog.modules):
            return T("mod", name)
        return T("ext", name)

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            parts = self.curmod().split(".")
            m = self.prog.modules.get(self.curmod())
            if m is not None and not m.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            self.emit("import", {"name": C(base + "." + a.name)}, st, s)
            if a.name == "*":
                if base in self.prog.modules:
                    for k, v in self.module_env(base).items():
                        if not k.startswith("_"):
                            st.env[k] = v
                elif base == "numpy":
                    st.env["*numpy"] = TRUE
                continue
            if base in self.prog.modules and base + "." + a.name not in self.prog.modules:
                v = self.module_env(base).get(a.name)
                if v is None:
                    self.emit("badname", {"name": C(base + "." + a.name)}, st, s)
                    v = T("ext", base + "." + a.name)
                st.env[nm] = v
            else:
                st.env[nm] = self.modref(base + "." + a.name)

    def curmod(self):
        return self.frames[-1].info.mod.name if self.frames else self._loading

    def module_env(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.prog.modules[name]
        st = State()
        self.modenv[name] = st.env
        st.env["__name__"] = C(name)
        for f in m.funcs.values():
            st.env[f.name] = T("func", f.key)
        for c in m.classes.values():
            st.env[c.node.name] = T("class", c.key)
        old, fr, ev = getattr(self, "_loading", None), self.frames, self.events
        self._loading, self.frames, self.events = name, [Frame(_ModInfo(m), 0, 0)], []
        try:
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if st.live:
                    self.stmt(s, st)
        finally:
            self._loading, self.frames, self.events = old, fr, ev
        # freeze module level containers: shared mutable state is treated as its initial value
        for k, v in list(st.env.items()):
            st.env[k] = self.freeze(st, v)
        self.modenv[name] = st.env
        return st.env

    def s_FunctionDef(self, s, st):
        from .model import FuncInfo
        fr = self.frames[-1]
        key = fr.info.key + ".<locals>." + s.name + "@%d" % s.lineno
        fi = FuncInfo(key, s, fr.info.mod, closure=st.env)
        self.localfuncs = getattr(self, "localfuncs", {})
        self.localfuncs[key] = fi
        st.env[s.name] = T("func", key)

    def s_ClassDef(self, s, st):
        st.env[s.name] = T("opaque", "class " + s.name)

    def s_Global(self, s, st):
        pass

    s_Nonlocal = s_Global

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.do_return(v, st, s)

    def do_return(self, v, st, s):
        fr = self.frames[-1]
        fr.rets.append((st.guards[fr.nguards:], v, st.copy(), s))
        st.live, st.dead = False, "return"

    def s_Raise(self, s, st):
        exc = T("exc0")
        if s.exc is not None:
            e = s.exc
            args = []
            if isinstance(e, ast.Call):
                f = self.ev(e.func, st)
                args = [self.freeze(st, self.ev(a, st)) for a in e.args]
            else:
                f = self.ev(e, st)
            exc = T("exc1", f)
        self.emit("raise", {"exc": exc}, st, s)
        self.frames[-1].raises.append((st.guards, exc, s))
        st.live, st.dead = False, "raise"

    def s_Assert(self, s, st):
        c = truth(self.ev(s.test, st))
        c = restrict(c, self.lits(st))
        if c is TRUE:
            return
        s1 = st.copy()
        s1.guard(not_(c), "if")
        self.emit("raise", {"exc": T("exc1", T("ext", "builtins.AssertionError"))}, s1, s)
        st.guard(c, "after-raise")
        if c is FALSE:
            st.live, st.dead = False, "raise"

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.freeze(st, self.ev(t.slice, st))
                o = self.obj(st, b)
                if o is not None and o.kind == "dict" and not isinstance(o.data, Term):
                    if concrete(k):
                        st.heap[b.args[0]] = HObj("dict", tuple((a, v) for a, v in o.data if a is not k))
                        continue
                if o is not None and o.kind in ("list", "dict"):
                    st.heap[b.args[0]] = HObj(o.kind, T("delitem", self.freeze(st, b), k))
                    continue
                self.emit("delitem", {"obj": self.freeze(st, b), "key": k}, st, s)
            elif isinstance(t, ast.Attribute):
                self.emit("delattr", {"obj": self.freeze(st, self.ev(t.value, st)), "name": C(t.attr)}, st, s)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.unpack(st, v, n, t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if star:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, T("unpack", self.freeze(st, v), C(i), C(n)), st, node)
                else:
                    self.assign(e, items[i], st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(st, b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.store(st, b, k, v, node, t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, st, v, n, node):
        o = self.obj(st, v)
        if o is not None and o.kind == "list" and not isinstance(o.data, Term) and len(o.data) == n:
            return list(o.data)
        if v.op in ("tuple", "list") and len(v.args) == n:
            return list(v.args)
        if v.op == "ite":
            a, b = self.unpack(st, v.args[1], n, node), self.unpack(st, v.args[2], n, node)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        f = self.freeze(st, v)
        if f is not v:
            return self.unpack(st, f, n, node)
        return [self.mkidx(st, f, C(i)) for i in range(n)]

    def setattr(self, st, b, name, v, node):
        o = self.obj(st, b)
        if o is not None and o.kind == "inst":
            d = dict(o.data)
            d[name] = v
            st.heap[b.args[0]] = HObj("inst", d, o.cls, o.origin)
            if o.origin is not None and o.origin.op == "new" and next(iter(st.env.values()), None) is not b:
                self.emit("setattr", {"obj": o.origin, "name": C(name), "value": self.freeze(st, v)}, st, node)
            return
        if name == "shape" and (o is None or o.kind == "arr"):
            self.emit("reshape_inplace", {"obj": self.freeze(st, b), "shape": self.freeze(st, v)}, st, node)
            if o is not None:
                st.heap[b.args[0]] = HObj("arr", T("reshape", o.data, self.freeze(st, v)))
                return
        if b.op == "ite" and self.obj(st, b.args[1]) is not None and self.obj(st, b.args[2]) is not None:
            s1, s2 = st.copy(), st.copy()
            self.setattr(s1, b.args[1], name, v, node)
            self.setattr(s2, b.args[2], name, v, node)
            r = self.join_states(b.args[0], s1, s2)
            r.guards = st.guards
            st.become(r)
            return
        self.emit("setattr", {"obj": self.freeze(st, b), "name": C(name), "value": self.freeze(st, v)}, st, node)
        st.mem[T("attr", b, name)] = v

    def store(self, st, b, k, v, node, bnode=None):
        """b[k] = v"""
        o = self.obj(st, b)
        fk = self.freeze(st, k)
        if o is not None and o.kind == "list":
            if not isinstance(o.data, Term) and isc(fk) and isinstance(cval(fk), int) and -len(o.data) <= cval(fk) < len(o.data):
                d = list(o.data)
                d[cval(fk)] = v
                st.heap[b.args[0]] = HObj("list", tuple(d))
                return
            st.heap[b.args[0]] = HObj("list", self.mkstore(st, self.freeze(st, b), fk, self.freeze(st, v)))
            return
        if o is not None and o.kind == "dict":
            if not isinstance(o.data, Term):
                if concrete(fk) and all(concrete(a) for a, _ in o.data) or not o.data or \
                        all(a is fk or self.definitely_differ(a, fk) for a, _ in o.data):
                    d = list(o.data)
                    for i, (a, _) in enumerate(d):
                        if a is fk:
                            d[i] = (a, v)
                            break
                    else:
                        d.append((fk, v))
                    st.heap[b.args[0]] = HObj("dict", tuple(d))
                    return
            st.heap[b.args[0]] = HObj("dict", self.mkstore(st, self.freeze(st, b), fk, self.freeze(st, v)))
            return
        if o is not None and o.kind == "inst":
            m = self.find_method(o.cls, "__setitem__")
            if m is not None:
                self.call_func(m, [b, k, v], {}, st, node)
                return
            self.emit("setitem", {"obj": o.origin, "key": fk, "value": self.freeze(st, v)}, st, node)
            return
        fv = self.freeze(st, v)
        if o is not None and o.kind == "arr":
            st.heap[b.args[0]] = HObj("arr", self.mkstore(st, self.freeze(st, b), fk, fv))
            self.emit("store", {"obj": b, "key": fk, "value": fv, "local": TRUE}, st, node)
            return
        if b.op in ("view", "flat", "asdt"):
            self.emit("store", {"obj": b, "key": fk, "value": fv, "local": FALSE}, st, node)
            self.store_view(st, b, fk, fv, node)
            return
        if isinstance(bnode, ast.Subscript) and o is None and not self.is_loc(b):
            r = self.container_item(bnode, st)
            if r is not None:
                self.store(st, r[0], r[1], self.mkstore(st, self.freeze(st, b), fk, fv), node, bnode.value)
                return
        if b.op == "ite" and self.pure_leaf(st, b):
            b = self.identify(st, b)
        if b.op == "ite":
            # store through a conditional location: update both candidates under the condition
            c, x, y = b.args
            s1, s2 = st.copy(), st.copy()
            s1.guard(c, "if")
            s2.guard(not_(c), "if")
            self.store(s1, x, k, v, node)
            self.store(s2, y, k, v, node)
            r = self.join_states(c, s1, s2)
            r.guards = st.guards
            st.become(r)
            return
        if self.is_loc(b) or b.op == "call" and not b.args[0].startswith("numpy."):
            self.emit("store", {"obj": b, "key": fk, "value": fv, "local": FALSE}, st, node)
            st.mem[b] = self.mkstore(st, self.freeze(st, b), fk, fv)
            return
        if b is UNDEF or b is NONE:
            return
        # value produced by a pure operation: give it an identity now
        r = self.alloc(st, "arr", self.mkstore(st, self.freeze(st, b), fk, fv))
        self.born[r] = b
        self.emit("store", {"obj": r, "key": fk, "value": fv, "local": TRUE}, st, node)
        self.rebind(st, b, r)

    def pure_leaf(self, st, t):
        """Does a conditional value have an array without identity among its alternatives?"""
        if t.op == "ite":
            return self.pure_leaf(st, t.args[1]) or self.pure_leaf(st, t.args[2])
        return t is not UNDEF and t is not NONE and t.op != "c" and self.obj(st, t) is None and not self.is_loc(t) and \
            not (t.op == "call" and not t.args[0].startswith("numpy."))

    def identify(self, st, t):
        """t with identities given to its alternatives; names holding t hold the result."""
        def f(x):
            if x.op == "ite":
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
            if self.pure_leaf(st, x):
                r = self.alloc(st, "arr", x)
                self.born[r] = x
                return r
            return x
        r = f(t)
        self.rebind(st, t, r)
        return r

    def rebind(self, st, old, new):
        lits = self.lits(st)
        for name, val in list(st.env.items()):
            if val is old or val.op == "ite" and restrict_val(val, lits) is old:
                st.env[name] = new
        for k, o in list(st.heap.items()):
            if o.kind == "inst" and any(v is old for v in o.data.values()):
                st.heap[k] = HObj("inst", {n: (new if v is old else v) for n, v in o.data.items()}, o.cls, o.origin)

    def store_view(self, st, b, k, v, node):
        base = b.args[0]
        if b.op == "view":
            inner = v if self.is_full(k) else self.mkstore(st, self.freeze(st, b), k, v)
            self.store_raw(st, base, b.args[1], inner, node)
        elif b.op == "flat":
            self.store_raw(st, base, T("flatindex"), v if self.is_full(k) else self.mkstore(st, self.freeze(st, b), k, v), node)
        else:
            self.store_raw(st, base, k, v, node)

    def store_raw(self, st, b, k, v, node):
        o = self.obj(st, b)
        if o is not None:
            if o.kind == "arr":
                st.heap[b.args[0]] = HObj("arr", self.mkstore(st, self.freeze(st, b), k, v))
            return
        if b.op in ("view", "flat", "asdt"):
            self.store_view(st, b, k, v, node)
            return
        st.mem[b] = self.mkstore(st, self.freeze(st, b), k, v)

    def is_full(self, k):
        if k is ELL:
            return True
        if k.op == "slice":
            return k.args[0] in (NONE, C(0)) and k.args[1] is NONE and k.args[2] in (NONE, C(1))
        if k.op == "tuple":
            return len(k.args) > 0 and all(self.is_full(a) for a in k.args)
        return False

    def norm_index(self, k):
        if k.op == "tuple" and len(k.args) > 1 and k.args[-1] is ELL:
            k = k.args[0] if len(k.args) == 2 else T("tuple", *k.args[:-1])
        if k.op == "tuple" and len(k.args) > 1 and all(self.is_full(a) for a in k.args[1:]) and not self.is_full(k.args[0]):
            k = k.args[0]
        if k.op == "slice" and k.args[0] is C(0):
            k = T("slice", NONE, *k.args[1:])
        if k.op == "slice" and k.args[2] is C(1):
            k = T("slice", k.args[0], k.args[1], NONE)
        if k.op == "list":
            k = T("tuple", *k.args) if False else k
        return k

    def mkstore(self, st, base, k, v):
        k = self.norm_index(k)
        if self.is_full(k) or k.op == "flatindex":
            alloc = base
            while alloc.op == "store" or alloc.op == "filled":
                alloc = alloc.args[0]
            if v.op == "xchg" or v.op.startswith("mpi_"):
                return v
            if alloc.op in ("zeros", "empty", "ones", "full"):
                return T("filled", alloc, v)
            return T("filled", base if base.op in ("sym",) else alloc, v)
        if base.op == "store" and base.args[1] is k:
            base = base.args[0]
        # stores to different constant positions commute
        if base.op == "store" and concrete(k) and concrete(base.args[1]) and k.op == base.args[1].op == "c" and k < base.args[1]:
            if self.definitely_differ(k, base.args[1]):
                return T("store", self.mkstore(st, base.args[0], k, v), base.args[1], base.args[2])
        return T("store", base, k, v)

    def definitely_differ(self, a, b):
        if concrete(a) and concrete(b):
            try:
                va, vb = pyval(a), pyval(b)
                if isinstance(va, int) and isinstance(vb, int) and (va < 0) != (vb < 0):
                    return False
                return va != vb
            except Exception:
                return False
        if a.op == "str" and b.op == "str" and len(a.args) == len(b.args):
            # same structure, different literal pieces
            x = [(p, q) for p, q in zip(a.args, b.args) if p is not q]
            return len(x) == 1 and isc(x[0][0]) and isc(x[0][1])
        return False

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno, col_offset=0), st)
            rhs = self.ev(s.value, st)
            o = self.obj(st, cur)
            if o is not None and o.kind == "list" and isinstance(s.op, ast.Add):
                self.list_method(st, cur, o, "extend", [rhs], s)
                return
            if o is not None and o.kind == "arr":
                self.store(st, cur, ELL, self.binop(st, s.op, self.freeze(st, cur), self.freeze(st, rhs)), s)
                return
            if cur in self.arrays or cur.op in ("view", "flat", "asdt") and self.view_of_array(cur):
                self.store(st, cur, ELL, self.binop(st, s.op, self.freeze(st, cur), self.freeze(st, rhs)), s)
                return
            self.emit("augment", {"obj": cur}, st, s)
            st.env[t.id] = self.binop(st, s.op, cur, rhs)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.getattr(st, b, t.attr, s)
            rhs = self.ev(s.value, st)
            o = self.obj(st, cur)
            if o is not None and o.kind == "list":
                self.list_method(st, cur, o, "extend", [rhs], s)
                return
            self.setattr(st, b, t.attr, self.binop(st, s.op, cur, rhs), s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            cur = self.index(st, b, k, s)
            rhs = self.ev(s.value, st)
            self.store(st, b, k, self.binop(st, s.op, self.freeze(st, cur), self.freeze(st, rhs)), s)

    arrays = frozenset()

    def view_of_array(self, t):
        while t.op in ("view", "flat", "asdt"):
            t = t.args[0]
        return t in self.arrays or t.op == "ref"

    def lits(self, st):
        out = {}
        for g in st.guards:
            out.update(literals(g.cond))
        return out

    def s_If(self, s, st):
        c = truth(self.ev(s.test, st))
        c = restrict(c, self.lits(st))
        self.stats["branches"] += 1
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        self.branch(st, c, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def branch(self, st, c, f1, f2):
        n = len(st.guards)
        s1, s2 = st.copy(), st.copy()
        s1.guard(c, "if")
        s2.guard(not_(c), "if")
        f1(s1)
        f2(s2)
        self.merge_into(st, c, s1, s2, n)

    def s_With(self, s, st):
        for item in s.items:
            v = self.ev(item.context_expr, st)
            self.emit("enter", {"ctx": self.freeze(st, v)}, st, s)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, s)
        self.block(s.body, st)
        x = st if st.live else st.copy()
        for item in reversed(s.items):
            self.emit("exit", {"ctx": C(ast.unparse(item.context_expr))}, x, s)

    def s_Try(self, s, st):
        n = len(st.guards)
        pre = st.copy()
        mark = len(self.events)
        body = st.copy()
        caught = [self.handled(h, pre) for h in s.handlers]
        outer, self.protect = self.protect, self.protect + (frozenset().union(*caught),) if caught else self.protect
        try:
            self.block(s.body, body)
        finally:
            self.protect = outer
        what = [e for e in self.events[mark:]]
        if body.live:
            self.block(s.orelse, body)
        for h, names in zip(s.handlers, caught):
            typ = ",".join(sorted(names))
            ident = T("c", typ)
            sig = self.try_sig(s, pre, what)
            c = T("exc", ident, sig)
            hs = pre.copy()
            hs.guard(c, "if")
            body2 = body
            if h.name:
                hs.env[h.name] = T("excval", ident, sig)
            self.emit("handler", {"type": ident}, hs, h)
            self.block(h.body, hs)
            body2.guards = body2.guards[:n] + (Guard(not_(c), "if"),) + body2.guards[n:]
            r = pre.copy()
            self.merge_into(r, c, hs, body2, n)
            body = r
        st.become(body)
        if s.finalbody:
            if st.live:
                self.block(s.finalbody, st)
            else:
                x = st.copy()
                x.live = True
                self.block(s.finalbody, x)

    def handled(self, h, pre):
        """Names of the exceptions a handler catches."""
        if h.type is None:
            return {"BaseException"}
        m = len(self.events)
        t = self.freeze(pre, self.ev(h.type, pre.copy()))
        del self.events[m:]
        out = set()
        for x in t.args if t.op in ("tuple", "list") else (t,):
            n = x.args[0] if x.op in ("ext", "class") else show(x, 3)
            out.add(n.split(".")[-1])
        return out

    def try_sig(self, s, pre, what=()):
        """Identity of the exception condition: the first operation of the protected block, else its first value."""
        for e in what:
            if e.op == "call":
                return T("tuple", e.data["name"], e.data["recv"], e.data["args"], e.data["kw"])
            if e.op == "mpi":
                return T("tuple", e.data["name"], e.data["comm"])
            if e.op == "raise":
                return T("tuple", e.data["exc"], e.cond(None))
        for st_ in s.body:
            node = getattr(st_, "value", None) or (st_ if not isinstance(st_, ast.Pass) else None)
            if isinstance(node, ast.expr):
                m = len(self.events)
                tmp = pre.copy()
                try:
                    v = self.freeze(tmp, self.ev(node, tmp))
                except Exception:
                    v = UNDEF
                del self.events[m:]
                while v.op in ("pyfloat", "pyint") and isinstance(v.args[0], Term):
                    v = v.args[0]
                if isc(v):
                    continue
                return v
        return UNDEF

    def s_Break(self, s, st):
        self.frames[-1].loopctx[-1]["breaks"].append(st.copy())
        st.live, st.dead = False, "break"

    def s_Continue(self, s, st):
        self.frames[-1].loopctx[-1]["continues"].append(st.copy())
        st.live, st.dead = False, "continue"

    # ------------------------------------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.for_loop(st, s, it, lambda x, v: self.assign(s.target, v, x, s), lambda x: self.block(s.body, x))
        if s.orelse and st.live:
            self.block(s.orelse, st)

    def concrete_items(self, st, it):
        """List of item values when the iterable's length is known."""
        o = self.obj(st, it)
        if o is not None:
            if o.kind in ("list", "set") and not isinstance(o.data, Term):
                return list(o.data)
            if o.kind == "dict" and not isinstance(o.data, Term):
                return [k for k, _ in o.data]
            if o.kind in ("list", "dict", "set", "arr"):
                f = self.freeze(st, it)
                if f.op in ("list", "tuple"):
                    return list(f.args)
            return None
        if it.op in ("tuple", "list", "set"):
            return list(it.args)
        if it.op == "dict":
            return [a.args[0] for a in it.args]
        if it.op == "c" and isinstance(cval(it), str):
            return [C(x) for x in cval(it)]
        if it.op == "range":
            if all(is_num(a) for a in it.args):
                r = range(*[int(cval(a)) for a in it.args])
                if len(r) <= UNROLL:
                    return [C(i) for i in r]
            return None
        if it.op == "enumerate":
            x = self.concrete_items(st, it.args[0])
            if x is not None:
                return [T("tuple", add(C(i), it.args[1]), v) for i, v in enumerate(x)]
        if it.op == "zip":
            xs = [self.concrete_items(st, a) for a in it.args]
            if xs and all(x is not None for x in xs):
                return [T("tuple", *v) for v in zip(*xs)]
        if it.op == "ditems":
            o = self.obj(st, it.args[0])
            if o is not None and o.kind == "dict" and not isinstance(o.data, Term):
                return [T("tuple", k, v) for k, v in o.data]
            if it.args[0].op == "dict":
                return list(it.args[0].args)
        if it.op == "dvalues":
            o = self.obj(st, it.args[0])
            if o is not None and o.kind == "dict" and not isinstance(o.data, Term):
                return [v for k, v in o.data]
            if it.args[0].op == "dict":
                return [a.args[1] for a in it.args[0].args]
        if it.op == "sorted":
            x = self.concrete_items(st, it.args[0])
            if x is not None and all(concrete(i) for i in x):
                try:
                    return [C(v) for v in sorted(pyval(i) for i in x)]
                except Exception:
                    return None
        if it.op == "reversed":
            x = self.concrete_items(st, it.args[0])
            if x is not None:
                return x[::-1]
        return None

    def for_loop(self, st, node, it, bind, body):
        items = self.concrete_items(st, it)
        if items is not None and len(items) <= UNROLL:
            self.unrolled(st, node, items, bind, body)
            return
        it = self.loop_iter(st, it)
        self.symbolic_loop(st, node, it, None, bind, body)

    def loop_iter(self, st, it):
        if it.op in ("enumerate", "zip", "reversed", "sorted"):
            return T(it.op, *[self.loop_iter(st, a) for a in it.args])
        if it.op in ("ditems", "dvalues"):
            return T(it.op, self.freeze(st, it.args[0]))
        return self.freeze(st, it)

    def unrolled(self, st, node, items, bind, body):
        fr = self.frames[-1]
        breaks = []
        n0 = len(st.guards)
        for v in items:
            if not st.live:
                break
            ctx = {"breaks": [], "continues": []}
            fr.loopctx.append(ctx)
            nb = len(st.guards)
            bind(st, v)
            body(st)
            fr.loopctx.pop()
            for cst in ctx["continues"]:
                self.absorb(st, cst, nb)
            breaks.extend(ctx["breaks"])
        for b in reversed(breaks):
            self.absorb(st, b, n0)

    def absorb(self, st, other, nbase):
        """Join a state that left the normal flow (continue/break) back into st."""
        cond = and_(*[g.cond for g in other.guards[nbase:]])
        o = other.copy()
        o.live = True
        if not st.live:
            o.guards = other.guards[:nbase]
            o.guard(cond, "after-" + (st.dead or "return"))
            o.dead = None
            st.become(o)
            return
        # guards of the surviving path are complementary: drop the ones created by the escape itself
        rest = [g for g in st.guards[nbase:] if g.kind not in ("after-continue", "after-break")]
        r = self.join_states(cond, o, st)
        r.guards = st.guards[:nbase]
        for g in rest:
            r.guard(or_(cond, g.cond), g.kind)
        st.become(r)

    def s_While(self, s, st):
        # constant trip counts are unrolled
        trial = st.copy()
        mark, nr = len(self.events), len(self.frames[-1].rets)
        ok = self.try_unroll_while(s, trial)
        if ok:
            st.become(trial)
            if s.orelse and st.live:
                self.block(s.orelse, st)
            return
        del self.events[mark:]
        del self.frames[-1].rets[nr:]
        self.symbolic_loop(st, s, None, s.test, None, lambda x: self.block(s.body, x))
        if s.orelse and st.live:
            self.block(s.orelse, st)

    def try_unroll_while(self, s, st):
        fr = self.frames[-1]
        for i in range(UNROLL):
            c = restrict(truth(self.ev(s.test, st)), self.lits(st))
            if c is FALSE:
                return True
            if c is not TRUE or (isinstance(s.test, ast.Constant)):
                return False
            ctx = {"breaks": [], "continues": []}
            fr.loopctx.append(ctx)
            self.block(s.body, st)
            fr.loopctx.pop()
            if ctx["breaks"] or ctx["continues"] or not st.live:
                return False
        return False

    # keys of mutable places: ('e',name) ('m',loc) ('h',id) ('a',id,attr)
    def places(self, st):
        out = {}
        for k, v in st.env.items():
            out[("e", k)] = v
        for k, v in st.mem.items():
            out[("m", k)] = v
        for k, o in st.heap.items():
            if o.kind == "inst":
                for a, v in o.data.items():
                    out[("a", k, a)] = v
            else:
                out[("h", k)] = o
        return out

    def setplace(self, st, key, v):
        if key[0] == "e":
            st.env[key[1]] = v
        elif key[0] == "m":
            st.mem[key[1]] = v
        elif key[0] == "h":
            o = st.heap[key[1]]
            st.heap[key[1]] = HObj(o.kind, v, o.cls, o.origin)
        else:
            o = st.heap.get(key[1])
            if o is not None:
                d = dict(o.data)
                d[key[2]] = v
                st.heap[key[1]] = HObj("inst", d, o.cls, o.origin)

    def place_term(self, st, key, v):
        if v is None:
            return key[1] if key[0] == "m" else UNDEF
        if isinstance(v, HObj):
            return self.freeze_obj(st, v)
        return self.freeze(st, v)

    def give_identity(self, st, node):
        """Arrays computed before the loop and stored into within it become objects."""
        if node is None:
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                v = st.env.get(n.value.id)
                if v is not None and v.op == "ite":
                    v = restrict_val(v, self.lits(st))
                if v is None or self.obj(st, v) is not None or self.is_loc(v):
                    continue
                if v.op == "ite":
                    if self.pure_leaf(st, v):
                        st.env[n.value.id] = self.identify(st, v)
                    continue
                if v.op in ("poly", "zeros", "empty", "ones", "full", "filled", "cumsum", "argsort", "idx", "cast", "store", "where", "eq", "lt0", "arange") \
                        or v.op == "call" and v.args[0].startswith("numpy."):
                    st.env[n.value.id] = self.alloc(st, "arr", v)

    def symbolic_loop(self, st, node, it, test, bind, body):
        self.stats["loops"] += 1
        fr = self.frames[-1]
        rec = LoopRec(0, "for" if it is not None else "while", node)
        self.give_identity(st, node)
        base = st.copy()
        baseplaces = self.places(base)
        mark, nr = len(self.events), len(fr.rets)
        nraise = len(fr.raises)
        phis = {}          # place key -> phi
        order = []
        kphi = None
        nphi0 = self.nphi
        rec.iter = it
        for attempt in range(25):
            del self.events[mark:]
            del fr.rets[nr:]
            del fr.raises[nraise:]
            S = base.copy()
            for key in order:
                self.setplace(S, key, phis[key])
            nb = len(S.guards)
            S.loops = S.loops + (rec,)
            if it is not None:
                if kphi is None:
                    start = it.args[0] if it.op == "range" else C(0)
                    self.nphi += 1
                    kphi = T("phi", self.nphi, "e", start)
                    self.phinames[self.nphi] = "k"
                if it.op == "range":
                    step = it.args[2]
                    if is_num(step) and cval(step) < 0:
                        cond = lt(it.args[1], kphi)
                    else:
                        cond = lt(kphi, it.args[1])
                else:
                    step = C(1)
                    cond = lt(kphi, self.iter_len(S, it))
            else:
                cond = truth(self.ev(test, S))
                cond = restrict(cond, {}) if order or True else cond
            start_places = self.places(S)
            S.guard(cond, "loop")
            if bind is not None:
                bind(S, self.elem(S, it, kphi))
            ctx = {"breaks": [], "continues": []}
            fr.loopctx.append(ctx)
            nb2 = len(S.guards)
            if cond is not FALSE:
                body(S)
            fr.loopctx.pop()
            for cst in ctx["continues"]:
                self.absorb(S, cst, nb2)
            ends = ([S] if S.live else []) + ctx["breaks"]
            changed = []
            for e in ends:
                pl = self.places(e)
                for key, v in pl.items():
                    o = start_places.get(key)
                    if o is v:
                        continue
                    if key[0] in ("h", "a") and key[1] not in base.heap:
                        continue
                    if key[0] == "m" and isinstance(key[1], Term) and any(x.op == "phi" and x.args[0] > nphi0 for x in subterms(key[1])):
                        continue    # an object that is new in every round
                    if isinstance(v, HObj) and isinstance(o, HObj) and v.data is o.data:
                        continue
                    if key not in phis and key not in changed:
                        if self.place_term(e, key, v) is self.place_term(base, key, o) and not isinstance(v, HObj):
                            continue
                        changed.append(key)
                for key in start_places:
                    if key not in pl and key[0] == "e" and key not in phis and key not in changed:
                        pass
            if not changed:
                break
            for key in changed:
                self.nphi += 1
                init = self.place_term(base, key, baseplaces.get(key))
                kind = key[0]
                if kind == "a":
                    kind = "a"
                phis[key] = T("phi", self.nphi, kind, init)
                self.phinames[self.nphi] = str(key[1]) if key[0] == "e" else str(key)
                order.append(key)
        rec.cond, rec.phis = cond, phis
        if cond is FALSE:
            del self.events[mark:]
            st.become(base)
            return
        nexts = []
        inits = []
        for key in order:
            inits.append(self.place_term(base, key, baseplaces.get(key)))
            pl = self.places(S) if S.live else {}
            nexts.append(self.place_term(S, key, pl.get(key)) if S.live else UNDEF)
        plist = [phis[k] for k in order]
        if it is not None:
            plist.append(kphi)
            inits.append(kphi.args[2])
            nexts.append(add(kphi, step))
        brks = []
        for b in ctx["breaks"]:
            bc = and_(*[g.cond for g in b.guards[nb2:]])
            pl = self.places(b)
            vals = [self.place_term(b, k, pl.get(k)) for k in order] + ([kphi] if it is not None else [])
            brks.append(T("brk", bc, T("tuple", *vals)))
        L = T("loop", cond, T("tuple", *plist), T("tuple", *inits), T("tuple", *nexts), T("tuple", *brks))
        rec.term = L
        # state after the loop
        after = base.copy()
        for e in ([S] if S.live else []) + ctx["breaks"]:
            for k, o in e.heap.items():
                if k not in after.heap:
                    after.heap[k] = o
        for i, key in enumerate(order):
            v = self.reduce_pattern(L, i, it, kphi)
            self.setplace(after, key, v)
            if key[0] == "e" and nexts[i] is UNDEF and not brks:
                after.env.pop(key[1], None)
        after.guards = base.guards
        after.loops = base.loops
        if cond is TRUE and not brks and it is None:
            after.live, after.dead = False, "return"
        st.become(after)

    def reduce_pattern(self, L, i, it, kphi):
        cond, phis, inits, nexts, brks = L.args
        phi, init, nxt = phis.args[i], inits.args[i], nexts.args[i]
        if it is not None and not brks.args and it.op not in ("range", "enumerate", "zip", "ditems"):
            e = self.elem(State(), it, kphi)
            if nxt is mul(phi, e) and not is_num(e):
                return mul(init, T("prod", it))
            if nxt is add(phi, e):
                return add(init, T("sum", it))
        if it is not None and it.op == "range" and not brks.args and kphi is not None and nxt is not phi:
            x = None
            for e in subterms(nxt):
                if e.op == "idx" and e.args[1] is kphi and not (free_phis(e.args[0]) & set(phis.args)):
                    x = e
                    break
            if x is not None and it.args[0] is C(0) and it.args[2] is C(1) and self.dim(State(), x.args[0], 0) is it.args[1]:
                if nxt is mul(phi, x):
                    return mul(init, T("prod", x.args[0]))
                if nxt is add(phi, x):
                    return add(init, T("sum", x.args[0]))
        if nxt is phi:
            return init
        if it is not None and it.op == "range" and not brks.args and it.args[2] is C(1) and nxt.op == "store" and nxt.args[0] is phi:
            r = self.elementwise(L, it, kphi, phi, init, nxt)
            if r is not None:
                return r
        return T("out", L, i)

    def elementwise(self, L, it, kphi, phi, init, nxt):
        """A loop that sets one element after the other is an assignment of a section."""
        lo, hi = it.args[0], it.args[1]
        mine = set(L.args[1].args)
        off = sub(nxt.args[1], kphi)
        if not isc(off) or free_phis(nxt.args[2]) & (mine - {kphi}):
            return None

        def section(base, o):
            a, b = add(lo, o), add(hi, o)
            if not (nonneg(a) or isc(a) and cval(a) >= 0):
                return None
            return self.norm_index(T("slice", NONE if a is C(0) else a, NONE if a is C(0) and self.dim(State(), base, 0) is b else b, NONE))

        def vector(v):
            if kphi not in subterms(v):
                return v
            if v.op == "idx" and len(v.args) == 2 and kphi not in subterms(v.args[0]):
                o = sub(v.args[1], kphi)
                k = section(v.args[0], o) if isc(o) else None
                return None if k is None else v.args[0] if self.is_full(k) else self.mkidx(State(), v.args[0], k)
            if v.op == "poly":
                m = {}
                for x in children(v):
                    m[x] = vector(x)
                    if m[x] is None or x is kphi:
                        return None
                return remake(v, m)
            return None
        k = section(init, off)
        v = vector(nxt.args[2])
        if k is None or v is None:
            return None
        return self.mkstore(State(), init, k, v)

    def iter_len(self, st, it):
        if it.op == "enumerate":
            return self.iter_len(st, it.args[0])
        if it.op == "zip":
            return minmax("min", [self.iter_len(st, a) for a in it.args])
        if it.op in ("reversed", "sorted"):
            return self.iter_len(st, it.args[0])
        if it.op == "range":
            a, b, s = it.args
            if s is C(1):
                return sub(b, a)
            return T("rangelen", a, b, s)
        if it.op in ("ditems", "dvalues"):
            return T("dim", it.args[0], C(0))
        return self.length(st, it)

    def length(self, st, x):
        items = self.concrete_items(st, x)
        if items is not None:
            return C(len(items))
        if x.op == "shape":
            return T("ndim", x.args[0])
        if x.op == "ite":
            return ite(x.args[0], self.length(st, x.args[1]), self.length(st, x.args[2]))
        return self.dim(st, x, 0)

    def elem(self, st, it, k):
        if it.op == "range":
            return k
        if it.op == "enumerate":
            return T("tuple", add(k, it.args[1]), self.elem(st, it.args[0], k))
        if it.op == "zip":
            return T("tuple", *[self.elem(st, a, k) for a in it.args])
        if it.op == "ditems":
            e = T("elem", it, k)
            return T("tuple", T("idx", e, C(0)), T("idx", e, C(1)))
        return self.mkidx(st, it, k)

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.unsupported.append((type(e).__name__, getattr(e, "lineno", 0)))
            return T("opaque", ast.dump(e)[:200])
        return m(e, st)

    def ev_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return ELL
        return C(v)

    def ev_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if v.op == "ite" or v is UNDEF:
                v = restrict_val(v, self.lits(st))
                if v is UNDEF or v.op == "ite" and unbound(v):
                    self.emit("unbound", {"name": C(e.id), "value": v}, st, e)
                return v
            return v
        info = self.frames[-1].info if self.frames else None
        if info is not None:
            cl = info.closure
            if cl and e.id in cl:
                return cl[e.id]
            me = self.module_env(info.mod.name)
            if e.id in me:
                v = me[e.id]
                while v.op == "ite" and UNDEF in v.args:
                    v = v.args[2] if v.args[1] is UNDEF else v.args[1]
                return v
            if "*numpy" in me and e.id in self.npnames:
                return self.getattr(st, T("ext", "numpy"), e.id, e)
        if e.id in PYBUILTINS or e.id in ("unicode", "basestring", "xrange", "long"):
            return T("ext", "builtins." + e.id)
        self.emit("badname", {"name": C(e.id)}, st, e)
        return T("undefname", e.id)

    def ev_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.concrete_items(st, v)
                if items is None:
                    return T("tuplestar", *[self.freeze(st, self.ev(y.value if isinstance(y, ast.Starred) else y, st)) for y in e.elts])
                out.extend(items)
            else:
                out.append(self.ev(x, st))
        return T("tuple", *out)

    def ev_List(self, e, st):
        t = self.ev_Tuple(e, st)
        if t.op == "tuple":
            return self.alloc(st, "list", t.args)
        return self.alloc(st, "list", t)

    def ev_Set(self, e, st):
        t = self.ev_Tuple(e, st)
        return self.alloc(st, "set", t.args)

    def ev_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st)
                o = self.obj(st, x)
                if o is not None and o.kind == "dict" and not isinstance(o.data, Term):
                    items.extend(o.data)
                    continue
                return self.alloc(st, "dict", T("dictmerge", self.freeze(st, x)))
            items.append((self.freeze(st, self.ev(k, st)), self.ev(v, st)))
        return self.alloc(st, "dict", tuple(items))

    def ev_Starred(self, e, st):
        return T("star", self.freeze(st, self.ev(e.value, st)))

    def ev_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.freeze(st, self.ev(x, st))
        return self.norm_index(T("slice", f(e.lower), f(e.upper), f(e.step)))

    def ev_Index(self, e, st):
        return self.ev(e.value, st)

    def ev_ExtSlice(self, e, st):
        return T("tuple", *[self.ev(x, st) for x in e.dims])

    def ev_Lambda(self, e, st):
        from .model import FuncInfo
        fr = self.frames[-1]
        fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)],
                             decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        key = fr.info.key + ".<lambda>@%d#%s" % (e.lineno, lambda_digest(e))
        self.localfuncs = getattr(self, "localfuncs", {})
        self.localfuncs[key] = FuncInfo(key, fn, fr.info.mod, closure=st.env)
        return T("func", key)

    def ev_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev_JoinedStr(v.format_spec, st)
                    spec = cval(sp) if isc(sp) else show(sp)
                parts.append(T("fmt", self.freeze(st, self.ev(v.value, st)), normspec(spec)))
        return mkstr(parts)

    def ev_IfExp(self, e, st):
        c = restrict(truth(self.ev(e.test, st)), self.lits(st))
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        out = []
        self.branch(st, c, lambda x: out.append(self.ev(e.body, x)), lambda x: out.append(self.ev(e.orelse, x)))
        return ite(c, out[0], out[1])

    def ev_BoolOp(self, e, st):
        v = self.ev(e.values[0], st)
        isand = isinstance(e.op, ast.And)
        for nx in e.values[1:]:
            c = restrict(truth(v), self.lits(st))
            if c is TRUE:
                v = self.ev(nx, st) if isand else v
                continue
            if c is FALSE:
                v = v if isand else self.ev(nx, st)
                continue
            out = []
            g = c if isand else not_(c)
            vv = v
            self.branch(st, g, lambda x: out.append(self.ev(nx, x)), lambda x: None)
            if isand:
                v = ite(c, out[0], v) if not (is_bool(v)) else ite(c, truth(out[0]) if is_bool(truth(out[0])) else out[0], FALSE)
            else:
                v = ite(c, v, out[0]) if not (is_bool(v)) else ite(c, TRUE, truth(out[0]))
        return v

    def ev_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            o = self.obj(st, v)
            return not_(self.truth_of(st, v))
        v = self.freeze(st, v)
        if isinstance(e.op, ast.USub):
            return tm.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if is_bool(v):
            return not_(v)
        if v.op == "eq" or v.op == "lt0":
            return not_(v)
        return T("invert", v)

    def truth_of(self, st, v):
        o = self.obj(st, v)
        if o is not None and o.kind in ("list", "dict", "set"):
            if isinstance(o.data, Term):
                return T("truthy", self.freeze(st, v))
            return TRUE if o.data else FALSE
        return truth(v)

    def ev_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(st, e.op, a, b)

    def seqish(self, st, t):
        o = self.obj(st, t)
        if o is not None:
            return o.kind == "list"
        return t.op in ("tuple", "list", "str", "concat") or (isc(t) and isinstance(cval(t), (str, bytes)))

    def binop(self, st, op, a, b):
        n = type(op).__name__
        if n == "Add" and (self.seqish(st, a) or self.seqish(st, b)):
            ia, ib = None, None
            if self.is_str(a) or self.is_str(b):
                return mkstr([a if self.is_str(a) else T("fmt", a, ""), b if self.is_str(b) else T("fmt", b, "")])
            ia, ib = self.concrete_items(st, a), self.concrete_items(st, b)
            if ia is not None and ib is not None:
                if a.op == "tuple" and b.op == "tuple":
                    return T("tuple", *(ia + ib))
                return self.alloc(st, "list", tuple(ia + ib))
            return T("concat", self.freeze(st, a), self.freeze(st, b))
        if n == "Mod" and self.is_str(a):
            return self.strmod(st, a, b)
        if n == "Mult":
            for x, y in ((a, b), (b, a)):
                items = self.concrete_items(st, x) if self.seqish(st, x) else None
                if items is not None and is_num(y) and not self.is_str(x):
                    r = items * int(cval(y))
                    if x.op == "tuple":
                        return T("tuple", *r)
                    return self.alloc(st, "list", tuple(r))
                if self.seqish(st, x) and not self.is_str(x):
                    return T("seqmul", self.freeze(st, x), self.freeze(st, y))
                if isc(x) and isinstance(cval(x), str) and is_num(y):
                    return C(cval(x) * int(cval(y)))
        a, b = self.freeze(st, a), self.freeze(st, b)
        if n == "Add":
            return add(a, b)
        if n == "Sub":
            return sub(a, b)
        if n == "Mult":
            return mul(a, b)
        if n == "Div":
            return div(a, b)
        if n == "FloorDiv":
            return floordiv(a, b)
        if n == "Mod":
            return mod(a, b)
        if n == "Pow":
            return power(a, b)
        m = {"BitXor": "bitxor", "BitAnd": "bitand", "BitOr": "bitor", "LShift": "shl", "RShift": "shr", "MatMult": "matmul"}[n]
        if m == "bitand" and (is_bool(a) or a.op == "ite" and is_bool(a)) and is_bool(b):
            return T("logical_and", *sorted((a, b)))
        if m == "bitor" and is_bool(a) and is_bool(b):
            return T("logical_or", *sorted((a, b)))
        return bitop(m, a, b)

    def is_str(self, t):
        return t.op == "str" or (isc(t) and isinstance(cval(t), str))

    def strmod(self, st, a, b):
        if not isc(a):
            return T("strmod", a, self.freeze(st, b))
        import re
        s = cval(a)
        vals = list(b.args) if b.op == "tuple" else [b]
        o = self.obj(st, b)
        parts, i, pos = [], 0, 0
        for m in re.finditer(r"%(\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])", s):
            parts.append(C(s[pos:m.start()]))
            pos = m.end()
            conv = m.group(6)
            if conv == "%":
                parts.append(C("%"))
                continue
            if m.group(2):
                v = self.index(st, b, C(m.group(2)), None)
            else:
                if i >= len(vals):
                    return T("strmod", a, self.freeze(st, b))
                v = vals[i]
                i += 1
            flags, width, prec = m.group(3) or "", m.group(4) or "", m.group(5)
            if conv in "di":
                spec = ""
                if prec is not None:
                    if width and int(width) > int(prec):
                        spec = "%s.%sd" % (width, prec)
                    else:
                        spec = "0%dd" % int(prec)
                elif width:
                    spec = ("0" if "0" in flags else "") + width + "d"
            elif conv == "s":
                spec = width
            else:
                spec = flags + width + ("." + prec if prec else "") + conv
            parts.append(T("fmt", self.freeze(st, v), normspec(spec)))
        parts.append(C(s[pos:]))
        return mkstr(parts)

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(st, type(op).__name__, left, right))
            left = right
        return out[0] if len(out) == 1 else and_(*out)

    def compare(self, st, n, a, b):
        if n in ("Is", "IsNot"):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                r = isnone(x)
            elif a is b:
                r = TRUE
            elif concrete(a) and concrete(b):
                r = TRUE if pyval(a) is pyval(b) else FALSE
            else:
                r = is_same(self.freeze(st, a), self.freeze(st, b))
            return not_(r) if n == "IsNot" else r
        if n in ("In", "NotIn"):
            items = self.concrete_items(st, b)
            fa = self.freeze(st, a)
            o = self.obj(st, b)
            if items is not None and not (isc(b) and isinstance(cval(b), str)):
                rs = [self.compare(st, "Eq", fa, self.freeze(st, x)) for x in items]
                r = or_(*rs) if rs else FALSE
            elif isc(b) and isinstance(cval(b), str) and isc(fa) and isinstance(cval(fa), str):
                r = TRUE if cval(fa) in cval(b) else FALSE
            elif o is not None and o.kind == "inst" and self.find_method(o.cls, "__contains__"):
                r = truth(self.call_func(self.find_method(o.cls, "__contains__"), [b, a], {}, st, None))
            else:
                r = T("in", fa, self.freeze(st, b))
            return not_(r) if n == "NotIn" else r
        a, b = self.freeze(st, a), self.freeze(st, b)
        if n in ("Eq", "NotEq"):
            if a.op == "dt" or b.op == "dt" or a.op == "dtype" or b.op == "dtype":
                a, b = self.dtype_term(a), self.dtype_term(b)
                if a.op == "dt" and b.op == "dt":
                    r = TRUE if a is b else FALSE
                    return not_(r) if n == "NotEq" else r
            if a.op in ("func", "class", "ext", "mod") and b.op in ("func", "class", "ext", "mod") and a is not b:
                r = FALSE
            elif a.op == "poly" or b.op == "poly" or (a.op in ("dim", "size") or b.op in ("dim", "size")):
                d = sub(a, b)
                if is_num(d):
                    r = TRUE if cval(d) == 0 else FALSE
                else:
                    # canonical sign: smallest digest monomial positive
                    items = sorted(poly_items(d), key=lambda mc: (len(mc[0]) == 0, [x.dg for x in mc[0]]))
                    if items[0][1] < 0:
                        d = tm.neg(d)
                    r = eq(d, C(0))
            else:
                r = eq(a, b)
            return not_(r) if n == "NotEq" else r
        if isc(a) and isc(b):
            try:
                x, y = cval(a), cval(b)
                v = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[n]()
                return C(bool(v))
            except Exception:
                pass
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == "ite" and not is_bool(x) and isc(y) and const_leaf(x):
                f = lambda v: self.compare(st, n, v, y) if not sw else self.compare(st, n, y, v)
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if n == "Lt":
            return lt(a, b)
        if n == "Gt":
            return lt(b, a)
        if n == "LtE":
            return not_(lt(b, a))
        return not_(lt(a, b))

    def ev_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(st, b, e.attr, e)

    def getattr(self, st, b, name, node):
        if b.op == "mod":
            full = b.args[0] + "." + name
            if full in self.prog.modules or any(m.startswith(full + ".") for m in self.prog.modules):
                return T("mod", full)
            if b.args[0] in self.prog.modules:
                v = self.module_env(b.args[0]).get(name)
                if v is not None:
                    return v
                self.emit("badattr", {"obj": b, "name": C(name)}, st, node)
            return T("attr", b, name)
        if b.op == "ext":
            full = b.args[0] + "." + name
            if full.startswith("numpy.") and full[6:] in DTYPES:
                return T("dt", DTALIAS.get(full[6:], full[6:]))
            return T("ext", full)
        if b.op == "class":
            ci = self.find_class(b.args[0])
            m = self.find_method(ci, name)
            if m is not None:
                return T("func", m.key)
            a = self.find_classattr(ci, name)
            if a is not None:
                return self.eval_classattr(ci, a, name)
            return T("attr", b, name)
        if b.op == "super":
            ci = self.find_class(b.args[0])
            for base in self.bases(ci):
                m = self.find_method(base, name)
                if m is not None:
                    return T("bound", m.key, b.args[1])
            return T("attr", b, name)
        o = self.obj(st, b)
        if o is not None:
            if o.kind == "inst":
                if name in o.data:
                    v = o.data[name]
                    if v.op == "ite":
                        v = restrict_val(v, self.lits(st))
                    return v
                if name == "__class__":
                    return T("class", o.cls.key)
                m = self.find_method(o.cls, name)
                if m is not None:
                    if m.is_property:
                        return self.call_func(m, [b], {}, st, node)
                    return T("bound", m.key, b)
                a = self.find_classattr(o.cls, name)
                if a is not None:
                    return self.eval_classattr(o.cls, a, name)
                if name == "__dict__":
                    return T("attr", o.origin, name)
                return T("attr", o.origin, name)
            if o.kind == "arr":
                if name == "shape":
                    s = self.shape(st, o.data)
                    if s is not None:
                        return s
                    return T("shape", self.shape_base(self.freeze(st, b)))
                if name == "dtype":
                    return self.dtype_of(st, b)
                if name == "size":
                    s = self.shape(st, o.data)
                    if s is not None and s.op == "tuple":
                        r = C(1)
                        for a in s.args:
                            r = mul(r, a)
                        return r
            return T("battr", b, name)
        if b.op == "ite":
            x, y = b.args[1], b.args[2]
            if self.commish(b):
                if name in ("rank", "size"):
                    return T("rank" if name == "rank" else "commsize", self.freeze(st, b))
                return T("attr", b, name)
            vx, vy = self.getattr(st, x, name, node), self.getattr(st, y, name, node)
            return ite(b.args[0], vx, vy)
        key = T("attr", b, name)
        if key in st.mem:
            return st.mem[key]
        if name in ("rank", "size") and self.commish(b):
            return T(name, self.freeze(st, b)) if name == "rank" else T("commsize", self.freeze(st, b))
        if name == "dtype":
            return self.dtype_of(st, b)
        if name == "shape":
            s = self.shape(st, b)
            if s is not None:
                return s
            return T("shape", self.shape_base(self.freeze(st, b)))
        if name == "ndim":
            return self.ndim(st, b)
        if name in ("real", "T", "flat"):
            return T("attr", self.freeze(st, b), name)
        f = self.freeze(st, b) if b.op not in ("sym", "attr") else b
        if f is not b:
            key2 = T("attr", f, name)
            if key2 in st.mem:
                return st.mem[key2]
        if f.op in ("new",) or f.op == "sym" and f in self.symobjs:
            inst = self.symobjs.get(f)
        return T("attr", f, name)

    symobjs = {}
    stmt_call = None

    def commish(self, b):
        if b.op in ("split", "comm"):
            return True
        if b.op == "sym" and "comm" in b.args[0]:
            return True
        if b.op == "ext" and b.args[0].startswith("mpi4py.MPI.COMM"):
            return True
        if b.op == "ite":
            return self.commish(b.args[1]) or self.commish(b.args[2])
        return False

    def ev_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        return self.index(st, b, k, e)

    def index(self, st, b, k, node):
        o = self.obj(st, b)
        if o is not None:
            if o.kind == "inst":
                m = self.find_method(o.cls, "__getitem__")
                if m is not None:
                    return self.call_func(m, [b, k], {}, st, node)
                return self.mkidx(st, o.origin, self.freeze(st, k))
            if o.kind == "list" and not isinstance(o.data, Term):
                fk = self.freeze(st, k)
                if isc(fk) and isinstance(cval(fk), int) and -len(o.data) <= cval(fk) < len(o.data):
                    return o.data[cval(fk)]
                if fk.op == "slice" and all(isc(a) for a in fk.args):
                    try:
                        return self.alloc(st, "list", tuple(o.data[slice(*[cval(a) for a in fk.args])]))
                    except Exception:
                        pass
            if o.kind == "dict" and not isinstance(o.data, Term):
                fk = self.freeze(st, k)
                for a, v in o.data:
                    if a is fk:
                        return v
                if o.data and not concrete(fk) and all(concrete(a) for a, _ in o.data):
                    # selection from a constant table
                    return self.mkidx(st, self.freeze(st, b), fk)
            if o.kind == "arr":
                fk = self.norm_index(self.freeze(st, k))
                if self.is_full(fk):
                    return b
                if self.has_slice(fk):
                    return T("view", b, fk)
                return self.mkidx(st, self.freeze(st, b), fk)
            return self.mkidx(st, self.freeze(st, b), self.freeze(st, k))
        fk = self.norm_index(self.freeze(st, k))
        if b.op in ("tuple", "list") and isc(fk) and isinstance(cval(fk), int) and -len(b.args) <= cval(fk) < len(b.args):
            return b.args[cval(fk)]
        if b.op == "ite" and (self.obj(st, b.args[1]) is not None or self.obj(st, b.args[2]) is not None):
            return ite(b.args[0], self.index(st, b.args[1], k, node), self.index(st, b.args[2], k, node))
        if self.is_loc(b) or b.op == "call":
            if self.is_full(fk) and b in self.arrays:
                return b
            if self.has_slice(fk) and (b in self.arrays or b.op in ("view", "flat", "asdt")):
                return T("view", b, fk)
        if self.epochs:
            x = b
            while x.op == "attr":
                x = x.args[0]
            if x.op == "call" and isinstance(x.args[0], str) and x.args[0].endswith(".BinaryGroup.__getitem__"):
                return self.epoch(self.mkidx(st, self.freeze(st, b), fk))
        return self.mkidx(st, self.freeze(st, b), fk)

    ORDER = (".enable_byteswap", ".set_endian", ".toggle_byteswap")

    def epoch(self, t):
        return T("fread", len([e for e in self.events if e.op == "prim" and cval(e.data["name"]).endswith(self.ORDER)]), t)

    def has_slice(self, k):
        if k.op == "slice" or k is ELL:
            return True
        if k.op == "tuple":
            return all(a.op == "slice" or a is ELL or (isc(a) and isinstance(cval(a), int)) for a in k.args) and \
                any(a.op == "slice" for a in k.args)
        return False

    def mkidx(self, st, b, k):
        key = (b, k)
        r = self._idxmemo.get(key)
        if r is None:
            r = self._idxmemo[key] = self._mkidx(st, b, k)
        return r

    def _mkidx(self, st, b, k):
        k = self.norm_index(k)
        if b.op in ("tuple", "list"):
            if isc(k) and isinstance(cval(k), int) and -len(b.args) <= cval(k) < len(b.args):
                return b.args[cval(k)]
            if k.op == "slice" and all(isc(a) for a in k.args):
                try:
                    return T(b.op, *b.args[slice(*[cval(a) for a in k.args])])
                except Exception:
                    pass
        if b.op == "dict":
            for a in b.args:
                if a.args[0] is k:
                    return a.args[1]
        if b.op == "shape":
            if isc(k) and isinstance(cval(k), int):
                return T("dim", b.args[0], k)
        if b.op == "store":
            if b.args[1] is k:
                return b.args[2]
            if self.definitely_differ(b.args[1], k):
                return self.mkidx(st, b.args[0], k)
        if b.op == "filled" and self.is_full(k):
            return b
        if b.op == "ite" and (b.args[1].op in ("tuple", "list", "dict", "ite", "shape") or b.args[2].op in ("tuple", "list", "dict", "shape")):
            return ite(b.args[0], self.mkidx(st, b.args[1], k), self.mkidx(st, b.args[2], k))
        if b.op == "c" and isinstance(cval(b), str) and isc(k) and isinstance(cval(k), int):
            try:
                return C(cval(b)[cval(k)])
            except Exception:
                pass
        if b.op == "c" and isinstance(cval(b), str) and k.op == "slice" and all(isc(a) for a in k.args):
            return C(cval(b)[slice(*[cval(a) for a in k.args])])
        if self.is_full(k):
            # reading everything
            if b.op in ("idx", "call", "attr", "sym", "elem") and k is ELL:
                return T("full", b)
            if b.op not in ("idx", "attr", "call", "sym", "elem"):
                return b
            return T("full", b) if k is ELL or k.op == "slice" else b
        if k.op == "c" and isinstance(cval(k), int) and b.op == "commgather":
            pass
        return T("idx", b, k)

    # comprehensions
    def comp(self, e, st, kind, emit):
        save = dict(st.env)
        r = self.alloc(st, kind, ())

        def level(i, x):
            if i == len(e.generators):
                emit(x, r)
                return
            g = e.generators[i]
            it = self.ev(g.iter, x)

            def body(y):
                def inner(z):
                    level(i + 1, z)
                f = inner
                conds = list(g.ifs)

                def run(z, cs):
                    if not cs:
                        return level(i + 1, z)
                    c = restrict(truth(self.ev(cs[0], z)), self.lits(z))
                    if c is TRUE:
                        return run(z, cs[1:])
                    if c is FALSE:
                        return
                    self.branch(z, c, lambda q: run(q, cs[1:]), lambda q: None)
                run(y, conds)
            self.for_loop(x, e, it, lambda y, v: self.assign(g.target, v, y, e), body)
        level(0, st)
        for k in list(st.env):
            if k in save:
                st.env[k] = save[k]
            else:
                del st.env[k]
        return r

    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list", lambda x, r: self.list_method(x, r, self.obj(x, r), "append", [self.ev(e.elt, x)], e))

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st):
        return self.comp(e, st, "set", lambda x, r: self.list_method(x, r, self.obj(x, r), "append", [self.ev(e.elt, x)], e))

    def ev_DictComp(self, e, st):
        return self.comp(e, st, "dict", lambda x, r: self.store(x, r, self.ev(e.key, x), self.ev(e.value, x), e))

    def ev_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        self.emit("yield", {"value": self.freeze(st, v)}, st, e)
        return T("sent")

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    # ------------------------------------------------------------------------------------------ classes
    def find_class(self, key):
        return self.prog.cls(key)

    def bases(self, ci):
        out = []
        if ci is None:
            return out
        env = self.module_env(ci.mod.name)
        for b in ci.node.bases:
            fr = self.frames
            self.frames = [Frame(_ModInfo(ci.mod), 0, 0)]
            try:
                s = State()
                t = self.ev(b, s)
            finally:
                self.frames = fr
            if t.op == "class":
                c = self.find_class(t.args[0])
                if c is not None:
                    out.append(c)
        return out

    def mro(self, ci):
        out = []
        if ci is None:
            return out
        out.append(ci)
        for b in self.bases(ci):
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_classattr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c.attrs[name]
        return None

    def eval_classattr(self, ci, node, name=""):
        fr = self.frames
        self.frames = [Frame(_ModInfo(ci.mod), 0, 0)]
        try:
            s = State()
            r = self.freeze(s, self.ev(node, s))
            if r.op in ("dict", "list", "set") and not r.args or r.op == "call":
                # a container shared by all objects of the class
                return T("attr", T("class", ci.key), name)
            return r
        finally:
            self.frames = fr

    # ------------------------------------------------------------------------------------------ calls
    def func_of(self, key):
        lf = getattr(self, "localfuncs", {})
        if key in lf:
            return lf[key]
        return self.prog.func(key)

    def ev_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            info = self.frames[-1].info
            args = [self.ev(a, st) for a in e.args]
            selfv = args[1] if len(args) == 2 else next(iter(st.env.values()), UNDEF)
            if not args:
                params = info.node.args.args
                selfv = st.env.get(params[0].arg, UNDEF) if params else UNDEF
            key = args[0].args[0] if args and args[0].op == "class" else (info.cls.key if info.cls else "")
            return T("super", key, selfv)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "add") and isinstance(e.func.value, ast.Subscript) \
                and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
            r = self.grow_item(e, st)
            if r is not None:
                return r
        f = self.ev(e.func, st)
        pos, kws = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.concrete_items(st, v)
                if items is None:
                    pos.append(T("star", self.freeze(st, v)))
                else:
                    pos.extend(items)
            else:
                pos.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                o = self.obj(st, v)
                d = None
                if o is not None and o.kind == "dict" and not isinstance(o.data, Term):
                    d = o.data
                elif v.op == "dict":
                    d = [(a.args[0], a.args[1]) for a in v.args]
                if d is not None and all(isc(a) and isinstance(cval(a), str) for a, _ in d):
                    for a, b in d:
                        kws[cval(a)] = b
                else:
                    kws["**"] = self.freeze(st, v)
            else:
                kws[k.arg] = v
        return self.call(st, f, pos, kws, e)

    def quiet(self, e, st):
        """Value of an expression that is evaluated elsewhere as well (no events)."""
        n = len(self.events)
        v = self.ev(e, st)
        del self.events[n:]
        return v

    def container_item(self, e, st):
        """(container, key, present item) when e is an item, without an identity of its own, of a local list or dict."""
        b = self.quiet(e.value, st)
        o = self.obj(st, b)
        if o is None:
            if not (isinstance(e.value, ast.Subscript) and self.container_item(e.value, st)):
                return None
        elif o.kind not in ("list", "dict"):
            return None
        k = self.quiet(e.slice, st)
        n = len(self.events)
        cur = self.index(st, b, k, e)
        del self.events[n:]
        if self.obj(st, cur) is not None:
            return None
        return b, k, cur

    def grow_item(self, e, st):
        """container[key].append(value): the item has no identity, so the container gets the grown item."""
        r = self.container_item(e.func.value, st)
        if r is None:
            return None
        b, k, cur = r
        if not (cur.op in ("idx", "list", "append", "concat", "ite", "phi", "out", "set", "dget")):
            return None
        v = self.freeze(st, self.ev(e.args[0], st))
        new = T("append" if e.func.attr in ("append", "add") else "concat", self.freeze(st, cur), v)
        self.store(st, b, k, new, e, e.func.value.value)
        return NONE

    def call(self, st, f, pos, kws, node):
        self.stats["calls"] += 1
        if f.op == "ite":
            if any(x.op in ("func", "class", "bound", "ext", "dt", "attr", "battr", "ite") for x in f.args[1:]):
                out = []
                self.branch(st, f.args[0], lambda x: out.append(self.call(x, f.args[1], pos, kws, node)),
                            lambda x: out.append(self.call(x, f.args[2], pos, kws, node)))
                return ite(f.args[0], out[0], out[1])
        if f.op == "func":
            fi = self.func_of(f.args[0])
            if fi is not None:
                if fi.is_classmethod and fi.cls is not None:
                    return self.call_func(fi, [T("class", fi.cls.key)] + pos, kws, st, node)
                return self.call_func(fi, pos, kws, st, node)
        if f.op == "bound":
            fi = self.func_of(f.args[0])
            if fi is not None:
                if fi.is_static:
                    return self.call_func(fi, pos, kws, st, node)
                if fi.is_classmethod:
                    o = self.obj(st, f.args[1])
                    return self.call_func(fi, [T("class", o.cls.key if o else fi.cls.key)] + pos, kws, st, node)
                return self.call_func(fi, [f.args[1]] + pos, kws, st, node)
        if f.op == "class":
            ci = self.find_class(f.args[0])
            if ci is not None:
                return self.instantiate(ci, pos, kws, st, node)
        if f.op == "dt":
            x = self.freeze(st, pos[0]) if pos else C(0)
            if is_num(x) and float(cval(x)).is_integer():
                return x
            return T("cast", x, f)
        if f.op == "ext":
            return self.ext_call(st, f.args[0], pos, kws, node)
        if f.op == "attr":
            return self.method_call(st, f.args[0], f.args[1], pos, kws, node)
        if f.op == "battr":
            return self.method_call(st, f.args[0], f.args[1], pos, kws, node)
        if f.op == "dtype":
            return T("cast", self.freeze(st, pos[0]) if pos else C(0), f)
        o = self.obj(st, f)
        if o is not None and o.kind == "inst":
            m = self.find_method(o.cls, "__call__")
            if m is not None:
                return self.call_func(m, [f] + pos, kws, st, node)
        return self.opaque_call(st, T("dyn", self.freeze(st, f)), None, pos, kws, node)

    def kwterms(self, st, kws):
        return [T("kw", k, self.freeze(st, v)) for k, v in sorted(kws.items())]

    def opaque_call(self, st, name, recv, pos, kws, node):
        args = [self.freeze(st, a) for a in pos]
        nm = name if isinstance(name, str) else "dyn"
        t = T("call", nm, *(([name] if not isinstance(name, str) else []) + ([recv] if recv is not None else []) + args + self.kwterms(st, kws)))
        self.emit("call", {"name": C(nm), "recv": recv if recv is not None else NONE, "args": T("tuple", *args),
                           "kw": T("tuple", *self.kwterms(st, kws)), "result": t, "stmt": TRUE if node is self.stmt_call else FALSE},
                  st, node)
        return t

    def instantiate(self, ci, pos, kws, st, node):
        init = self.find_method(ci, "__init__")
        bound = None
        if init is not None:
            bound = self.bind(init, [T("sym", "self")] + pos, kws, st, node)
        if bound is not None:
            params = [T("kw", k, self.freeze(st, v)) for k, v in bound.items() if k != init.node.args.args[0].arg]
            origin = T("new", ci.key, *params)
        else:
            origin = T("new", ci.key, *([self.freeze(st, p) for p in pos] + self.kwterms(st, kws)))
        r = self.alloc(st, "inst", {}, ci, origin)
        self.emit("new", {"cls": C(ci.key), "origin": origin}, st, node)
        if init is not None and not self.opaque(ci.key + ".__init__") and not self.opaque(init.key):
            self.call_func(init, [r] + pos, kws, st, node)
        return r

    def bind(self, fi, pos, kws, st, node, strict=False):
        """Parameter name -> value (None when the call does not match the signature)."""
        a = fi.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        out = {}
        kws = dict(kws)
        extra_star = any(p.op == "star" for p in pos)
        if extra_star or "**" in kws:
            out["**unknown"] = T("tuple", *[self.freeze(st, p) for p in pos])
            kws.pop("**", None)
            pos = [p for p in pos if p.op != "star"]
        ok = True
        for i, n in enumerate(names):
            if i < len(pos):
                out[n] = pos[i]
                if n in kws:
                    ok = False
        rest = pos[len(names):]
        if a.vararg is not None:
            out[a.vararg.arg] = T("tuple", *rest)
        elif rest:
            ok = False
        for x in a.kwonlyargs:
            names.append(x.arg)
        for k in list(kws):
            if k in names:
                if k in out and not extra_star:
                    ok = False
                out[k] = kws.pop(k)
        if a.kwarg is not None:
            out[a.kwarg.arg] = T("dict", *[T("tuple", C(k), v) for k, v in sorted(kws.items())])
        elif kws:
            ok = False
        defaults = dict(zip(names[len(a.args) + len(getattr(a, "posonlyargs", [])) - len(a.defaults):], a.defaults)) if a.defaults else {}
        allpos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        defaults = dict(zip(allpos[len(allpos) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        missing = []
        for n in names:
            if n not in out:
                if n in defaults:
                    out[n] = self.default_value(fi, defaults[n])
                elif "**unknown" in out:
                    out[n] = T("argof", n, out["**unknown"])
                else:
                    missing.append(n)
                    out[n] = UNDEF
        out.pop("**unknown", None)
        if not ok or missing:
            self.emit("badcall", {"func": C(fi.key), "missing": C(tuple(missing)), "extra": C(tuple(sorted(kws)) if a.kwarg is None else ()),
                                  "npos": C(len(pos))}, st, node)
        order = {}
        for n in allpos + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else []):
            if n in out:
                order[n] = out[n]
        return order

    def default_value(self, fi, node):
        fr = self.frames
        self.frames = [Frame(_ModInfo(fi.mod), 0, 0)]
        try:
            s = State()
            r = self.freeze(s, self.ev(node, s))
            if r.op in ("dict", "list", "set") and not r.args or r.op == "call":
                # a container shared by all objects of the class
                return T("attr", T("class", ci.key), name)
            return r
        finally:
            self.frames = fr

    def call_func(self, fi, pos, kws, st, node):
        bound = self.bind(fi, pos, kws, st, node)
        if self.opaque(fi.key):
            return self.prim_call(st, fi, bound, node)
        if len(self.frames) > self.maxdepth or any(f.info.key == fi.key for f in self.frames[-6:]) and \
                sum(f.info.key == fi.key for f in self.frames) >= 2:
            return self.prim_call(st, fi, bound, node)
        bound2 = {}
        a = fi.node.args
        for k, v in bound.items():
            if a.vararg is not None and k == a.vararg.arg:
                bound2[k] = v
            elif a.kwarg is not None and k == a.kwarg.arg:
                bound2[k] = self.alloc(st, "dict", tuple((x.args[0], x.args[1]) for x in v.args)) if v.op == "dict" else v
            else:
                if v.op not in ("c", "ref", "sym") and k in stored_params(fi) and self.pure_leaf(st, v) and not isbool(v):
                    v = self.identify(st, v)
                bound2[k] = v
        return self.run_func(fi, bound2, st)

    def prim_call(self, st, fi, bound, node):
        model = self.primitives.get(fi.key)
        if model is not None:
            return model(self, st, fi, bound, node)
        args = [T("kw", k, self.freeze(st, v)) for k, v in bound.items()]
        t = T("call", fi.key, *args)
        self.emit("prim", {"name": C(fi.key), "bound": {k: self.freeze(st, v) for k, v in bound.items()},
                           "raw": dict(bound), "result": t}, st, node)
        if self.epochs and fi.key.endswith(".BinaryFile.read_and_skip"):
            return self.epoch(t)
        return t

    def run_func(self, fi, bound, st):
        self.stats["functions"].add(fi.key)
        self.last_alive = TRUE
        fr = Frame(fi, len(st.guards), len(st.loops))
        saved = st.env
        st.env = dict(bound)
        self.frames.append(fr)
        nb = len(st.guards)
        caller_guards = st.guards
        try:
            self.block(fi.node.body, st)
            if st.live:
                fr.rets.append((st.guards[nb:], NONE, st.copy(), fi.node))
        finally:
            self.frames.pop()
        if not fr.rets:
            st.env = saved
            st.live, st.dead = False, "raise"
            self.last_frame = fr
            self.last_alive = FALSE
            return UNDEF
        self.last_alive = TRUE
        # combine the return states
        g, val, s, nd = fr.rets[-1]
        val, cur = val, s.copy()
        cur.live = True
        raiseg = [x for x in g if x.kind.startswith("after-raise")]
        anyraise = bool(fr.raises) or any(x.kind == "after-raise" for gg, _, _, _ in fr.rets for x in gg)
        for g2, v2, s2, _ in reversed(fr.rets[:-1]):
            c = and_(*[x.cond for x in g2])
            if c is TRUE:
                val, cur = v2, s2.copy()
                continue
            s2 = s2.copy()
            if v2 is not val:
                val = self.join_ret(c, v2, val, s2, cur)
            cur2 = self.join_states(c, s2, cur)
            cur = cur2
        cur.live, cur.dead = True, None
        cur.guards = caller_guards
        # conditions under which the callee did not raise hold afterwards
        if anyraise:
            alive = or_(*[and_(*[x.cond for x in gg if x.kind != "loop"]) for gg, _, _, _ in fr.rets])
            if alive is not TRUE:
                cur.guard(alive, "after-raise")
                val = constrain(val, alive)
                self.last_alive = alive
        cur.loops = st.loops[:fr.nloops] if len(st.loops) >= fr.nloops else st.loops
        cur.env = saved
        st.become(cur)
        self.last_frame = fr
        return val

    def join_ret(self, c, a, b, sa, sb):
        return ite(c, a, b)

    # ---- external functions
    def np_args(self, st, name, pos, kws):
        sig = NPSIG.get(name)
        if sig is None:
            return None
        names, dfl = sig[0].split(), sig[1]
        if len(pos) > len(names):
            return None
        out = dict(zip(names, pos))
        for k, v in kws.items():
            if k == "object" and name in ("array",):
                k = "a"
            if k == "obj" and name in ("array",):
                k = "a"
            if k == "shape" and name == "reshape":
                k = "newshape"
            out[k] = v
        for k in list(out):
            if k in dfl and out[k] is C(dfl[k]) and k != names[0]:
                del out[k]
            elif out[k] is NONE and k in ("axis", "out", "sorter", "dtype", "weights", "buffer", "strides", "order"):
                if not (name in () and k == "dtype"):
                    del out[k]
        return out

    def ext_call(self, st, name, pos, kws, node):
        if name.startswith("builtins."):
            r = self.builtin(st, name[9:], pos, kws, node)
            if r is not None:
                return r
        if name.startswith("numpy."):
            r = self.numpy_call(st, name[6:], pos, kws, node)
            if r is not None:
                return r
        if name.startswith("mpi4py.MPI.COMM_WORLD.") or name.startswith("mpi4py.MPI.COMM_SELF."):
            return self.method_call(st, T("ext", name.rsplit(".", 1)[0]), name.rsplit(".", 1)[1], pos, kws, node)
        if name in ("collections.OrderedDict",):
            return self.builtin(st, "dict", pos, kws, node)
        if name == "mpi4py.MPI.Request.Waitall":
            self.emit("mpi", {"name": C("Waitall"), "comm": NONE, "args": {"requests": self.freeze(st, pos[0]) if pos else UNDEF}}, st, node)
            return NONE
        if name == "mpi4py.util.dtlib.from_numpy_dtype":
            t = T("mpitype", self.freeze(st, pos[0]))
            self.emit("mpitype", {"result": t}, st, node)
            return t
        if name in ("gc.collect", "time.time", "sys.stdout.flush"):
            if name == "time.time":
                return T("call", name)
            return NONE
        return self.opaque_call(st, name, None, pos, kws, node)

    def dtype_arg(self, st, t):
        return self.dtype_term(self.freeze(st, t))

    def numpy_call(self, st, n, pos, kws, node):
        a = self.np_args(st, n, pos, kws)
        if a is None:
            if n in ("uint", "int", "float", "bool", "str", "object"):
                return None
            if n in ("abs", "sqrt", "floor", "ceil", "log2", "log10", "isfinite", "diff", "equal"):
                return T("call", "numpy." + n, *[self.freeze(st, x) for x in pos] + self.kwterms(st, kws))
            return None
        fz = lambda k: self.freeze(st, a[k])
        names = set(a)
        if n in ("zeros", "ones", "empty") and names <= {"shape", "dtype"} or \
                n == "ndarray" and names <= {"shape", "dtype"}:
            op = "empty" if n == "ndarray" else n
            shape = fz("shape")
            if shape.op == "tuple" and len(shape.args) == 1:
                shape = shape.args[0]
            dt = self.dtype_arg(st, a["dtype"]) if "dtype" in a else T("dt", "float64")
            return self.alloc(st, "arr", T(op, shape, dt))
        if n == "full" and names <= {"shape", "fill_value", "dtype"}:
            fv = fz("fill_value")
            dt = self.dtype_arg(st, a["dtype"]) if "dtype" in a else T("dtype", fv)
            if fv is C(0):
                return self.alloc(st, "arr", T("zeros", fz("shape"), dt))
            return self.alloc(st, "arr", T("filled", T("empty", fz("shape"), dt), fv))
        if n in ("empty_like", "zeros_like", "ones_like", "full_like"):
            proto = a["prototype"]
            shape = fz("shape") if "shape" in a else None
            if shape is None:
                s = self.shape(st, proto)
                shape = s if s is not None else T("shape", self.shape_base(self.freeze(st, proto)))
            if shape.op in ("tuple", "list") and len(shape.args) == 1:
                shape = shape.args[0]
            dt = self.dtype_arg(st, a["dtype"]) if "dtype" in a else self.dtype_of(st, proto)
            order = cval(self.freeze(st, a["order"])) if "order" in a and isc(self.freeze(st, a["order"])) else "K"
            if n == "full_like":
                return self.alloc(st, "arr", T("filled", T("empty", shape, dt), fz("fill_value")))
            r = self.alloc(st, "arr", T(n[:-5], shape, dt))
            self.emit("alloc_like", {"proto": self.freeze(st, proto), "shape": shape, "order": C(order), "ref": r}, st, node)
            return r
        if n in ("asarray", "asanyarray", "ascontiguousarray"):
            x = a["a"]
            if "order" in names or n == "ascontiguousarray":
                return T("call", "numpy.ascontiguousarray", self.freeze(st, x))
            o = self.obj(st, x)
            if "dtype" in a and a["dtype"] is not NONE:
                dt = self.dtype_arg(st, a["dtype"])
                if self.dtype_of(st, x) is dt:
                    return x
                if o is not None and o.kind == "list":
                    return self.alloc(st, "arr", T("asarray", self.freeze(st, x), dt))
                if o is not None and o.kind == "arr" or self.is_loc(x):
                    return T("asdt", x, dt)
                return T("cast", self.freeze(st, x), dt)
            if o is not None and o.kind == "list":
                return self.alloc(st, "arr", T("asarray", self.freeze(st, x)))
            return x
        if n == "array":
            x = fz("a")
            dt = [self.dtype_arg(st, a["dtype"])] if "dtype" in a else []
            extra = [T("kw", k, self.freeze(st, a[k])) for k in sorted(names - {"a", "dtype", "copy"})]
            if "copy" in a and a["copy"] is FALSE:
                if dt:
                    return T("asdt", a["a"], dt[0])
                return a["a"]
            if x.op in ("tuple", "list"):
                return self.alloc(st, "arr", T("asarray", T("list", *x.args), *(dt + extra)))
            if extra:
                return self.alloc(st, "arr", T("call", "numpy.array", x, *(dt + extra)))
            return self.alloc(st, "arr", T("cast", x, dt[0]) if dt else x)
        if n == "copy":
            return self.alloc(st, "arr", fz("a"))
        if n == "astype":
            dt = self.dtype_arg(st, a["dtype"])
            if "copy" in a and a["copy"] is FALSE:
                return T("asdt", a["a"], dt)
            return T("cast", fz("a"), dt)
        if n in ("reshape", "ravel"):
            x = a["a"]
            ns = fz("newshape") if n == "reshape" else C(-1)
            if ns.op in ("tuple", "list") and len(ns.args) == 1:
                ns = ns.args[0]
            if ns is C(-1):
                o = self.obj(st, x)
                if o is not None and o.kind == "arr" or self.is_loc(x):
                    return T("flat", x)
                return T("flatc", self.freeze(st, x))
            return T("reshape", self.freeze(st, x), ns)
        if n == "flatten":
            return self.alloc(st, "arr", T("flatc", fz("a")))
        if n == "cumsum" and names == {"a"}:
            return self.cumsum(fz("a"))
        if n == "sum" and names == {"a"}:
            return self.sum_(fz("a"))
        if n == "prod" and names == {"a"}:
            x = fz("a")
            if x.op in ("tuple", "list"):
                r = C(1)
                for y in x.args:
                    r = mul(r, y)
                return r
            return T("prod", x)
        if n in ("minimum", "maximum") and len(names) == 2:
            return minmax(n[:3], [fz("x1"), fz("x2")])
        if n in ("min", "amin") and names == {"a"}:
            return T("amin", fz("a"))
        if n in ("max", "amax") and names == {"a"}:
            return T("amax", fz("a"))
        if n in ("any", "all") and names == {"a"}:
            return T(n, fz("a"))
        if n == "argsort":
            kind = self.freeze(st, a["kind"]) if "kind" in a else C("quicksort")
            if kind is C("stable"):
                kind = C("mergesort")
            if names - {"a", "kind"}:
                return T("call", "numpy.argsort", *[T("kw", k, self.freeze(st, v)) for k, v in sorted(a.items())])
            return T("argsort", fz("a"), kind)
        if n == "dtype":
            x = self.dtype_arg(st, a["dtype"])
            if names == {"dtype"}:
                return x if x.op in ("dt", "dtype") else T("npdtype", x)
            return T("npdtype", x, *[T("kw", k, self.freeze(st, v)) for k, v in sorted(a.items()) if k != "dtype"])
        if n == "arange":
            if len(pos) == 1:
                a = dict(a)
                a["stop"] = a.pop("start")
                a["start"] = C(0)
            a.setdefault("start", C(0))
            extra = [T("kw", k, self.dtype_arg(st, v) if k == "dtype" else self.freeze(st, v)) for k, v in sorted(a.items())
                     if k not in ("start", "stop") and not (k == "step" and v is C(1))]
            return T("arange", self.freeze(st, a["start"]), self.freeze(st, a["stop"]), *extra)
        if n == "logical_not":
            return T("invert", fz("x")) if not is_bool(fz("x")) else not_(fz("x"))
        if n in ("logical_and", "logical_or"):
            return T(n, *sorted((fz("x1"), fz("x2"))))
        if n == "where" and names == {"condition"} or n == "nonzero":
            return T("nonzero", self.freeze(st, a.get("condition", a.get("a"))))
        if n == "concatenate" and names == {"arrays"}:
            return T("npconcat", fz("arrays"))
        if n == "take" and names == {"a", "indices"}:
            return self.mkidx(st, fz("a"), fz("indices"))
        if n == "sort":
            return T("call", "numpy.sort", *[T("kw", k, self.freeze(st, v)) for k, v in sorted(a.items())])
        out = []
        for k in NPSIG[n][0].split():
            if k in a:
                v = self.dtype_arg(st, a[k]) if k == "dtype" else self.freeze(st, a[k])
                out.append(T("kw", k, v))
        for k in sorted(set(a) - set(NPSIG[n][0].split())):
            out.append(T("kw", k, self.freeze(st, a[k])))
        return T("call", "numpy." + n, *out)

    def scalar(self, t):
        """Is t certainly a scalar?"""
        return is_num(t) or t.op in ("dim", "size", "prod", "sum", "rank", "commsize", "ndim", "amax", "amin") or \
            t.op == "idx" and t.args[1].op in ("rank",) or t.op == "ite" and all(self.scalar(x) for x in t.args[1:])

    def cumsum(self, x):
        if x.op == "poly":
            d = x.args[0].d
            if len(d) == 1:
                (m, c), = d.items()
                sc = [a for a in m if self.scalar(a)]
                rest = [a for a in m if not self.scalar(a)]
                if len(rest) == 1:
                    r = mul(C(c), T("cumsum", rest[0]))
                    for a in sc:
                        r = mul(r, a)
                    return r
        return T("cumsum", x)

    def sum_(self, x):
        if x.op in ("tuple", "list"):
            r = C(0)
            for y in x.args:
                r = add(r, y)
            return r
        if x.op == "poly":
            d = x.args[0].d
            if len(d) == 1:
                (m, c), = d.items()
                sc = [a for a in m if self.scalar(a)]
                rest = [a for a in m if not self.scalar(a)]
                if len(rest) == 1:
                    r = mul(C(c), T("sum", rest[0]))
                    for a in sc:
                        r = mul(r, a)
                    return r
        return T("sum", x)

    def builtin(self, st, n, pos, kws, node):
        fz = lambda i: self.freeze(st, pos[i])
        np_ = len(pos)
        if n == "len" and np_ == 1:
            o = self.obj(st, pos[0])
            if o is not None and o.kind == "inst" and self.find_method(o.cls, "__len__"):
                return self.call_func(self.find_method(o.cls, "__len__"), [pos[0]], {}, st, node)
            return self.length(st, pos[0])
        if n in ("range", "xrange"):
            a = [self.freeze(st, p) for p in pos]
            if len(a) == 1:
                a = [C(0)] + a
            if len(a) == 2:
                a = a + [C(1)]
            return T("range", *a)
        if n == "enumerate":
            start = pos[1] if np_ > 1 else kws.get("start", C(0))
            return T("enumerate", pos[0], self.freeze(st, start))
        if n == "zip":
            return T("zip", *pos)
        if n == "reversed":
            return T("reversed", pos[0])
        if n == "sorted" and not kws:
            x = self.concrete_items(st, pos[0])
            if x is not None and all(concrete(i) for i in x):
                try:
                    return self.alloc(st, "list", tuple(C(v) for v in sorted(pyval(i) for i in x)))
                except Exception:
                    pass
            return T("sorted", self.freeze(st, pos[0]))
        if n in ("min", "max") and not kws:
            items = list(pos) if np_ > 1 else self.concrete_items(st, pos[0])
            if items is not None:
                return minmax(n, [self.freeze(st, x) for x in items])
            return T("a" + n, fz(0))
        if n == "sum" and np_ == 1 and not kws:
            return self.sum_(fz(0))
        if n == "abs" and np_ == 1:
            x = fz(0)
            if is_num(x):
                return C(abs(cval(x)))
            return T("abs", x)
        if n in ("any", "all") and np_ == 1:
            items = self.concrete_items(st, pos[0])
            if items is not None:
                return (or_ if n == "any" else and_)(*[self.truth_of(st, x) for x in items]) if items else (FALSE if n == "any" else TRUE)
            return T(n, fz(0))
        if n in ("int", "float", "str", "bool", "complex") and np_ == 1:
            x = fz(0)
            if isc(x):
                try:
                    return C({"int": int, "float": float, "str": str, "bool": bool, "complex": complex}[n](cval(x)))
                except Exception:
                    pass
            if n == "str":
                if self.is_str(x):
                    return x
                return mkstr([T("fmt", x, "")])
            if n == "bool":
                return truth(x)
            if n == "int" and x.op in ("dim", "size", "ndim", "rank", "commsize"):
                return x
            return T("py" + n, x)
        if n == "bool" and np_ == 0:
            return FALSE
        if n in ("list", "tuple", "set") and np_ <= 1:
            if np_ == 0:
                return T("tuple") if n == "tuple" else self.alloc(st, n, ())
            items = self.concrete_items(st, pos[0])
            if items is not None:
                if n == "tuple":
                    return T("tuple", *items)
                return self.alloc(st, n, tuple(items))
            x = fz(0)
            if x.op in ("shape",):
                return self.alloc(st, "list", x) if n == "list" else x
            if n == "tuple":
                return x if x.op in ("shape",) else T("tupleof", x)
            return self.alloc(st, n, x if n == "list" else T("setof", x))
        if n == "dict":
            if np_ == 0:
                return self.alloc(st, "dict", tuple((C(k), v) for k, v in kws.items()))
            o = self.obj(st, pos[0])
            if o is not None and o.kind == "dict":
                return self.alloc(st, "dict", o.data if isinstance(o.data, Term) else o.data + tuple((C(k), v) for k, v in kws.items()))
            items = self.concrete_items(st, pos[0])
            if items is not None and all(i.op == "tuple" and len(i.args) == 2 for i in items):
                return self.alloc(st, "dict", tuple((i.args[0], i.args[1]) for i in items))
            return self.alloc(st, "dict", T("dictof", fz(0), *self.kwterms(st, kws)))
        if n == "print":
            return NONE
        if n == "isinstance" and np_ == 2:
            o = self.obj(st, pos[0])
            f = fz(1)
            cl = list(f.args) if f.op == "tuple" else [f]
            if o is not None and o.kind == "inst" and all(c.op == "class" for c in cl):
                keys = [c.key for c in self.mro(o.cls)]
                return TRUE if any(c.args[0] in keys for c in cl) else FALSE
            if isc(pos[0]) and all(c.op == "ext" for c in cl):
                tn = type(cval(pos[0])).__name__
                if any(c.args[0] == "builtins." + tn for c in cl):
                    return TRUE
                if all(c.args[0].startswith("builtins.") for c in cl):
                    return FALSE
            return T("isinstance", fz(0), f)
        if n == "hasattr" and np_ == 2:
            o = self.obj(st, pos[0])
            k = fz(1)
            if o is not None and o.kind == "inst" and isc(k):
                if cval(k) in o.data or self.find_method(o.cls, cval(k)):
                    return TRUE
            return T("hasattr", fz(0), k)
        if n == "getattr" and np_ >= 2:
            k = fz(1)
            if isc(k) and np_ == 2:
                return self.getattr(st, pos[0], cval(k), node)
            return T("getattr", *[self.freeze(st, p) for p in pos])
        if n == "setattr" and np_ == 3 and isc(fz(1)):
            self.setattr(st, pos[0], cval(fz(1)), pos[2], node)
            return NONE
        if n == "type" and np_ == 1:
            o = self.obj(st, pos[0])
            if o is not None and o.kind == "inst":
                return T("class", o.cls.key)
            return T("typeof", fz(0))
        if n == "slice":
            a = [self.freeze(st, p) for p in pos]
            if len(a) == 1:
                a = [NONE] + a
            while len(a) < 3:
                a.append(NONE)
            return self.norm_index(T("slice", *a))
        if n == "round" and np_ >= 1:
            x = fz(0)
            if np_ == 1 and is_num(x):
                return C(round(cval(x)))
            return T("round", *[self.freeze(st, p) for p in pos])
        if n == "map" and np_ == 2:
            items = self.concrete_items(st, pos[1])
            if items is not None:
                return self.alloc(st, "list", tuple(self.call(st, pos[0], [i], {}, node) for i in items))
        if n in ("iter",):
            return pos[0]
        if n == "open":
            return self.opaque_call(st, "open", None, pos, kws, node)
        if n in ("id", "repr", "ord", "chr", "hash", "divmod", "pow", "next", "callable", "format", "filter", "map", "object", "vars", "bytes", "bytearray", "memoryview", "input"):
            return T("call", n, *[self.freeze(st, p) for p in pos] + self.kwterms(st, kws))
        if n == "super":
            return UNDEF
        if n.endswith("Error") or n.endswith("Exception") or n in ("StopIteration", "KeyboardInterrupt"):
            return T("exc1", T("ext", "builtins." + n))
        return None

    # ---- methods
    def list_method(self, st, ref, o, name, pos, node):
        items = None if isinstance(o.data, Term) else list(o.data)
        rid = ref.args[0]
        put = lambda d: st.heap.__setitem__(rid, HObj(o.kind, d))
        if name in ("append", "add"):
            if items is not None and not self.in_symbolic(st, ref):
                put(tuple(items + [pos[0]]))
            else:
                put(T("append", self.freeze(st, ref), self.freeze(st, pos[0])))
            return NONE
        if name == "extend":
            more = self.concrete_items(st, pos[0])
            if items is not None and more is not None:
                put(tuple(items + more))
            else:
                put(T("concat", self.freeze(st, ref), self.freeze(st, pos[0])))
            return NONE
        if name == "insert":
            if items is not None and isc(pos[0]):
                items.insert(cval(pos[0]), pos[1])
                put(tuple(items))
            else:
                put(T("insert", self.freeze(st, ref), *[self.freeze(st, p) for p in pos]))
            return NONE
        if name == "pop":
            if items is not None and (not pos or isc(pos[0])):
                i = cval(pos[0]) if pos else -1
                if -len(items) <= i < len(items):
                    v = items.pop(i)
                    put(tuple(items))
                    return v
            f = self.freeze(st, ref)
            i = self.freeze(st, pos[0]) if pos else C(-1)
            put(T("delitem", f, i))
            return self.mkidx(st, f, i)
        if name in ("copy",):
            return self.alloc(st, o.kind, o.data)
        if name == "index" or name == "count":
            if items is not None and pos and all(concrete(i) for i in items) and concrete(pos[0]):
                vals = [pyval(i) for i in items]
                v = pyval(pos[0])
                if name == "count":
                    return C(vals.count(v))
                if v in vals:
                    return C(vals.index(v))
            return T("call", "list." + name, self.freeze(st, ref), *[self.freeze(st, p) for p in pos])
        if name in ("sort", "reverse", "clear", "remove", "discard"):
            if name == "clear":
                put(())
            elif name == "reverse" and items is not None:
                put(tuple(items[::-1]))
            else:
                put(T("lst_" + name, self.freeze(st, ref), *[self.freeze(st, p) for p in pos]))
            return NONE
        return None

    def in_symbolic(self, st, ref):
        return False

    def dict_method(self, st, ref, o, name, pos, kws, node):
        items = None if isinstance(o.data, Term) else list(o.data)
        rid = ref.args[0]
        if name in ("items", "iteritems"):
            return T("ditems", ref if items is not None else self.freeze(st, ref))
        if name in ("values", "itervalues"):
            return T("dvalues", ref if items is not None else self.freeze(st, ref))
        if name in ("keys", "iterkeys"):
            return self.alloc(st, "list", tuple(k for k, _ in items)) if items is not None else self.freeze(st, ref)
        if name == "get":
            k = self.freeze(st, pos[0])
            d = pos[1] if len(pos) > 1 else NONE
            if items is not None:
                for a, v in items:
                    if a is k:
                        return v
                if concrete(k) and all(concrete(a) for a, _ in items):
                    return d
            return T("dget", self.freeze(st, ref), k, self.freeze(st, d))
        if name == "update":
            src = pos[0] if pos else None
            so = self.obj(st, src) if src is not None else None
            if items is not None and (src is None or so is not None and so.kind == "dict" and not isinstance(so.data, Term)):
                for k, v in (so.data if so is not None else ()):
                    self.store(st, ref, k, v, node)
                for k, v in kws.items():
                    self.store(st, ref, C(k), v, node)
                return NONE
            st.heap[rid] = HObj("dict", T("dupdate", self.freeze(st, ref), *([self.freeze(st, p) for p in pos] + self.kwterms(st, kws))))
            return NONE
        if name == "pop":
            k = self.freeze(st, pos[0])
            if items is not None:
                for i, (a, v) in enumerate(items):
                    if a is k:
                        del items[i]
                        st.heap[rid] = HObj("dict", tuple(items))
                        return v
            f = self.freeze(st, ref)
            st.heap[rid] = HObj("dict", T("delitem", f, k))
            return T("dget", f, k, *[self.freeze(st, p) for p in pos[1:]])
        if name == "setdefault":
            k = self.freeze(st, pos[0])
            if items is not None:
                for a, v in items:
                    if a is k:
                        return v
                if concrete(k) and all(concrete(a) for a, _ in items):
                    self.store(st, ref, k, pos[1], node)
                    return pos[1]
            return T("dget", self.freeze(st, ref), k, self.freeze(st, pos[1]))
        if name == "copy":
            return self.alloc(st, "dict", o.data)
        if name == "clear":
            st.heap[rid] = HObj("dict", ())
            return NONE
        return None

    def comm_args(self, st, name, pos, kws):
        names, dfl = COMMSIG.get(name, ("", {}))
        names = names.split()
        out = dict(zip(names, pos))
        for i, p in enumerate(pos[len(names):]):
            out["arg%d" % i] = p
        for k, v in kws.items():
            out[k] = v
        for k, d in dfl.items():
            if k in out and out[k] is C(d):
                del out[k]
        if name in ("allreduce", "scan", "exscan", "reduce", "Allreduce"):
            out.setdefault("op", T("ext", "mpi4py.MPI.SUM"))
        return out

    def bufspec(self, st, t):
        """(location, extra spec terms) of an MPI buffer argument."""
        o = self.obj(st, t)
        if o is not None and o.kind == "list" and not isinstance(o.data, Term):
            return (o.data[0], [self.freeze(st, x) for x in o.data[1:]]) if o.data else (UNDEF, [])
        if t.op == "tuple" and t.args:
            return t.args[0], [self.freeze(st, x) for x in t.args[1:]]
        return t, []

    def comm_call(self, st, comm, name, pos, kws, node):
        a = self.comm_args(st, name, pos, kws)
        fcomm = self.freeze(st, comm)
        fa = {k: self.freeze(st, v) for k, v in a.items()}
        if name in ("Get_rank",):
            return T("rank", fcomm)
        if name in ("Get_size",):
            return T("commsize", fcomm)
        raw = {}
        for k in ("sendbuf", "recvbuf", "buf"):
            if k in a:
                loc, ex = self.bufspec(st, a[k])
                raw[k] = loc
                fa[k] = T("tuple", self.freeze(st, loc), *ex) if ex else self.freeze(st, loc)
        res = None
        kwl = [T("kw", k, fa[k]) for k in sorted(fa)]
        if name == "Split":
            res = T("split", fcomm, *kwl)
        elif name in COLL_LOW:
            if name not in ("barrier", "Barrier"):
                res = T("mpi_" + name, fcomm, *kwl)
            else:
                res = NONE
        elif name == "sendrecv":
            res = T("mpi_sendrecv", fcomm, *kwl)
        elif name in ("recv", "isend", "irecv", "Irecv", "Isend"):
            res = T("mpi_" + name, fcomm, *kwl)
        e = self.emit("mpi", {"name": C(name), "comm": fcomm, "args": fa, "raw": raw, "result": res if res is not None else NONE}, st, node)
        if name in COLL_UP or name in ("Sendrecv", "Recv", "Irecv"):
            dest = "recvbuf" if "recvbuf" in raw else ("buf" if name in ("Bcast", "Recv", "Irecv") else None)
            if dest and dest in raw:
                others = [T("kw", k, fa[k]) for k in sorted(fa) if k != dest]
                old = self.freeze(st, raw[dest])
                while old.op in ("store", "filled"):
                    old = old.args[0]
                ex = fa[dest].args[1:] if fa[dest].op == "tuple" else ()
                val = T("mpi_" + name, fcomm, *(others + list(T("kw", "spec", x) for x in ex)))
                self.recv_into(st, raw[dest], val, node)
        if name in ("Free", "Abort"):
            return NONE
        return res if res is not None else NONE

    def recv_into(self, st, loc, val, node):
        self.emit("recvinto", {"loc": loc, "value": val}, st, node)
        o = self.obj(st, loc)
        if o is not None:
            if o.kind == "arr":
                old = self.freeze(st, loc)
                while old.op in ("store", "filled"):
                    old = old.args[0]
                st.heap[loc.args[0]] = HObj("arr", T("filled", old, val))
            return
        if loc.op in ("view", "flat", "asdt"):
            self.store_view(st, loc, ELL, val, node)
            return
        if loc.op == "ite":
            c, x, y = loc.args
            s1, s2 = st.copy(), st.copy()
            m = len(self.events)
            self.recv_into(s1, x, val, node)
            self.recv_into(s2, y, val, node)
            r = self.join_states(c, s1, s2)
            r.guards = st.guards
            st.become(r)
            return
        if self.is_loc(loc):
            st.mem[loc] = T("filled", loc, val)
            return
        r = self.alloc(st, "arr", T("filled", self.freeze(st, loc), val))
        for nme, v in list(st.env.items()):
            if v is loc:
                st.env[nme] = r

    def method_call(self, st, b, name, pos, kws, node):
        o = self.obj(st, b)
        if o is not None:
            if o.kind in ("list", "set"):
                r = self.list_method(st, b, o, name, pos, node)
                if r is not None:
                    return r
            if o.kind == "dict":
                r = self.dict_method(st, b, o, name, pos, kws, node)
                if r is not None:
                    return r
            if o.kind == "inst":
                return self.opaque_call(st, "." + name, o.origin, pos, kws, node)
        if name in COLL_LOW or name in COLL_UP or name in P2P or name in COMM_OTHER:
            if o is None and not (name in ("scan", "reduce", "gather", "send", "recv") and not self.commish(b)) or self.commish(b):
                if name in ("Free",) and b.op == "mpitype":
                    self.emit("typefree", {"obj": b}, st, node)
                    return NONE
                return self.comm_call(st, b, name, pos, kws, node)
        if name == "Commit":
            self.emit("commit", {"obj": self.freeze(st, b)}, st, node)
            return NONE
        if b.op == "ite" and name not in NPMETHODS and not self.commish(b) and (self.obj(st, b.args[1]) is not None or self.obj(st, b.args[2]) is not None):
            out = []
            self.branch(st, b.args[0],
                        lambda x: out.append(self.call(x, self.getattr(x, b.args[1], name, node), pos, kws, node)),
                        lambda x: out.append(self.call(x, self.getattr(x, b.args[2], name, node), pos, kws, node)))
            return ite(b.args[0], out[0], out[1])
        if isc(b) and isinstance(cval(b), (str, bytes)):
            r = self.str_method(st, b, name, pos, kws)
            if r is not None:
                return r
        if self.is_str(b) and name == "format" or b.op == "str" and name == "format":
            return T("call", "str.format", b, *[self.freeze(st, p) for p in pos] + self.kwterms(st, kws))
        if name == "copy" and len(pos) > 1:
            return self.opaque_call(st, "." + name, self.freeze(st, b), pos, kws, node)
        if name in NPMETHODS and not (name in ("min", "max", "copy", "view", "index") and False):
            if name == "reshape" and len(pos) > 1:
                pos = [T("tuple", *pos)]
            if name == "astype" or name in NPSIG:
                r = self.numpy_call(st, NPMETHODS[name], [b] + pos, kws, node)
                if r is not None:
                    return r
            return T("call", "." + name, self.freeze(st, b), *[self.freeze(st, p) for p in pos] + self.kwterms(st, kws))
        if name == "fill" and len(pos) == 1:
            self.store(st, b, ELL, pos[0], node)
            return NONE
        if name == "sort" and o is not None and o.kind == "arr" or name == "sort" and b in self.arrays:
            self.store(st, b, ELL, T("call", "numpy.sort", T("kw", "a", self.freeze(st, b)), *self.kwterms(st, kws)), node)
            return NONE
        if name == "append" and len(pos) == 1 and (b.op in ("phi", "out", "ite", "append")):
            st.mem[b] = T("append", self.freeze(st, b), self.freeze(st, pos[0]))
            return NONE
        if name in ("keys",) and not pos:
            return T("keys", self.freeze(st, b))
        if name in ("items", "iteritems") and not pos:
            return T("ditems", self.freeze(st, b))
        if name in ("values",) and not pos:
            return T("dvalues", self.freeze(st, b))
        if name == "get" and 1 <= len(pos) <= 2:
            return T("dget", self.freeze(st, b), *[self.freeze(st, p) for p in pos])
        return self.opaque_call(st, "." + name, self.freeze(st, b), pos, kws, node)

    def str_method(self, st, b, name, pos, kws):
        fp = [self.freeze(st, p) for p in pos]
        if name == "format":
            return self.strformat(st, cval(b), fp, {k: self.freeze(st, v) for k, v in kws.items()})
        if all(isc(p) for p in fp) and not kws:
            try:
                v = getattr(cval(b), name)(*[cval(p) for p in fp])
            except Exception:
                return None
            if isinstance(v, (str, int, bool, bytes)) or v is None:
                return C(v)
            if isinstance(v, (list, tuple)):
                return self.alloc(st, "list", tuple(C(x) for x in v)) if isinstance(v, list) else C(v)
        if name == "join" and len(pos) == 1:
            items = self.concrete_items(st, pos[0])
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(b)
                    parts.append(x if self.is_str(x) else T("fmt", self.freeze(st, x), ""))
                return mkstr(parts)
        return T("call", "str." + name, b, *fp)

    def strformat(self, st, s, pos, kws):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == "":
                    v = pos[auto]
                    auto += 1
                elif field.isdigit():
                    v = pos[int(field)]
                elif field in kws:
                    v = kws[field]
                else:
                    return T("call", "str.format", C(s), *pos + [T("kw", k, v) for k, v in sorted(kws.items())])
                parts.append(T("fmt", v, normspec(spec or "")))
        except Exception:
            return T("call", "str.format", C(s), *pos)
        return mkstr(parts)

    # ------------------------------------------------------------------------------------------ drivers
    def analyse(self, key, args=None, arrays=(), selfcls=None, selfattrs=None):
        """Analyse one function for the given argument terms (default: one symbol per parameter)."""
        fi = self.prog.func(key)
        if fi is None:
            raise AnchorError("function %s not found" % key)
        self.events, self.frames = [], []
        st = State()
        a = fi.node.args
        bound = {}
        args = dict(args or {})
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        for i, n in enumerate(names):
            if fi.cls is not None and i == 0 and not fi.is_static:
                ci = self.find_class(selfcls) if selfcls else fi.cls
                bound[n] = self.alloc(st, "inst", dict(selfattrs or {}), ci, T("sym", "self"))
            elif n in args:
                bound[n] = args.pop(n)
            else:
                bound[n] = T("sym", n)
        if a.vararg:
            bound[a.vararg.arg] = args.pop(a.vararg.arg, T("sym", "*" + a.vararg.arg))
        if a.kwarg:
            bound[a.kwarg.arg] = args.pop(a.kwarg.arg, T("sym", "**" + a.kwarg.arg))
        self.arrays = frozenset(T("sym", n) for n in arrays)
        self.params = dict(bound)
        return self.finish(fi, bound, st)

    def analyse_class(self, key, args=None, arrays=()):
        ci = self.prog.cls(key)
        if ci is None:
            raise AnchorError("class %s not found" % key)
        self.events, self.frames = [], []
        init = self.find_method(ci, "__init__")
        if init is None:
            raise AnchorError("class %s has no constructor" % key)
        st = State()
        selfref = self.alloc(st, "inst", {}, ci, T("sym", "self"))
        a = init.node.args
        allpos = [x.arg for x in a.args]
        bound = {allpos[0]: selfref}
        args = dict(args or {})
        defaults = dict(zip(allpos[len(allpos) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for n in allpos[1:]:
            bound[n] = args[n] if n in args else T("sym", n)
        if a.kwarg:
            bound[a.kwarg.arg] = T("sym", "**" + a.kwarg.arg)
        if a.vararg:
            bound[a.vararg.arg] = T("sym", "*" + a.vararg.arg)
        self.arrays = frozenset(T("sym", n) for n in arrays)
        self.params = dict(bound)
        self.selfref = selfref
        return self.finish(init, bound, st)

    def analyse_result(self, key, args=None):
        """Analyse the function another one returns (a decorator's wrapper), called with symbolic arguments."""
        s = self.analyse(key, args)
        st, v = s.state, s.rawret
        while v.op == "call" and any(x.op == "func" for x in walk_args(v)):
            v = [x for x in walk_args(v) if x.op == "func"][-1]
        st.live, st.dead = True, None
        o = self.obj(st, v)
        if o is not None and o.kind == "inst":
            fi = self.find_method(o.extra if not isinstance(o.extra, Term) else self.find_class(o.extra.args[0]), "__call__")
        else:
            fi = self.func_of(v.args[0]) if v.op == "func" else None
        if fi is None:
            raise AnchorError("function returned by %s not found" % key)
        self.events, self.frames = [], []
        bound = {}
        a = fi.node.args
        names = [x.arg for x in a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            bound[n] = v if i == 0 and o is not None else T("sym", n)
        if a.vararg:
            bound[a.vararg.arg] = T("sym", "*args")
        if a.kwarg:
            bound[a.kwarg.arg] = T("sym", "**kwargs")
        self.params = dict(bound)
        return self.finish(fi, bound, st)

    def finish(self, fi, bound, st):
        val = self.run_func(fi, bound, st)
        fr = self.last_frame
        alive = self.last_alive
        care = (lambda t: ite(alive, t, UNDEF)) if alive.op != "c" else (lambda t: t)
        s = Summary()
        s.fi = fi
        s.state = st
        s.alive = alive
        s.ret = care(self.freeze(st, val)) if val is not UNDEF else UNDEF
        s.rawret = val
        s.born = self.born
        s.rets = fr.rets
        s.raises = [e for e in self.events if e.op == "raise"]
        s.events = self.events
        s.params = {}
        for k, v in bound.items():
            if v.op == "sym":
                s.params[k] = st.mem.get(v, v)
        s.mem = {k: care(v) for k, v in st.mem.items() if outside(k)}
        s.attrs = {}
        for k, v in bound.items():
            o = self.obj(st, v)
            if o is not None and o.kind == "inst":
                s.attrs = {n: care(self.freeze(st, x)) for n, x in o.data.items()}
        return s


def walk_args(t):
    for x in t.args:
        if isinstance(x, Term):
            yield x
            if x.op in ("tuple", "call"):
                for y in walk_args(x):
                    yield y


def stored_params(fi):
    """Parameters whose items the function assigns."""
    r = getattr(fi, "_stored", None)
    if r is None:
        a = fi.node.args
        names = {x.arg for x in a.args + a.kwonlyargs}
        r = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                x = n.value
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Name) and x.id in names:
                    r.add(x.id)
        fi._stored = r
    return r


def unbound(v):
    """Is the variable unset in some case?"""
    return any(x is UNDEF or x.op == "ite" and unbound(x) for x in v.args[1:])


def isbool(t):
    return t is TRUE or t is FALSE


def const_leaf(x, budget=8):
    """A small decision over mostly constant values (worth distributing a comparison over)."""
    stack, n, consts = [x], 0, 0
    while stack:
        y = stack.pop()
        if y.op == "ite":
            n += 1
            if n > budget:
                return False
            stack.extend(y.args[1:])
        elif y.op == "c":
            consts += 1
    return consts > 0


LOCOPS = {"ref", "view", "flat", "asdt"}


def hasloc(t, mem, seen=None):
    """Does a conditional value have locations at its leaves?"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in LOCOPS or mem and x in mem:
            return True
        if x.op in Interp.STRUCT:
            stack.extend(y for y in (x.args[1:] if x.op == "ite" else x.args) if isinstance(y, Term))
    return False


def restrict_val(v, lits):
    if not lits:
        return v
    while v.op == "ite" and v.args[0] in lits:
        v = v.args[1] if lits[v.args[0]] else v.args[2]
    if v.op == "ite":
        a, b = restrict_val(v.args[1], lits), restrict_val(v.args[2], lits)
        return ite(v.args[0], a, b)
    return v


def normspec(spec):
    import re
    if spec == "d" or spec == "s":
        return ""
    m = re.match(r"^0?\.(\d+)d$", spec)
    if m:
        return "0%sd" % m.group(1)
    m = re.match(r"^0(\d+)$", spec)
    if m:
        return "0%sd" % m.group(1)
    return spec


class AnchorError(Exception):
    pass


class _ModInfo(object):
    def __init__(self, mod):
        self.mod, self.key, self.name, self.cls, self.closure = mod, mod.name + ".<module>", "<module>", None, None
