"""Summaries of functions as comparable facets, and their comparison with a stored specification."""
import json, os
from .terms import *
from .canon import canon, free, same
from . import compare, identity
from .compare import Comparer, EQ, DIFF, UNK

# methods and functions with effects on files, databases, communicators or the process
EFFECTS = {"write", "close", "create_dataset", "create_group", "require_group", "create", "execute", "executemany", "commit",
           "Free", "Abort", "tofile", "resize", "seek", "truncate", "makedirs", "mkdir", "remove", "unlink", "rename",
           "set_dxpl_mpio", "set_fapl_mpio", "set_deflate", "set_chunk", "set_shuffle", "set_fill_value", "set_virtual",
           "add_dataset", "add_attribute", "add_group", "skip", "start_fortran_record", "end_fortran_record", "add_record",
           "read_record", "read_and_skip", "_add_block", "toggle_byteswap", "enable_byteswap", "sanity_check", "add_argument",
           "parse_args", "exit", "savetxt", "save", "modify", "attrs_create", "move", "copy_file", "insert", "bulk_insert",
           "write_direct", "read_direct", "copy", "link", "flush", "fsync", "parse", "add_subparsers", "connect", "cursor",
           "fetchall", "popitem", "popleft", "clear", "append", "extend", "__init__", "Finalize", "set_layout", "select_hyperslab", "select_none", "select_all",
           "set_fclose_degree", "set_alloc_time", "set_obj_track_times", "set_szip", "set_fletcher32", "set_attr_phase_change",
           "visititems", "terminate", "kill", "setrecursionlimit", "excepthook", "set_libver_bounds",
           "fetchall", "fetchone", "fetchmany", "system", "Popen", "readline", "readlines", "readinto", "delete", "byteswap",
           "Set_size", "Write_at", "Read_at", "Write_at_all", "Read_at_all", "Open", "Close", "errhandler", "print_exc",
           "print_exception", "print_help", "print_usage", "error", "set_vlen", "lock", "setdefault", "update"}
PURE_PREFIX = ("numpy.", "math.", "re.", "builtins.", "operator.", "collections.", "itertools.", "functools.", "string.", "copy.")
# calls made for their effect which say nothing about the result
NOISE = {"builtins.print", "sys.stdout.write", "sys.stderr.write", "sys.stdout.flush", "sys.stderr.flush", "time.sleep", ".flush",
         ".info", ".debug", ".warning", "gc.collect", "traceback.print_exc", ".barrier", "numpy.seterr", ".sort"}
IMPURE = {"builtins.open", "numpy.fromfile", "numpy.savetxt", "numpy.save", "sys.exit", "builtins.exec", "sys.excepthook",
          "h5py.File", "h5py.h5f.open", "h5py.h5f.create", "h5py.h5d.create", "h5py.h5d.open", "virgo", "numpy.memmap"}
# methods whose calls must keep their relative order on one receiver
ORDERED = {"add_dataset", "add_attribute", "add_group", "skip", "start_fortran_record", "end_fortran_record", "add_record",
           "read_record", "read_and_skip", "_add_block", "seek", "fromfile", "write", "execute", "executemany", "commit", "tofile",
           "add_argument", "readline", "enable_byteswap", "toggle_byteswap", "open", "close", "create", "insert"}


def external(t):
    """Is this an item of something outside the program's own arrays (a file object, its attributes, the environment)?"""
    attr = False
    while t.op in ("attr", "idx", "battr", "view"):
        attr |= t.op in ("attr", "battr")
        t = t.args[0]
    if t.op == "ite":
        return any(external(x) for x in t.args[1:])
    return t.op == "call" and not t.args[0].startswith("numpy.") or attr and t.op in ("ext", "phi", "cur", "out")


def short(name):
    return name.lstrip(".").split(".")[-1]


def effectful(name):
    if name in IMPURE:
        return True
    if name.startswith("hdf5."):
        # calls of the HDF5 library from the Fortran wrapper
        n = name[5:]
        return not n.startswith(("h5tget", "h5sget", "h5fget", "h5eset", "byte_order", "changed"))
    if name.startswith(PURE_PREFIX):
        return False
    return short(name) in EFFECTS


class Closer(object):
    """Replaces loop variables by 'value in some iteration of that loop'."""

    def __init__(self, loops):
        self.map = {}
        for rec in loops:
            L = rec.term
            if L is None:
                continue
            for k, p in enumerate(L.args[1].args):
                self.map[p] = T("cur", L, k)

    def close(self, t):
        for _ in range(6):
            f = [p for p in free(t) if p in self.map]
            if not f:
                return t
            m = {p: self.map[p] for p in f}
            t = subst(t, m)
        return t


def subst(t, m):
    """Replace free loop variables (bound ones of inner loops are different variables)."""
    keys = set(m)

    def f(x, cache):
        if x in m:
            return m[x]
        return None
    cache = {}
    # do not descend into terms without the variables
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in cache:
            continue
        if not (free(x) & keys):
            cache[x] = x
            continue
        if x in m:
            cache[x] = m[x]
            continue
        ch = children(x)
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c not in cache)
            continue
        if x.op == "phi":
            cache[x] = x
            continue
        if x.op in ("loop", "brk", "out", "cur"):
            cache[x] = T(x.op, *[cache.get(a, a) if isinstance(a, Term) else a for a in x.args])
        else:
            cache[x] = remake(x, cache)
    return cache[t]


class Item(object):
    """One effect: kind, name, condition, data."""

    def __init__(self, kind, name, cond, data, where=""):
        self.kind, self.name, self.cond, self.data, self.where = kind, name, cond, data, where

    def key(self):
        return canon(T("item", self.kind, self.name, self.cond, self.data))

    def term(self):
        return T("tuple", self.data, T("tuple", C("under"), self.cond))


def term_of(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, dict):
        return T("dict", *[T("tuple", C(str(k)), term_of(x)) for k, x in sorted(v.items())])
    if isinstance(v, (list, tuple)):
        return T("tuple", *[term_of(x) for x in v])
    return C(v)


def effects(summary, want=None, guards=("if", "loop")):
    """Effect items of a summary in program order."""
    out = []
    for e in summary.events:
        if want is not None and not want(e):
            continue
        d = e.data
        kind, name, data = e.op, "", None
        if e.op == "mpi":
            name = cval(d["name"])
            data = T("tuple", d["comm"], term_of(d["args"]))
        elif e.op == "prim":
            name = cval(d["name"])
            data = term_of(d["bound"])
        elif e.op == "xchg":
            data = T("tuple", d["comm"], term_of(d["bound"]))
        elif e.op == "call":
            name = cval(d["name"])
            if not effectful(name) and (d.get("stmt") is not TRUE or name in NOISE or name.startswith(("logging.", "warnings."))):
                continue
            data = T("tuple", d["recv"], d["args"], d["kw"])
        elif e.op == "new":
            name = cval(d["cls"])
            data = d["origin"]
        elif e.op in ("setitem",):
            data = T("tuple", d["obj"], d["key"], d["value"])
        elif e.op == "store":
            if d["local"] is TRUE or not external(d["obj"]):
                continue
            kind = "setitem"
            data = T("tuple", d["obj"], d["key"], d["value"])
        elif e.op in ("setattr",):
            name = cval(d["name"])
            data = T("tuple", d["obj"], d["value"])
        elif e.op in ("yield",):
            data = d["value"]
        elif e.op in ("delitem", "delattr"):
            data = term_of(d)
        else:
            continue
        c = Closer(e.loops)
        cond = c.close(e.cond(None))
        out.append(Item(kind, name, cond, c.close(data), e.where()))
    return out


def raises(summary):
    """exception -> condition under which it is raised."""
    out = {}
    for e in summary.events:
        if e.op != "raise":
            continue
        c = Closer(e.loops)
        x = e.data["exc"]
        nm = exc_name(x)
        out[nm] = or_(out.get(nm, FALSE), c.close(e.cond(None)))
    return out


def exc_name(x):
    t = x
    if t.op in ("exc1", "exc0", "exc") and t.args and isinstance(t.args[0], Term):
        t = t.args[0]
    if t.op == "ite":
        return "ite"
    if t.op == "call":
        return short(t.args[0])
    if t.op == "ext":
        return short(t.args[0])
    if t.op == "new":
        return short(t.args[0])
    if t.op == "class":
        return short(t.args[0])
    return t.op


def facets(summary, what=("ret", "mem", "attrs", "raises", "effects"), want=None):
    out = {}
    if "ret" in what:
        out["ret"] = {"": summary.ret}
    if "mem" in what:
        out["mem"] = {show(k, 12): T("tuple", k, v) for k, v in summary.mem.items()}
    if "attrs" in what:
        out["attrs"] = dict(summary.attrs)
    if "ret" in what:
        out["sig"] = signature(summary.fi)
    if "raises" in what:
        out["raises"] = raises(summary)
    if "effects" in what:
        out["effects"] = effects(summary, want)
    return out


def signature(fi):
    """Parameters in order with their literal defaults."""
    import ast
    a = fi.node.args
    pos = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
    dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    out = []
    for n in pos + [x.arg for x in a.kwonlyargs]:
        d = dflt.get(n)
        if d is None:
            v = ["required"]
        else:
            try:
                v = ["default", repr(ast.literal_eval(d))]
            except Exception:
                v = ["default"]
        out.append([n] + v)
    return out


def cmp_signature(spec, act):
    """Callers' view of the parameters: names, order, defaults.  Added optional parameters are allowed."""
    out = []
    sn, an = [x[0] for x in spec], [x[0] for x in act]
    if sn[:1] == ["self"]:
        spec, sn = spec[1:], sn[1:]
    if an[:1] == ["self"]:
        act, an = act[1:], an[1:]
    if an[:len(sn)] != sn:
        if len(sn) == len(an) and not set(sn) & set(an):
            out.append(Result("sig", "", UNK))
        elif sorted(sn) == sorted(an):
            out.append(Result("sig", "", DIFF, "parameters are in a different order: %s instead of %s" % (", ".join(an), ", ".join(sn))))
        else:
            out.append(Result("sig", "", UNK))
        return out
    da = {x[0]: x[1:] for x in act}
    for n, *v in spec:
        w = da[n]
        if v == w or len(w) == 1 and w[0] == "default" or v == ["default"]:
            continue
        if v == ["required"]:
            continue
        out.append(Result("sig", n, DIFF, "parameter %s: %s instead of %s" % (n, " ".join(w), " ".join(v))))
    return out or [Result("sig", "", EQ)]


# ------------------------------------------------------------------------------------------------ storage
def save(path, fac):
    terms = []
    for k in ("ret", "mem", "attrs", "raises"):
        terms.extend(fac.get(k, {}).values())
    for it in fac.get("effects", []):
        terms.extend((it.cond, it.data))
    nodes, ids = compare.dump(terms)
    doc = {"nodes": nodes}
    for k in ("ret", "mem", "attrs", "raises"):
        if k in fac:
            doc[k] = {n: ids[t] for n, t in sorted(fac[k].items())}
    if "sig" in fac:
        doc["sig"] = fac["sig"]
    if "effects" in fac:
        doc["effects"] = [[it.kind, it.name, ids[it.cond], ids[it.data]] for it in fac["effects"]]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write('{"nodes": [\n' + ",\n".join(json.dumps(n, separators=(",", ":")) for n in nodes) + "\n]")
        for k in sorted(doc):
            if k != "nodes":
                f.write(',\n"%s": %s' % (k, json.dumps(doc[k])))
        f.write("}\n")


def load(path):
    with open(path) as f:
        doc = json.load(f)
    ts = compare.load(doc["nodes"])
    fac = {}
    for k in ("ret", "mem", "attrs", "raises"):
        if k in doc:
            fac[k] = {n: ts[i] for n, i in doc[k].items()}
    if "sig" in doc:
        fac["sig"] = doc["sig"]
    if "effects" in doc:
        fac["effects"] = [Item(k, n, ts[c], ts[d]) for k, n, c, d in doc["effects"]]
    return fac


def vocab_of(fac):
    v = set()
    for k in ("ret", "mem", "attrs", "raises"):
        for t in fac.get(k, {}).values():
            v.update(x.args[0] if x.op == "call" else "op " + x.op for x in subterms(t))
    for it in fac.get("effects", []):
        for t in (it.cond, it.data):
            v.update(x.args[0] if x.op == "call" else "op " + x.op for x in subterms(t))
    return v


class Result(object):
    def __init__(self, facet, name, verdict, detail="", where=""):
        self.facet, self.name, self.verdict, self.detail, self.where = facet, name, verdict, detail, where


def explain(reasons, unk=False):
    out = []
    if unk:
        return "; ".join(sorted(set(reasons))[:3])
    for s, a in reasons[:2]:
        if s is not None:
            out.append("expected %s, found %s" % (show(s, 4)[:220], show(a, 4)[:220]))
    return "; ".join(out)


def run_cmp(vocab, s, a):
    c = Comparer(vocab)
    try:
        with time_slice(20):
            r = c.cmp(s, a)
        if r == DIFF and agree(identity.of_terms, s, a):
            return UNK, AGREED
    except Budget:
        return UNK, "time"
    return r, explain(c.reasons) if r == DIFF else explain(c.unks, True) if r == UNK else ""


AGREED = "no interpretation of the opaque parts separates the terms"


def agree(test, *args):
    """Is a structural difference withdrawn by the identity test?"""
    with time_slice(40):
        v, why = test(*args)
    return v == identity.AGREE


def compare_facets(spec, act):
    """List of Results, one per compared component."""
    vocab = vocab_of(spec)
    out = []
    for n, s in spec.get("ret", {}).items():
        r, why = run_cmp(vocab, s, act["ret"][n])
        out.append(Result("ret", n, r, why))
    if "sig" in spec and "sig" in act:
        out.extend(cmp_signature(spec["sig"], act["sig"]))
    if "mem" in spec:
        sm = {canon(t.args[0]): (n, t) for n, t in spec["mem"].items()}
        am = {canon(t.args[0]): (n, t) for n, t in act["mem"].items()}
        for k, (n, t) in sm.items():
            a = am[k][1].args[1] if k in am else t.args[0]
            r, why = run_cmp(vocab, t.args[1], a)
            out.append(Result("mem", n, r, why))
        for k, (n, t) in am.items():
            if k not in sm:
                r, why = run_cmp(vocab, t.args[0], t.args[1])
                out.append(Result("mem", n, r, why))
    for n, s in spec.get("attrs", {}).items():
        if n not in act["attrs"]:
            out.append(Result("attrs", n, DIFF, "attribute %s is no longer set" % n))
            continue
        r, why = run_cmp(vocab, s, act["attrs"][n])
        out.append(Result("attrs", n, r, why))
    if "raises" in spec:
        precedence = None
        for n in sorted(set(spec["raises"]) | set(act["raises"])):
            s, a = spec["raises"].get(n, FALSE), act["raises"].get(n, FALSE)
            if n == "AssertionError" and s is FALSE:
                continue
            r, why = run_cmp(vocab, s, a)
            if r == DIFF and precedence is None:
                precedence = only_precedence(spec["raises"], act["raises"])
            if r == DIFF and precedence:
                r, why = UNK, "fails in the same cases, but another of two failures comes first"
            if r == DIFF:
                why = "%s is raised under a different condition: %s" % (n, why)
            out.append(Result("raises", n, r, why))
    if "effects" in spec:
        out.extend(cmp_effects(vocab, spec["effects"], act["effects"], [list(x.get("raises", {}).values()) for x in (spec, act)]))
    return out


def only_precedence(spec, act):
    """The function fails in the same cases: which of several failures is met first is the only difference."""
    if set(spec) != set(act) or len(spec) < 2:
        return False
    try:
        return agree(identity.of_either, list(spec.values()), list(act.values()))
    except Budget:
        return False


def cmp_effects(vocab, spec, act, failing=None):
    out = []
    groups = {}
    for side, items in ((0, spec), (1, act)):
        for it in items:
            groups.setdefault((it.kind, it.name), ([], []))[side].append(it)
    for (kind, name), (ss, aa) in sorted(groups.items()):
        label = "%s %s" % (kind, name)
        if not ss and not aa:
            continue
        if kind in ("setattr", "enter", "exit", "new") and not ss:
            continue
        try:
            with time_slice(30):
                r, why, where = match_items(vocab, ss, aa)
            if r == DIFF and agree(identity.of_items, ss, aa, kind == "mpi" and name[:1].isupper(), failing if kind == "prim" else None):
                r, why, where = UNK, AGREED, ""
        except Budget:
            r, why, where = UNK, "time", ""
        out.append(Result("effects", label, r, why, where))
    # relative order of order-dependent effects
    so = [it for it in spec if short(it.name) in ORDERED or it.kind == "yield"]
    ao = [it for it in act if short(it.name) in ORDERED or it.kind == "yield"]
    recv = lambda it: canon(it.data.args[0]) if it.data.op == "tuple" and it.data.args else ""
    ks, ka = numbered(so), numbered(ao)
    if sorted(ks) == sorted(ka) and ks != ka:
        pos = {k: i for i, k in enumerate(ka)}
        bad = None
        for i in range(len(so)):
            for j in range(i + 1, len(so)):
                x, y = so[i], so[j]
                # only calls on one receiver that can both happen are ordered
                if pos[ks[i]] > pos[ks[j]] and recv(x) == recv(y) and and_(x.cond, y.cond) is not FALSE:
                    bad = bad or ao[pos[ks[j]]]
        if bad is not None:
            out.append(Result("effects", "order", DIFF, "calls appear in a different order from %s %s on" % (bad.kind, bad.name), bad.where))
    return out


def numbered(items):
    n, out = {}, []
    for it in items:
        k = it.key()
        n[k] = n.get(k, 0) + 1
        out.append((k, n[k]))
    return out


def assign(m, rows, used=()):
    """A pairing of rows with columns that avoids differences, if there is one."""
    if rows == len(m):
        return []
    for j in sorted(range(len(m)), key=lambda j: m[rows][j] != EQ):
        if j not in used and m[rows][j] != DIFF:
            r = assign(m, rows + 1, used + (j,))
            if r is not None:
                return [j] + r
    return None


# collective calls made for the value they return
VALUED = {"allgather", "allreduce", "bcast", "gather", "scan", "exscan", "reduce", "alltoall"}


def match_items(vocab, ss, aa):
    ka = {}
    for it in aa:
        ka.setdefault(it.key(), []).append(it)
    rest = []
    for it in ss:
        l = ka.get(it.key())
        if l:
            l.pop()
        else:
            rest.append(it)
    left = [it for l in ka.values() for it in l]
    left.sort(key=lambda it: aa.index(it))
    if not rest and not left:
        return EQ, "", ""
    if len(rest) == len(left):
        rs, whys, wh = [], [], ""
        for s, a in zip(rest, left):
            c = Comparer(vocab)
            r = c.cmp(T("tuple", s.data, s.cond), T("tuple", a.data, a.cond))
            if r != EQ:
                # values only matter where the effect happens
                c2 = Comparer(vocab)
                r2 = c2.cmp(ite(s.cond, s.data, T("undef")), ite(a.cond, a.data, T("undef")))
                if r2 == EQ or r == DIFF:
                    r, c = r2, c2
            rs.append(r)
            if r == DIFF:
                whys.append(explain(c.reasons))
                wh = wh or a.where
        if DIFF in rs and 1 < len(rest) <= 7:
            m = [[Comparer(vocab).cmp(T("tuple", s.data, s.cond), T("tuple", a.data, a.cond)) for a in left] for s in rest]
            if assign(m, 0) is not None:
                return UNK, "another pairing has no certain difference", ""
        if DIFF in rs:
            return DIFF, "; ".join(whys[:2]), wh
        return (UNK if UNK in rs else EQ), explain(c.unks, True), ""
    # merge items that only differ by their condition
    ms, ma = merged(rest), merged(left)
    if len(ms) == len(ma) and (len(ms) < len(rest) or len(ma) < len(left)):
        return match_items(vocab, ms, ma)
    c = Comparer(vocab)
    if not left and rest[0].kind == "mpi" and all(it.name in VALUED for it in rest):
        return UNK, "a collective call that only provides a value is no longer made", ""
    if any(c.foreign(it.data) or c.foreign(it.cond) for it in left):
        return UNK, "additional effect outside the specification: " + c.stranger, ""
    if len(rest) > len(left):
        return DIFF, "%d effect(s) missing, e.g. %s under %s" % (len(rest) - len(left), show(rest[0].data, 4)[:200], show(rest[0].cond, 4)[:160]), ""
    return DIFF, "%d additional effect(s), e.g. %s under %s" % (len(left) - len(rest), show(left[0].data, 4)[:200], show(left[0].cond, 4)[:160]), left[0].where


def merged(items):
    by, order = {}, []
    for it in items:
        k = canon(it.data)
        if k in by:
            by[k] = Item(it.kind, it.name, or_(by[k].cond, it.cond), it.data, it.where)
        else:
            by[k] = it
            order.append(k)
    return [by[k] for k in order]
