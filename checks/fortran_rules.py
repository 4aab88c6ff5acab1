"""Rules over the routines of the Fortran wrapper (K02, K03)."""
from .common import *
from vsa.terms import rebuild, subterms as walk, remake as remake_, children

ENTRY = [u for u in UNITS if u.startswith("fortran.") and u.split(".")[1] not in ("define_types", "hdf5_abort", "hdf5_auto_open")]
HANDLE, RDONLY, FAIL, RELEASE, CLOSED = "handle-checked", "read-only-checked", "failure-stops", "released-once", "not-used-after-close"
MUTATE = {"h5gcreate_f", "h5dcreate_f", "h5acreate_f", "h5dextend_f", "h5dset_extent_f", "h5gunlink_f", "h5ldelete_f", "h5adelete_f",
          "h5dwrite", "h5awrite", "write_hdf5_dataset", "write_hdf5_attribute"}
MUST = {"h5fopen_f", "h5fcreate_f", "h5fclose_f", "h5dopen_f", "h5gopen_f", "h5aopen_name_f", "h5aopen_f", "h5aopen_idx_f", "h5dcreate_f",
        "h5acreate_f", "h5dextend_f", "h5dset_extent_f", "h5sselect_hyperslab_f", "h5dread", "h5dwrite", "h5aread", "h5awrite",
        "h5gn_members_f", "h5gget_obj_info_idx_f", "read_hdf5_dataset", "write_hdf5_dataset", "read_hdf5_attribute", "write_hdf5_attribute"}
QUIET = ("h5eset", "h5tget", "h5sget", "h5fget", "changed", "byte_order", "low_bits")
# what opens an identifier: routine -> kind; what closes it
OPENS = {"h5dopen_f": "d", "h5dcreate_f": "d", "h5gopen_f": "g", "h5gcreate_f": "g", "h5aopen_name_f": "a", "h5aopen_f": "a", "h5aopen_idx_f": "a",
         "h5acreate_f": "a", "h5tcopy_f": "t", "h5dget_type_f": "t", "h5aget_type_f": "t", "h5dget_space_f": "s", "h5aget_space_f": "s",
         "h5screate_simple_f": "s", "h5screate_f": "s", "h5pcreate_f": "p", "h5fopen_f": "f", "h5fcreate_f": "f", "h5oopen_f": "o"}
CLOSES = {"h5dclose_f": "d", "h5gclose_f": "g", "h5aclose_f": "a", "h5tclose_f": "t", "h5sclose_f": "s", "h5pclose_f": "p", "h5fclose_f": "f",
          "h5oclose_f": "o"}


def hname(e):
    n = cval(e.data["name"]) if e.op == "call" else None
    return n[5:] if isinstance(n, str) and n.startswith("hdf5.") else None


def h5args(e):
    a = e.data["args"]
    a = list(a.args) if isinstance(a, Term) else list(a)
    k = e.data["kw"]
    for x in (k.args if isinstance(k, Term) else k or ()):
        a.append(x)
    return a


def item(x):
    """(base, index) of a constant subscript."""
    if x.op == "idx" and len(x.args) == 2 and all(isinstance(y, Term) for y in x.args) and isc(x.args[1]):
        return x.args[0], cval(x.args[1])
    return None, None


def cond(e):
    return and_(*[g.cond for g in e.guards if isinstance(g.cond, Term)])


def outs(n):
    from vsa.fortran import OUT
    if n in ("h5dread", "h5aread"):
        return 2
    if n in ("h5dwrite", "h5awrite"):
        return 1
    return len(OUT.get(n, [0]))


def with_status(t, r, n, v):
    """t with the status of call result r equal to v."""
    k = outs(n) - 1

    def f(x, cache):
        if k == 0:
            return C(v) if x is r else None
        b, i = item(x)
        return C(v) if b is r and i == k else None
    return lift(rebuild(t, f))


def picks(t, h, given):
    """Condition under which term t is exactly h."""
    if t is h:
        return TRUE
    if t.op == "ite":
        g = lift(t.args[0])
        return or_(and_(g, picks(t.args[1], h, given)), and_(not_(g), picks(t.args[2], h, given)))
    return FALSE


def lift(t, memo=None):
    """Choices directly inside comparisons become choices between comparisons."""
    memo = {} if memo is None else memo
    if not is_bool(t) or t.op == "c":
        return t
    if t not in memo:
        if t.op == "ite":
            r = ite(lift(t.args[0], memo), lift(t.args[1], memo), lift(t.args[2], memo))
        else:
            r = t
            if t.op in ("lt0", "eq"):
                ch = next((z for y in t.args for z in [y] + (children(y) if y.op == "poly" else []) if z.op == "ite" and not is_bool(z)), None)
                if ch is not None:
                    hi, lo = (remake_(t, {y: rebuild_top(y, ch, v) for y in t.args}) for v in ch.args[1:])
                    r = ite(lift(ch.args[0], memo), lift(hi, memo), lift(lo, memo))
        memo[t] = r
    return memo[t]


def rebuild_top(y, ch, v):
    return v if y is ch else remake_(y, {ch: v}) if y.op == "poly" else y


def where(e, u, n):
    return "%s:%s %s %s" % (e.path, e.line, u, n)


def checked(c):
    """K02: handles, read only files, failures."""
    c.rule(HANDLE, "wherever the file of a handle is used, the conditions of that point imply the handle is in range and open")
    c.rule(RDONLY, "wherever something in a file is created, changed or deleted, the conditions of that point imply the file is not read only")
    c.rule(FAIL, "after a failed attempt to open, create, extend, select, read or write the routine stops or tries an alternative, and never "
                 "uses the result")
    for u, s in summaries(c, ENTRY, HANDLE):
        evs = s.events
        for i, e in enumerate(evs):
            n = hname(e)
            if n is None or n.startswith(QUIET):
                continue
            c.count("call sites")
            at = where(e, u, n)
            uses = {}
            for a in h5args(e):
                for x in walk(a):
                    b, k = base(x, "file_id")
                    if b:
                        uses[x] = k
            for x, k in uses.items():
                handle(c, e, at, x, k)
                if n in MUTATE:
                    readonly(c, e, at, x, k)
            if n in MUST:
                failure(c, evs, i, e, n, at)


def base(x, attr):
    """Is x self.<attr>[k]?  And the index."""
    if x.op == "idx" and len(x.args) == 2 and isinstance(x.args[0], Term) and x.args[0].op == "attr":
        if any(y == attr or isinstance(y, Term) and isc(y) and cval(y) == attr for y in x.args[0].args[1:]):
            return True, x.args[1]
    return False, None


NMAX = 1000


def handle(c, e, at, x, k):
    g = cond(e)
    lim = next((y for y in walk(g) if y.op == "ext" and "nfilemax" in str(y.args[0])), None)
    bads = [("below range", lt(k, C(0)), (0, -5)), ("not open", lt(x, C(0)), ())]
    if lim is not None:
        bads.insert(1, ("above range", lt(sub(lim, C(1)), k), (NMAX + 1, NMAX + 7)))
    else:
        bads.insert(1, ("above range", None, (NMAX + 1, NMAX + 7)))
    for what, bad, wit in bads:
        if bad is not None and and_(g, bad) is FALSE:
            c.ok(HANDLE, at + " " + what)
            continue
        if wit:
            syms = [y for y in walk(k) if y.op in ("sym", "param")]
            res = []
            for v in wit:
                def f(y, cache):
                    if len(syms) == 1 and y is syms[0]:
                        return C(v)
                    if y.op == "ext" and "nfilemax" in str(y.args[0]):
                        return C(NMAX)
                    return None
                res.append(rebuild(g, f))
            if all(r is FALSE for r in res):
                c.ok(HANDLE, at + " " + what)
            elif len(syms) == 1 and not any(opaque(y) for r in res for y in walk(r)):
                c.violation(HANDLE, at, "used for a handle that is %s" % what)
            else:
                c.undecided(HANDLE, at + " " + what)
        elif any(y is x for y in walk(g)) or any(opaque(y) for y in walk(g)):
            r = rebuild(g, lambda y, cache: C(-1) if y is x else None)
            if r is FALSE:
                c.ok(HANDLE, at + " " + what)
            elif any(opaque(y) for y in walk(r)):
                c.undecided(HANDLE, at + " " + what)
            else:
                c.violation(HANDLE, at, "used for a file that is not open")
        else:
            c.violation(HANDLE, at, "used for a file that is not open")


def opaque(y):
    return y.op == "call" and isinstance(y.args[0], str) and not y.args[0].startswith(("hdf5.", ".", "numpy.", "fortran."))


def readonly(c, e, at, x, k):
    g = cond(e)
    flags = [y for y in walk(g) if base(y, "read_only")[0]]
    same_ = [y for y in flags if base(y, "read_only")[1] is k]
    r = rebuild(g, lambda y, cache: TRUE if y in same_ or y.op == "truthy" and y.args[0] in same_ else None)
    if r is FALSE:
        c.ok(RDONLY, at)
    elif any(opaque(y) for y in walk(g)):
        c.undecided(RDONLY, at)
    else:
        c.violation(RDONLY, at, "reached for a read only file")


def failure(c, evs, i, e, n, at):
    r = e.data["result"]
    bad = lambda t: with_status(t, r, n, -1)
    good = lambda t: with_status(t, r, n, 0)
    ge = bad(cond(e))
    if ge is FALSE:
        return
    stop, alt = [], False
    for x in evs[i + 1:]:
        if x.op == "raise" and not x.protect:
            stop.append(bad(cond(x)))
        elif x.op in ("call", "prim") and x is not e:
            m = hname(x)
            if x.op == "call" and (m is None or m.startswith(QUIET) or m in CLOSES) or and_(ge, bad(cond(x))) is FALSE:
                continue
            if m == n and x.data["result"] is r or len(x.loops) < len(e.loops):
                continue
            if and_(ge, bad(cond(x))) is not and_(good(cond(e)), good(cond(x))):
                alt = True
    rest = and_(ge, not_(or_(*stop))) if stop else ge
    if rest is FALSE:
        return c.ok(FAIL, at)
    if not alt:
        return c.violation(FAIL, at, "a failure of %s is not noticed when %s" % (n, show(rest, 12)))
    if outs(n) > 1:
        for x in evs[i + 1:]:
            m = hname(x)
            if m is None or m.startswith(QUIET):
                continue
            for a in h5args(x):
                for y in {z for z in walk(bad(a)) if item(z)[0] is r and item(z)[1] == 0}:
                    p = and_(ge, bad(cond(x)), not_(or_(*stop)) if stop else TRUE, picks(bad(a), y, TRUE))
                    if p is not FALSE:
                        return c.violation(FAIL, at, "the result is used by %s (line %s) although the call failed" % (m, x.line))
    c.ok(FAIL, at)


def released(c):
    """K03: what is opened is closed once, with the right routine, and not used afterwards."""
    c.rule(RELEASE, "every identifier a routine obtains is closed exactly once, by the routine for its kind, on every way to a normal return "
                    "(or is kept in the table of files, the cached dataset or a list)")
    c.rule(CLOSED, "an identifier is not used after it has been closed")
    for u, s in summaries(c, ENTRY, RELEASE):
        evs = s.events
        for i, e in enumerate(evs):
            n = hname(e)
            if n in OPENS:
                c.count("identifiers")
                one(c, u, s, i, e, n)


def one(c, u, s, i, e, n):
    evs = s.events
    r, kind, at = e.data["result"], OPENS[n], where(e, u, n)
    h = T("idx", r, C(0))
    ok_ = lambda t: with_status(t, r, n, 0)
    ge = ok_(cond(e))
    if ge is FALSE:
        return
    if any(x is not e and hname(x) == n and x.data["result"] is r and and_(ge, ok_(cond(x))) is not FALSE for x in evs):
        return c.undecided(RELEASE, at, "opened twice with the same arguments")
    here = lambda x: x.loops == e.loops
    stop = [ok_(cond(x)) for x in evs[i + 1:] if x.op == "raise" and not x.protect and (here(x) or not e.loops)]
    live = and_(ge, not_(or_(*stop))) if stop else ge
    gone, kept, users, elsewhere = [], [], [], False
    for x in evs[i + 1:]:
        m = hname(x)
        if m is not None:
            for a in h5args(x):
                p = picks(ok_(a), h, TRUE)
                if p is FALSE:
                    elsewhere = elsewhere or m in CLOSES and not here(x) and any(y is h for y in walk(a))
                    continue
                p = and_(p, ok_(cond(x)))
                if and_(ge, p) is FALSE:
                    continue
                if m in CLOSES:
                    if not here(x):
                        elsewhere = True
                        continue
                    if CLOSES[m] != kind and kind != "o":
                        c.violation(RELEASE, at, "closed with %s (line %s)" % (m, x.line))
                    for q, y in gone:
                        if and_(ge, p, q) is not FALSE:
                            c.violation(RELEASE, at, "closed twice, at lines %s and %s" % (y.line, x.line))
                    gone.append((p, x))
                else:
                    users.append((p, x, list(gone)))
        elif x.op == "setattr" or x.op == "store":
            v = x.data["value"]
            p = picks(ok_(v), h, TRUE)
            if p is not FALSE:
                if x.op == "store" and x.data["obj"].op != "attr":
                    elsewhere = True
                kept.append(and_(p, ok_(cond(x))))
    for p, x, before in users:
        for q, y in before:
            if y.data["args"] is not x.data["args"] and and_(ge, p, q) is not FALSE:
                c.violation(CLOSED, where(x, u, hname(x)), "uses what line %s closed" % y.line)
    c.count("uses", len(users))
    for k, v in s.attrs.items():
        p = picks(ok_(v), h, TRUE)
        if p is not FALSE:
            flag = k[:-3] if k.endswith("_id") else None
            if flag in s.attrs:
                p = and_(p, lift(truth(ok_(s.attrs[flag]))))
            kept.append(p)
    rest = and_(live, not_(or_(*([p for p, x in gone] + kept)))) if gone or kept else live
    if rest is FALSE:
        c.ok(RELEASE, at)
    elif elsewhere:
        c.undecided(RELEASE, at, "closed or kept by a loop")
    else:
        c.violation(RELEASE, at, "left open when %s" % show(rest, 6))


ALL = [checked, released]
