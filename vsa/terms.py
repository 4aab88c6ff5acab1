"""Hash-consed terms and their algebraic normal forms.

A term is the value number of an expression of the analysed program.  The constructors below keep terms in
normal form:
  * integer/real arithmetic over + - * is a polynomial over opaque atoms,
  * conditionals and boolean connectives are multi-terminal decision diagrams over ordered atomic conditions,
  * comparisons are reduced to  p < 0  and  x == y,
  * strings built with %, format() or f-strings are sequences of literals and formatted values.
Two expressions with the same normal form have the same value on every run; different normal forms are only
ever reported as "different" by compare.py when it can name the differing part.
"""
import hashlib, time
from fractions import Fraction

_table = {}


class Term(object):
    __slots__ = ("op", "args", "dg", "n", "isb", "__weakref__", "_atoms")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return (self.dg, self.n) < (other.dg, other.n)


_count = [0]


class Budget(BaseException):
    """The work allowed for one function is used up; its verdict is 'undecided'."""


_limit = [None, None]


def set_budget(terms=None, seconds=None):
    _limit[0] = None if terms is None else _count[0] + terms
    _limit[1] = None if seconds is None else time.monotonic() + seconds


class time_slice(object):
    """At most so many seconds for a part of an analysis, within the time the whole has left."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = _limit[:]
        t = time.monotonic() + self.seconds
        _limit[1] = t if self.old[1] is None else min(t, self.old[1])

    def __exit__(self, *exc):
        _limit[:] = self.old


def over_budget():
    if _limit[0] is not None and _count[0] > _limit[0] or _limit[1] is not None and time.monotonic() > _limit[1]:
        set_budget()
        raise Budget()


def _key(op, args):
    out = [op]
    for a in args:
        if isinstance(a, Term):
            out.append(id(a))
        else:
            out.append((type(a).__name__, repr(a)))
    return tuple(out)


BOOLOPS = {"lt0", "eq", "isnone", "in", "isinstance", "hasattr", "truthy", "exc", "any", "all", "startswith",
           "endswith", "is", "subset"}


def is_bool(t):
    return t.isb


def T(op, *args):
    k = _key(op, args)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        _count[0] += 1
        t.n = _count[0]
        if t.n & 4095 == 0:
            over_budget()
        t._atoms = None
        if op == "c":
            t.isb = isinstance(args[0], bool)
        elif op == "ite":
            t.isb = args[1].isb and args[2].isb
        else:
            t.isb = op in BOOLOPS
        h = hashlib.sha1(op.encode())
        if op == "phi":
            h.update(b"phi:" + str(args[1]).encode() + args[2].dg.encode())
        elif op == "ref":
            h.update(b"ref")
        else:
            for a in args:
                if isinstance(a, Term):
                    h.update(b"t" + a.dg.encode())
                else:
                    h.update(b"v" + type(a).__name__.encode() + repr(a).encode())
        t.dg = h.hexdigest()[:20]
        _table[k] = t
    return t


# ---------------------------------------------------------------------------------------------- constants
def C(v):
    if isinstance(v, tuple):
        return T("tuple", *[C(x) for x in v])
    return T("c", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ELL = C(Ellipsis)
UNDEF = T("undef")


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == "c" and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool)


def concrete(t):
    """Is t a fully constant value (possibly a tuple)?"""
    if t.op == "c":
        return True
    if t.op in ("tuple",):
        return all(concrete(a) for a in t.args)
    return False


def pyval(t):
    if t.op == "c":
        return t.args[0]
    return tuple(pyval(a) for a in t.args)


# ---------------------------------------------------------------------------------------------- polynomials
def _poly_dict(t):
    """term -> {monomial(tuple of atoms sorted by n): coeff}"""
    if t.op == "c" and isinstance(t.args[0], bool):
        return {(): int(t.args[0])} if t.args[0] else {}
    if is_num(t):
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0].d)
    return {(t,): 1}


class PolyBody(object):
    """Immutable body of a polynomial term."""
    __slots__ = ("d", "r")
    cache = {}

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return self.r


def _mk_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return C(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    key = tuple(sorted((tuple(a.n for a in m), repr(c)) for m, c in d.items()))
    t = PolyBody.cache.get(key)
    if t is None:
        body = PolyBody(d)
        body.r = "&".join(sorted(repr(c) + "*" + "*".join(sorted(a.dg for a in m)) for m, c in d.items()))
        t = Term()
        t.op = "poly"
        t.isb = False
        t.args = (body,)
        _count[0] += 1
        t.n = _count[0]
        t._atoms = None
        t.dg = hashlib.sha1(b"poly" + body.r.encode()).hexdigest()[:20]
        PolyBody.cache[key] = t
    return t


def add(a, b):
    d = _poly_dict(a)
    for m, c in _poly_dict(b).items():
        d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def neg(a):
    return _mk_poly({m: -c for m, c in _poly_dict(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    da, db = _poly_dict(a), _poly_dict(b)
    if len(da) * len(db) > 64:
        return T("mulx", *sorted((a, b)))
    out = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = tuple(sorted(m1 + m2, key=lambda t: (t.dg, t.n)))
            out[m] = out.get(m, 0) + c1 * c2
    return _mk_poly(out)


def poly_items(t):
    return list(_poly_dict(t).items())


def floordiv(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return C(cval(a) // cval(b))
    if is_num(b) and cval(b) == 1:
        return a
    return T("floordiv", a, b)


def div(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return C(cval(a) / cval(b))
    return T("div", a, b)


def mod(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return C(cval(a) % cval(b))
    return T("mod", a, b)


def power(a, b):
    if is_num(a) and is_num(b) and abs(cval(b)) < 200:
        try:
            return C(cval(a) ** cval(b))
        except Exception:
            pass
    if is_num(b) and cval(b) == 1:
        return a
    if is_num(b) and isinstance(cval(b), int) and 2 <= cval(b) <= 4:
        r = a
        for _ in range(cval(b) - 1):
            r = mul(r, a)
        return r
    return T("pow", a, b)


def bitop(op, a, b):
    if isc(a) and isc(b) and isinstance(cval(a), int) and isinstance(cval(b), int):
        x, y = cval(a), cval(b)
        try:
            r = {"bitxor": lambda: x ^ y, "bitand": lambda: x & y, "bitor": lambda: x | y,
                 "shl": lambda: x << y, "shr": lambda: x >> y}[op]()
            return C(r)
        except Exception:
            pass
    if op in ("bitand", "bitor", "bitxor"):
        if op in ("bitand", "bitor") and is_bool(a) and is_bool(b):
            return T(op, *sorted((a, b)))
        return T(op, *sorted((a, b)))
    if op == "shl" and is_num(b) and isinstance(cval(b), int) and 0 <= cval(b) < 64 and False:
        return mul(a, C(2 ** cval(b)))
    return T(op, a, b)


def minmax(op, items):
    flat = []
    for i in items:
        if i.op == op:
            flat.extend(i.args)
        else:
            flat.append(i)
    consts = [i for i in flat if is_num(i)]
    rest = [i for i in flat if not is_num(i)]
    if consts:
        f = min if op == "min" else max
        rest.append(C(f(cval(c) for c in consts)))
    rest = sorted(set(rest))
    if len(rest) == 1:
        return rest[0]
    return T(op, *rest)


# ---------------------------------------------------------------------------------------------- conditions
def _top(t):
    """Top decision atom of a diagram node (None for terminals)."""
    if t.op == "ite":
        return t.args[0]
    return None


def _cof(t, atom, pol):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if pol else t.args[2]
    if t is atom:
        return TRUE if pol else FALSE
    return t


def _ctop(c):
    if c.op == "ite":
        return c.args[0]
    if c.op == "c":
        return None
    return c


_ite_cache = {}


def ite(c, a, b):
    """Decision diagram ite; c is a boolean diagram, a and b are values or diagrams."""
    if isc(c):
        return a if cval(c) else b
    if a is b:
        return a
    k = (id(c), id(a), id(b))
    r = _ite_cache.get(k)
    if r is not None:
        return r[0]
    r = _ite(c, a, b)
    _ite_cache[k] = (r, c, a, b)
    return r


def _ite(c, a, b):
    boolval = is_bool(a) and is_bool(b)
    tops = [_ctop(c)]
    for v in (a, b):
        t = _ctop(v) if (boolval and is_bool(v)) else _top(v)
        if t is not None:
            tops.append(t)
    top = min(tops, key=lambda t: (t.dg, t.n))

    def cof(v, pol):
        if v.op == "ite" and v.args[0] is top:
            return v.args[1] if pol else v.args[2]
        if v is top and (v is c or boolval):
            return TRUE if pol else FALSE
        return v
    hi = ite_b(cof(c, True), cof(a, True), cof(b, True))
    lo = ite_b(cof(c, False), cof(a, False), cof(b, False))
    return _node(top, hi, lo)


def ite_b(c, a, b):
    return ite(c, a, b)


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    # min / max idiom
    if atom.op == "lt0" and not is_bool(hi):
        d = sub(hi, lo)
        p = atom.args[0]
        if hi.op not in ("tuple", "ref") and lo.op not in ("tuple", "ref"):
            if p is d:
                return minmax("min", (hi, lo))
            if p is neg(d):
                return minmax("max", (hi, lo))
            # a if a<=b is "not b<a"
    if atom.op == "lt0" and False:
        pass
    # empty product
    if lo is C(1) or hi is C(1):
        prodt = hi if lo is C(1) else lo
        if prodt.op == "prod" and atom.op == "lt0":
            return prodt
    if hi.op == "store" and lo.op == "store" and hi.args[0] is lo.args[0] and hi.args[1] is lo.args[1]:
        # the same element receives a value that depends on the condition
        return T("store", hi.args[0], hi.args[1], ite(atom, hi.args[2], lo.args[2]))
    return T("ite", atom, hi, lo)


def constrain(v, c, depth=0):
    """v simplified under the assumption c (equal results for values that agree wherever c holds)."""
    if c.op == "c" or v.op != "ite" and not (is_bool(v) and v.op != "c") or depth > 60:
        return v
    tv = v.args[0] if v.op == "ite" else v
    tc = _ctop(c)
    top = tc if (tc.dg, tc.n) <= (tv.dg, tv.n) else tv
    ch, cl = (c.args[1:] if c.op == "ite" else (TRUE, FALSE)) if tc is top else (c, c)
    vh, vl = (v.args[1:] if v.op == "ite" else (TRUE, FALSE)) if tv is top else (v, v)
    if ch is FALSE:
        return constrain(vl, cl, depth + 1)
    if cl is FALSE:
        return constrain(vh, ch, depth + 1)
    hi, lo = constrain(vh, ch, depth + 1), constrain(vl, cl, depth + 1)
    return ite(top, hi, lo) if hi is not lo else hi


def not_(c):
    return ite(truth(c), FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, truth(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, truth(c))
    return r


def truth(t):
    """Boolean value of t as a condition."""
    if t.op == "c":
        try:
            return TRUE if t.args[0] else FALSE
        except Exception:
            return TRUE
    if t.op == "tuple":
        return TRUE if t.args else FALSE
    if t.op in ("list", "dict"):
        return TRUE if t.args else FALSE
    if t.op == "ite":
        if is_bool(t):
            return t
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if is_bool(t):
        return t
    if t.op in ("ref", "func", "class", "ext", "bound", "mod"):
        return TRUE
    return T("truthy", t)


def lt(a, b):
    p = sub(a, b)
    if is_num(p):
        return TRUE if cval(p) < 0 else FALSE
    if p.op == "poly":
        # divide by the gcd like factor: normalise the leading coefficient magnitude when all are integers
        d = p.args[0].d
        cs = [c for c in d.values()]
        if all(isinstance(c, int) for c in cs):
            from math import gcd
            g = 0
            for c in cs:
                g = gcd(g, abs(c))
            if g > 1:
                p = _mk_poly({m: c // g for m, c in d.items()})
    # a size is never negative
    return _lt0(p)


def _lt0(p):
    s = poly_items(p)
    pos = [(m, c) for m, c in s if m != ()]
    k = dict(s).get((), 0)
    if pos and all(c > 0 and all(nonneg(a) for a in m) for m, c in pos) and isinstance(k, int):
        if k >= 0:
            return FALSE
        if k == -1 and len(pos) == 1 and pos[0][1] == 1 and len(pos[0][0]) == 1:
            # x < 1 for a size  <=>  x == 0
            return T("eq", *sorted((pos[0][0][0], C(0))))
    if pos and all(c < 0 and all(nonneg(a) for a in m) for m, c in pos) and isinstance(k, int):
        if k < 0:
            return TRUE
        if k == 0 and len(pos) == 1 and len(pos[0][0]) == 1:
            # 0 < x for a size <=> x != 0
            return not_(T("eq", *sorted((pos[0][0][0], C(0)))))
    return T("lt0", p)


NONNEG_OPS = {"dim", "size", "ndim", "len", "rank"}


def nonneg(t):
    return t.op in NONNEG_OPS


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if concrete(a) and concrete(b):
        try:
            return TRUE if pyval(a) == pyval(b) else FALSE
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if is_bool(a) and b in (TRUE, FALSE):
        return a if b is TRUE else not_(a)
    if is_bool(b) and a in (TRUE, FALSE):
        return b if a is TRUE else not_(b)
    return T("eq", *sorted((a, b)))


def isnone(t):
    if t.op == "c":
        return TRUE if t.args[0] is None else FALSE
    if t.op == "ite":
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op in ("poly", "tuple", "list", "dict", "ref", "func", "class", "ext", "mod", "dim", "size", "rank", "str",
                "zeros", "empty", "new", "split", "comm", "filled", "store", "dt", "argsort", "flat", "flatc", "arange", "nonzero", "bound", "shape", "min", "max", "cumsum", "argsort", "cast"):
        return FALSE
    return T("isnone", t)


def restrict(c, lits):
    """Simplify diagram c given a dict atom -> bool."""
    if not lits or c.op == "c":
        return c
    if c.op == "ite":
        a = c.args[0]
        if a in lits:
            return restrict(c.args[1] if lits[a] else c.args[2], lits)
        return ite(a, restrict(c.args[1], lits), restrict(c.args[2], lits))
    if c in lits:
        return TRUE if lits[c] else FALSE
    return c


def literals(c, pol=True):
    """Atoms that are forced by diagram c having truth value pol."""
    out = {}

    def walk(c, pol):
        if c.op == "c":
            return
        if c.op == "ite":
            a, hi, lo = c.args
            if not is_bool(c):
                return
            bad = FALSE if pol else TRUE
            if hi is bad:
                out[a] = False
                walk(lo, pol)
            elif lo is bad:
                out[a] = True
                walk(hi, pol)
        else:
            out[c] = pol
    walk(c, pol)
    return out


# ---------------------------------------------------------------------------------------------- strings
def mkstr(parts):
    out = []
    for p in parts:
        if p.op == "str":
            sub_ = list(p.args)
        elif p.op == "fmt" and p.args[1] in ("", "s") and isc(p.args[0]) and isinstance(cval(p.args[0]), (str, int)) \
                and not isinstance(cval(p.args[0]), bool):
            sub_ = [C(str(cval(p.args[0])))]
        elif p.op == "fmt" and p.args[1] in ("", "s") and p.args[0].op == "str":
            sub_ = list(p.args[0].args)
        elif p.op == "fmt" and isc(p.args[0]) and isinstance(cval(p.args[0]), (int, float)):
            try:
                sub_ = [C(format(cval(p.args[0]), p.args[1]))]
            except Exception:
                sub_ = [p]
        else:
            sub_ = [p]
        for s in sub_:
            if isc(s) and isinstance(cval(s), str):
                if not cval(s):
                    continue
                if out and isc(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = C(cval(out[-1]) + cval(s))
                    continue
            out.append(s)
    if not out:
        return C("")
    if len(out) == 1 and isc(out[0]):
        return out[0]
    return T("str", *out)


# ---------------------------------------------------------------------------------------------- display
def show(t, depth=7):
    if not isinstance(t, Term):
        return repr(t)
    op, a = t.op, t.args
    if op == "c":
        return "..." if a[0] is Ellipsis else repr(a[0])
    if depth <= 0:
        return "…"
    d = depth - 1
    s = lambda x: show(x, d)
    if op == "poly":
        out = []
        for m, c in sorted(a[0].d.items(), key=lambda mc: (len(mc[0]) == 0, sorted(x.dg for x in mc[0]))):
            body = "*".join(s(x) for x in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(body)
            elif c == -1:
                out.append("-" + body)
            else:
                out.append("%s*%s" % (c, body))
        return "(" + "+".join(out).replace("+-", "-") + ")"
    if op in ("sym", "comm"):
        return a[0]
    if op == "ite":
        if a[1] is FALSE and a[2] is TRUE:
            return "not(%s)" % s(a[0])
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if op == "lt0":
        return "%s<0" % s(a[0])
    if op == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "slice":
        f = lambda x: "" if x is NONE else s(x)
        return "%s:%s" % (f(a[0]), f(a[1])) + ("" if a[2] is NONE else ":" + s(a[2]))
    if op == "tuple":
        return "(" + ",".join(s(x) for x in a) + ")"
    if op == "list":
        return "[" + ",".join(s(x) for x in a) + "]"
    if op == "ext":
        return a[0]
    if op == "call":
        return "%s(%s)" % (a[0], ",".join(s(x) for x in a[1:]))
    if op == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if op == "phi":
        return "φ%s" % (a[1],)
    if op == "out":
        return "loop[%s]" % s(t.args[0].args[1].args[t.args[1]]) if False else "after-loop(%s)" % s(out_next(t))
    if op == "str":
        return "str(" + "+".join(s(x) for x in a) + ")"
    if op == "fmt":
        return "{%s:%s}" % (s(a[0]), a[1])
    return "%s(%s)" % (op, ",".join(s(x) if isinstance(x, Term) else repr(x) for x in a))


def out_next(t):
    loop, i = t.args
    return loop.args[3].args[i]


def subterms(t, seen=None):
    """All distinct subterms, iteratively."""
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen[x] = True
        stack.extend(children(x))
    return seen


def children(t):
    if t.op == "poly":
        out = []
        for m in t.args[0].d:
            out.extend(m)
        return out
    return [a for a in t.args if isinstance(a, Term)]


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f, cache=None):
    """Bottom-up rewrite: f(op, newargs, old) -> Term or None (keep)."""
    cache = {} if cache is None else cache
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in cache:
            continue
        ch = children(x)
        if not done:
            stack.append((x, True))
            for c_ in ch:
                if c_ not in cache:
                    stack.append((c_, False))
            continue
        r = f(x, cache)
        if r is None:
            if not ch or all(cache[c_] is c_ for c_ in ch):
                r = x
            else:
                r = remake(x, cache)
        cache[x] = r
    return cache[t]


def remake(x, m):
    g = lambda a: m.get(a, a) if isinstance(a, Term) else a
    op, a = x.op, x.args
    if op == "poly":
        r = C(0)
        for mono, c in a[0].d.items():
            p = C(c)
            for at in mono:
                p = mul(p, g(at))
            r = add(r, p)
        return r
    if op == "ite":
        return ite(truth(g(a[0])), g(a[1]), g(a[2]))
    if op == "lt0":
        return lt(g(a[0]), C(0))
    if op == "eq":
        return eq(g(a[0]), g(a[1]))
    if op == "isnone":
        return isnone(g(a[0]))
    if op in ("min", "max"):
        return minmax(op, [g(y) for y in a])
    if op == "str":
        return mkstr([g(y) for y in a])
    return T(op, *[g(y) for y in a])
