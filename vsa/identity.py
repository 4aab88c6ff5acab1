"""Second opinion on a difference between two terms: identity by random interpretation.

Two value numbers of different shape can still denote the same function (Gulwani & Necula, "Discovering affine
equalities using random interpretation", and its extension to uninterpreted functions).  Before a difference
between a specified and a derived term is reported, both terms are read as functions of their opaque parts -
parameters, results of library and of communication calls, fields - and the identity is tested over interpretations
in which every opaque part is an uninterpreted function of its arguments.  If no interpretation separates the terms
the difference is withdrawn and the obligation is listed as undecided; an alarm always needs both the structural
mismatch and a separating interpretation.  Only terms are read here: no code of the analysed program is run.
"""
import hashlib, re
import numpy as np
from .terms import *
from .canon import free

TRIALS, ENOUGH = 300, 6


class Bad(Exception):
    """No value: kind 'error' (the operation is undefined for these operands) or 'unknown'."""

    def __init__(self, kind, why=""):
        self.kind, self.why = kind, why


class Restart(Exception):
    pass


class U(object):
    """An uninterpreted value, identified by its key."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class A(object):
    """An array of numbers, truth values or uninterpreted values; dt is a key of its element type, if known."""
    __slots__ = ("v", "dt")

    def __init__(self, v, dt=None):
        self.v, self.dt = v, dt


class Dt(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Sl(object):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


def digest(*parts):
    return hashlib.md5("\0".join(parts).encode("utf8", "replace")).hexdigest()[:16]


class Scope(object):
    def __init__(self, up, bind, loop):
        self.up, self.bind, self.loop, self.memo = up, bind, loop, {}


_deps = {}


def deps(t):
    """Free loop variables of t, and the loops of whose running round it speaks."""
    r = _deps.get(t)
    if r is not None:
        return r
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _deps:
            continue
        if x.op == "cur":
            _deps[x] = frozenset((x.args[0],))
            continue
        ch = children(x)
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c not in _deps)
            continue
        if x.op == "phi":
            d = frozenset((x,))
        elif x.op == "loop":
            cond, phis, inits, nexts, brks = x.args
            d = (_deps[cond] | _deps[nexts] | _deps[brks]) - frozenset(phis.args) | _deps[inits]
        else:
            d = frozenset().union(*[_deps[c] for c in ch]) if ch else frozenset()
        _deps[x] = d
    return _deps[t]


class World(object):
    """One interpretation of the opaque parts."""

    def __init__(self, seed, pools, arrays, nums, tags):
        self.seed = seed
        self.pools, self.arrays, self.nums = pools, arrays, nums
        self.tags = tags
        self.mode = (0, 0, 1, 2, 3)[self.h("mode", n=5)]
        self.soft = False
        self.D = self.h("D", n=5)
        self.nd2 = self.h("nd2", n=4) == 0
        self.steps = 60000
        self.root = Scope(None, {}, None)
        self.flat = False
        self.fields = {}
        self.softs = False
        self.poke, self.poked = None, set()

    # ------------------------------------------------------------------------------------- interpretation
    def h(self, *parts, **kw):
        return int(digest(str(self.seed), *parts), 16) % kw["n"]

    def app(self, op, *vals):
        """Uninterpreted function."""
        return self.res(U(digest("app", op, *[self.key(v) for v in vals])))

    def res(self, u):
        pool = self.pools.get(u.k)
        if pool:
            p = sorted(pool, key=lambda c: c.k if isinstance(c, U) else repr(c))
            i = self.h("pool", u.k, n=2 * len(p) + 2)
            if i < 2 * len(p):
                return p[i // 2]
        return u

    def offer(self, u, c):
        """u is compared with the constant c: let u take that value in some interpretations."""
        if isinstance(u, U):
            p = self.pools.setdefault(u.k, set())
            if len(p) < 8 and not any(type(c) is type(x) and (c == x or isinstance(c, U) and c.k == x.k) for x in p):
                p.add(c)
                raise Restart()

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, U):
            if v.k not in self.nums:
                self.nums.add(v.k)
                raise Restart()
            return self.unum(v.k)
        if isinstance(v, A) and v.v.ndim == 0:
            return self.num(v.v.item())
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, Dt):
            raise Bad("unknown", "number")
        raise Bad("unknown", "number of " + type(v).__name__)

    def unum(self, k):
        m = self.mode
        if m == 0:
            return self.h("num", k, n=max(self.D, 1))
        if m == 1:
            return self.h("num", k, n=self.D + 2)
        if m == 2:
            return self.h("num", k, n=7) - 2
        return self.h("num", k, n=21)

    def udim(self, k, i):
        d = self.h("dim", k, str(i), n=8)
        if i > 0:
            return 1 + self.h("dim2", k, str(i), n=3)
        return self.D if d < 6 else self.h("dim2", k, str(i), n=4)

    def undim(self, k):
        return 2 if self.nd2 and self.h("nd", k, n=3) else 1

    def arr(self, v, mark=True):
        """v as an array."""
        if isinstance(v, A):
            return v
        if isinstance(v, U):
            if v.k not in self.arrays:
                if not mark:
                    return None
                self.arrays.add(v.k)
                raise Restart()
            k = v.k
            while k in self.fields:
                k = self.fields[k]
            shape = tuple(self.udim(k, i) for i in range(self.undim(k)))
            n = int(np.prod(shape))
            return A(np.array([self.unum(digest("el", v.k, str(i))) for i in range(n)], dtype=np.int64).reshape(shape), "dt:u" + digest("app", "dtype", "u" + v.k))
        if isinstance(v, (bool, int, float)):
            return A(np.array(v))
        if isinstance(v, tuple):
            xs = [self.simple(x) for x in v]
            if all(isinstance(x, (bool, int, float)) for x in xs):
                return A(np.array(xs))
            if xs and all(isinstance(x, A) for x in xs) and len(set(x.v.shape for x in xs)) == 1:
                return A(np.array([x.v for x in xs]))
            o = np.empty(len(xs), dtype=object)
            for i, x in enumerate(xs):
                o[i] = x
            return A(o)
        raise Bad("unknown", "array of " + type(v).__name__)

    def simple(self, v):
        if isinstance(v, U):
            if v.k in self.arrays:
                return self.arr(v)
            if v.k in self.nums:
                return self.unum(v.k)
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, A) and v.v.ndim == 0:
            return v.v.item()
        return v

    def operand(self, v):
        """v in arithmetic: a number or an array."""
        v = self.simple(v)
        if isinstance(v, tuple):
            return self.arr(v).v
        if isinstance(v, A):
            if v.v.dtype == object:
                xs = np.array([self.num(self.simple(x)) for x in v.v.ravel()])
                return xs.reshape(v.v.shape)
            return v.v
        return self.num(v)

    def put(self, x, dt=None):
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return self.put(x.item())
            return A(x, dt)
        if isinstance(x, np.generic):
            return x.item()
        return x

    # --------------------------------------------------------------------------------------------- identity
    def key(self, v):
        v = self.simple(v)
        if v is None or isinstance(v, (bool, int, float)):
            if isinstance(v, float):
                if v != v:
                    return "nan"
                if v == int(v) if abs(v) < 1e15 else False:
                    return "n%d" % int(v)
                return "n%.9g" % v
            return "None" if v is None else "n%d" % int(v)
        if isinstance(v, (str, bytes)):
            return "s" + repr(v)
        if isinstance(v, U):
            return "u" + v.k
        if isinstance(v, A):
            if self.flat and v.v.ndim != 1:
                v = A(v.v.ravel(), v.dt)
            return "A%s%s[%s]" % (v.v.shape, (v.dt or "") if self.tags else "", ",".join(self.key(x if not isinstance(x, np.generic) else x.item()) for x in v.v.ravel().tolist()))
        if isinstance(v, tuple):
            return "(" + ",".join(self.key(x) for x in v) + ")"
        if isinstance(v, dict):
            return "{" + ",".join("%s:%s" % (k, self.key(x)) for k, (_, x) in sorted(v.items())) + "}"
        if isinstance(v, Dt):
            return "dt:" + v.name
        if isinstance(v, Sl):
            return "sl(%s,%s,%s)" % (self.key(v.a), self.key(v.b), self.key(v.s))
        if v is Ellipsis:
            return "..."
        return repr(v)

    def truth(self, v):
        if isinstance(v, U) and v.k in self.arrays:
            # a sequence of unknown kind
            return self.arr(v).v.shape[0] > 0
        v = self.simple(v)
        if isinstance(v, U):
            return self.h("bool", v.k, n=2) == 0
        if isinstance(v, A):
            if v.v.size == 1:
                return bool(v.v.ravel()[0])
            raise Bad("unknown", "truth of an array")
        if isinstance(v, (dict, tuple, str, int, float, bool)) or v is None:
            return bool(v)
        return True

    # ------------------------------------------------------------------------------------------- evaluation
    def ev(self, t, sc):
        d = deps(t)
        if not d:
            sc = self.root
        else:
            while sc is not self.root and not (sc.loop in d or not d.isdisjoint(sc.bind)):
                sc = sc.up
        m = sc.memo
        if t in m:
            r = m[t]
            if isinstance(r, Bad):
                raise r
            return r
        try:
            r = self.ev_(t, sc)
        except Bad as b:
            m[t] = b
            raise
        except (ValueError, IndexError, TypeError, ZeroDivisionError, OverflowError, KeyError, AttributeError) as e:
            m[t] = b = Bad("error", "%s in %s" % (e, t.op))
            raise b
        if t is self.poke:
            r = self.another(r)
        m[t] = r
        return r

    def another(self, v):
        """Another value than v."""
        v = self.simple(v)
        self.poked.add(v if isinstance(v, bool) else self.key(v))
        if isinstance(v, bool):
            return not v
        if isinstance(v, (int, float)):
            return v + 1
        if isinstance(v, (str, bytes)):
            return v + v[:1] + ("x" if isinstance(v, str) else b"x")
        if isinstance(v, A):
            if v.v.dtype == bool:
                return A(~v.v, v.dt)
            if v.v.dtype == object:
                return A(v.v[::-1].copy(), "dt:another")
            return A(v.v + 1, v.dt)
        if isinstance(v, tuple):
            return v + (7,)
        if isinstance(v, Dt):
            return Dt("another " + v.name)
        if isinstance(v, Sl):
            return Sl(1, 1, None)
        if isinstance(v, dict):
            return dict(v, another=("another", 7))
        return U(digest("another", self.key(v)))

    def ev_(self, t, sc):
        self.steps -= 1
        if self.steps < 0:
            raise Bad("unknown", "steps")
        f = getattr(self, "op_" + t.op, None)
        if f is not None:
            return f(t, sc, *t.args)
        vals = [self.ev(a, sc) if isinstance(a, Term) else a for a in t.args]
        if t.op.startswith("mpi_"):
            return self.app(t.op, *vals)
        if t.isb:
            return self.h("bool", self.app(t.op, *vals).k if isinstance(self.app(t.op, *vals), U) else "c", n=2) == 0
        return self.app(t.op, *[v if not isinstance(v, (str, int)) else v for v in vals])

    def op_c(self, t, sc, v):
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int) and abs(v) > 1000:
            return (1 if v > 0 else -1) * (2 + self.h("big", str(abs(v)), n=6))
        if isinstance(v, Fraction):
            return float(v)
        if isinstance(v, (int, float, str, bytes)) or v is Ellipsis:
            return v
        return U(digest("const", repr(v)))

    def op_sym(self, t, sc, name):
        return self.res(U(digest("sym", str(name))))

    op_comm = op_sym

    def op_undef(self, t, sc, *a):
        return U("undef")

    def op_dt(self, t, sc, name):
        return Dt(str(name))

    def op_poly(self, t, sc, body):
        out = None
        dts = set()
        for m, c in sorted(body.d.items(), key=lambda mc: tuple(a.dg for a in mc[0])):
            p = c if not isinstance(c, Fraction) else float(c)
            if not m:
                p = self.op_c(None, sc, p) if isinstance(p, int) else p
            for a in m:
                x = self.ev(a, sc)
                dts.add(self.dtof(x))
                x = self.operand(x)
                x = self.unbool(x)
                p = p * x
            out = p if out is None else out + p
        dts.discard("")
        return self.put(out, dts.pop() if len(dts) == 1 else None)

    def dtof(self, x):
        """Key of the element type of an operand: '' if it does not take part, None if it is unknown."""
        x = self.simple(x)
        if isinstance(x, A):
            if x.v.dtype.kind == "i" or x.dt and "float" in x.dt:
                return x.dt
            return None
        return "" if isinstance(x, (bool, int)) else None

    def unbool(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, np.ndarray) and x.dtype == bool:
            return x.astype(np.int64)
        return x

    def op_mulx(self, t, sc, a, b):
        return self.put(self.unbool(self.operand(self.ev(a, sc))) * self.unbool(self.operand(self.ev(b, sc))))

    def bin(self, f, a, b, sc):
        x, y = self.operand(self.ev(a, sc)), self.operand(self.ev(b, sc))
        if not isinstance(y, np.ndarray) and f in (np.floor_divide, np.true_divide, np.mod) and y == 0:
            raise Bad("error", "zero")
        with np.errstate(all="ignore"):
            return self.put(f(x, y))

    def op_floordiv(self, t, sc, a, b):
        return self.bin(np.floor_divide, a, b, sc)

    def op_div(self, t, sc, a, b):
        return self.bin(np.true_divide, a, b, sc)

    def op_mod(self, t, sc, a, b):
        if len(t.args) != 2 or not isinstance(b, Term):
            return U(t.dg)
        return self.bin(np.mod, a, b, sc)

    def op_pow(self, t, sc, a, b):
        return self.bin(lambda x, y: np.power(x, y) if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else x ** y if abs(y) < 40 else 1 / 0, a, b, sc)

    def op_bitxor(self, t, sc, a, b):
        return self.bin(np.bitwise_xor, a, b, sc)

    def op_bitand(self, t, sc, a, b):
        return self.bin(np.bitwise_and, a, b, sc)

    def op_bitor(self, t, sc, a, b):
        return self.bin(np.bitwise_or, a, b, sc)

    def op_shl(self, t, sc, a, b):
        return self.bin(np.left_shift, a, b, sc)

    def op_shr(self, t, sc, a, b):
        return self.bin(np.right_shift, a, b, sc)

    def op_logical_and(self, t, sc, a, b):
        return self.bin(np.logical_and, a, b, sc)

    def op_logical_or(self, t, sc, a, b):
        return self.bin(np.logical_or, a, b, sc)

    def op_invert(self, t, sc, a):
        x = self.operand(self.ev(a, sc))
        if isinstance(x, np.ndarray) and x.dtype == bool:
            return self.put(~x)
        if isinstance(x, bool):
            return not x
        return self.put(~x)

    def op_abs(self, t, sc, a):
        return self.put(abs(self.unbool(self.operand(self.ev(a, sc)))))

    def op_min(self, t, sc, *a):
        return self.fold(np.minimum, a, sc)

    def op_max(self, t, sc, *a):
        return self.fold(np.maximum, a, sc)

    def fold(self, f, a, sc):
        r = None
        for x in a:
            x = self.operand(self.ev(x, sc))
            r = x if r is None else f(r, x)
        return self.put(r)

    # conditions
    def op_ite(self, t, sc, c, a, b):
        try:
            v = self.simple(self.ev(c, sc))
            if isinstance(v, A) and t.isb and v.v.dtype == bool:
                # connectives of conditions on arrays work on their elements
                return A(np.where(v.v, self.unit(self.ev(a, sc)), self.unit(self.ev(b, sc))))
            v = self.truth(v)
        except Bad as e:
            # the branches may not depend on the undefined condition: their order is not the program's
            x, y = self.ev(a, sc), self.ev(b, sc)
            if self.key(x) == self.key(y):
                return x
            raise e
        return self.ev(a if v else b, sc)

    def unit(self, v):
        return v.v if isinstance(v, A) else self.truth(v)

    def op_truthy(self, t, sc, a):
        return self.truth(self.ev(a, sc))

    def op_lt0(self, t, sc, p):
        x = self.operand(self.ev(p, sc))
        return self.put(x < 0)

    def op_eq(self, t, sc, a, b):
        x, y = self.simple(self.ev(a, sc)), self.simple(self.ev(b, sc))
        if isinstance(x, A) or isinstance(y, A):
            xo = self.operand(x) if not isinstance(x, (str, Dt)) and x is not None else None
            yo = self.operand(y) if not isinstance(y, (str, Dt)) and y is not None else None
            if xo is None or yo is None:
                return False
            return self.put(np.asarray(xo == yo))
        for u, v in ((x, y), (y, x)):
            if isinstance(u, U):
                if isinstance(v, (str, bytes)) or v is None:
                    self.offer(u, v)
                elif isinstance(v, (bool, int, float)):
                    if isinstance(v, bool) or abs(v) < 3:
                        return self.num(u) == self.num(v)
                    if u.k not in self.nums:
                        self.offer(u, v)
                    return self.num(u) == v
        if isinstance(x, U) and isinstance(y, U) and x.k != y.k:
            self.offer(*(x, y) if x.k > y.k else (y, x))
        return self.key(x) == self.key(y)

    def op_isnone(self, t, sc, a):
        x = self.ev(a, sc)
        if isinstance(x, U):
            self.offer(x, None)
        return x is None

    def op_is(self, t, sc, a, b):
        return self.key(self.ev(a, sc)) == self.key(self.ev(b, sc))

    def op_in(self, t, sc, a, b):
        x, y = self.ev(a, sc), self.ev(b, sc)
        if isinstance(y, tuple):
            for z in y:
                if isinstance(x, U) and isinstance(z, (str, int)) and not isinstance(z, bool):
                    self.offer(x, z)
            return self.key(x) in [self.key(z) for z in y]
        if isinstance(y, dict) and "__base__" not in y:
            return self.key(x) in y
        if isinstance(y, str):
            if isinstance(x, str):
                return x in y
            if isinstance(x, U):
                for z in y[:4]:
                    self.offer(x, z)
        if isinstance(y, U):
            asked = self.pools.setdefault("in", set())
            if (self.key(x), y.k) not in asked:
                asked.add((self.key(x), y.k))
                raise Restart()
        return self.h("bool", digest("in", self.key(x), self.key(y)), n=2) == 0

    def present(self, x, y):
        """Can there be an item x of y, as far as the terms ask for its presence?"""
        if "in" not in self.pools or (self.key(x), y.k) not in self.pools["in"]:
            return True
        return self.h("bool", digest("in", self.key(x), self.key(y)), n=2) == 0

    def op_any(self, t, sc, a):
        return bool(np.any(self.boolarr(self.ev(a, sc))))

    def op_all(self, t, sc, a):
        return bool(np.all(self.boolarr(self.ev(a, sc))))

    def boolarr(self, v):
        v = self.simple(v)
        if isinstance(v, tuple):
            return np.array([self.truth(x) for x in v], dtype=bool)
        if isinstance(v, U):
            v = self.arr(v)
        if isinstance(v, A):
            return self.operand(v)
        return np.array(self.truth(v))

    # sequences
    def op_tuple(self, t, sc, *a):
        return tuple(self.ev(x, sc) for x in a)

    op_list = op_tuple

    def op_kw(self, t, sc, n, v):
        return ("kw", n, self.ev(v, sc))

    def op_dict(self, t, sc, *a):
        out = {}
        for p in a:
            if p.op != "tuple":
                return self.app("dict", *[self.ev(x, sc) for x in a])
            k = self.ev(p.args[0], sc)
            out[self.key(k)] = (k, self.ev(p.args[1], sc))
        return out

    def op_append(self, t, sc, a, x):
        b, v = self.ev(a, sc), self.ev(x, sc)
        return b + (v,) if isinstance(b, tuple) else self.app("append", b, v)

    def op_concat(self, t, sc, a, b):
        x, y = self.ev(a, sc), self.ev(b, sc)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x + y
        if isinstance(x, str) and isinstance(y, str):
            return x + y
        if isinstance(x, tuple) and not x:
            return y
        return self.app("concat", x, y)

    def op_tupleof(self, t, sc, a):
        v = self.ev(a, sc)
        if isinstance(v, A):
            return tuple(self.put(x) if isinstance(x, np.ndarray) else x for x in (v.v if v.v.ndim > 1 else v.v.tolist()))
        return v

    def op_slice(self, t, sc, a, b, s):
        return Sl(*[self.ev(x, sc) for x in (a, b, s)])

    def op_range(self, t, sc, a, b, s):
        return tuple(range(*[self.index(self.ev(x, sc)) for x in (a, b, s)]))

    def op_rangelen(self, t, sc, a, b, s):
        return len(range(*[self.index(self.ev(x, sc)) for x in (a, b, s)]))

    def index(self, v):
        n = self.num(v)
        if isinstance(n, float):
            raise Bad("error", "float index")
        return int(n)

    def ikey(self, k, top=True):
        k = self.simple(k)
        if isinstance(k, Sl):
            return slice(*[None if x is None else self.index(x) for x in (k.a, k.b, k.s)])
        if k is Ellipsis or k is None:
            return k
        if isinstance(k, tuple):
            if top:
                return tuple(self.ikey(x, False) for x in k)
            return self.arr(k).v
        if isinstance(k, A):
            x = self.operand(k)
            if x.dtype.kind == "f":
                if x.size:
                    raise Bad("error", "float index")
                x = x.astype(np.int64)
            return x
        if isinstance(k, (bool, np.bool_)):
            return bool(k)
        return self.index(k)

    def op_idx(self, t, sc, b, k):
        return self.getitem(self.ev(b, sc), self.ev(k, sc))

    op_elem = op_idx

    def getitem(self, b, k):
        ks = self.simple(k)
        if isinstance(b, dict):
            kk = self.key(k)
            if kk in b:
                return b[kk][1]
            if "__base__" in b:
                if not isinstance(ks, (str, bytes)) and isinstance(b["__base__"][1], A):
                    return {n: (x, self.getitem(y, k)) for n, (x, y) in b.items()}
                return self.getitem(b["__base__"][1], k)
            raise Bad("error", "key")
        if isinstance(ks, (str, bytes, Dt, dict)):
            if isinstance(b, A):
                if not isinstance(ks, str):
                    raise Bad("unknown", "field of a plain array")
                x = np.array([self.unum(digest("field", ks, self.key(x))) for x in b.v.ravel().tolist()], dtype=np.int64)
                return A(x.reshape(b.v.shape), "dt:u" + digest("field", ks, b.dt or ""))
            if isinstance(b, U) and not self.present(k, b):
                raise Bad("error", "key")
            r = self.app("idx", b, k)
            if isinstance(b, U) and b.k in self.arrays and isinstance(r, U) and isinstance(ks, str):
                # a field of a structured array has the shape of the array
                self.fields[r.k] = b.k
            return r
        if isinstance(b, str):
            return b[self.ikey(k)]
        if isinstance(b, tuple):
            kk = self.ikey(k)
            if isinstance(kk, (int, slice)):
                return b[kk]
            return self.getitem(self.arr(b), k)
        if isinstance(b, U):
            if isinstance(ks, U) and b.k not in self.arrays:
                if not self.present(k, b):
                    raise Bad("error", "key")
                return self.app("idx", b, k)
            if isinstance(ks, (int, float)) and not isinstance(ks, bool) and b.k not in self.arrays:
                return self.app("idx", b, k)
            if ks is None or ks is Ellipsis and b.k not in self.arrays:
                return b
            if isinstance(ks, tuple) and any(isinstance(x, (str, U)) for x in ks) and b.k not in self.arrays:
                return self.app("idx", b, k)
            b = self.arr(b)
        if isinstance(b, A):
            i = self.ikey(k)
            try:
                r = b.v[i]
            except IndexError:
                if not isinstance(i, int) or b.v.ndim != 1:
                    raise
                # outside of the data: some value; interpretations like this only count as agreement
                self.soft = True
                return self.unum(digest("outside", self.key(b), str(i)))
            return self.put(r, b.dt) if not isinstance(r, (U, tuple, A, str)) else r
        return self.app("idx", b, k)

    def op_store(self, t, sc, b, k, v):
        base, kk, val = self.ev(b, sc), self.ev(k, sc), self.ev(v, sc)
        ks = self.simple(kk)
        if isinstance(base, dict):
            return dict(base, **{self.key(kk): (kk, val)})
        if isinstance(ks, (str, bytes)):
            if isinstance(base, (U, A)):
                return {"__base__": ("__base__", base), self.key(kk): (kk, val)}
            return self.app("store", base, kk, val)
        if isinstance(base, tuple):
            i = self.ikey(kk)
            if isinstance(i, int):
                l = list(base)
                l[i] = val
                return tuple(l)
            base = self.arr(base)
        if isinstance(base, U):
            base = self.arr(base)
        if not isinstance(base, A):
            raise Bad("unknown", "store into " + type(base).__name__)
        out = base.v.copy()
        i = self.ikey(kk)
        val = self.simple(val)
        if isinstance(val, (str, dict, Dt)) or val is None or isinstance(val, U) and base.v.dtype == object:
            out = out.astype(object)
            out[i] = val
            return A(out, base.dt)
        if isinstance(val, tuple):
            val = self.arr(val)
        if isinstance(val, A) and val.v.dtype == object:
            out = out.astype(object)
            out[i] = val.v
            return A(out, base.dt)
        x = self.operand(val)
        if np.asarray(x).dtype.kind == "f" and out.dtype.kind in "iub" and not (self.tags and base.dt and "int" in base.dt):
            out = out.astype(float)
        out[i] = x
        return A(out, base.dt)

    # arrays
    def shapeof(self, v):
        v = self.simple(v)
        if isinstance(v, U):
            v = self.arr(v)
        if isinstance(v, A):
            return v.v.shape
        if isinstance(v, dict) and "__base__" in v:
            return self.shapeof(v["__base__"][1])
        if isinstance(v, (tuple, dict, str)):
            return (len(v),)
        return ()

    def op_dim(self, t, sc, a, i):
        k = self.index(self.ev(i, sc)) if isinstance(i, Term) else i
        s = self.shapeof(self.ev(a, sc))
        return s[k]

    def op_len(self, t, sc, a):
        return self.shapeof(self.ev(a, sc))[0]

    def op_ndim(self, t, sc, a):
        return len(self.shapeof(self.ev(a, sc)))

    def op_shape(self, t, sc, a):
        return tuple(self.shapeof(self.ev(a, sc)))

    def op_size(self, t, sc, a):
        return int(np.prod(self.shapeof(self.ev(a, sc))))

    def op_dtype(self, t, sc, a):
        v = self.simple(self.ev(a, sc))
        if isinstance(v, dict) and "__base__" in v:
            v = self.simple(v["__base__"][1])
        if isinstance(v, A):
            if v.dt and v.dt.startswith("dt:u") and len(v.dt) == 20:
                return self.res(U(v.dt[4:]))
            return Dt(v.dt[3:]) if v.dt and v.dt.startswith("dt:") else self.app("dtype", v)
        return self.res(U(digest("app", "dtype", "u" + v.k))) if isinstance(v, U) else self.app("dtype", v)

    def dkey(self, d):
        d = self.key(d)
        return d if d.startswith("dt:") else "dt:" + d

    def mkshape(self, v):
        v = self.simple(v)
        if isinstance(v, tuple):
            s = tuple(self.index(x) for x in v)
        elif isinstance(v, A):
            s = tuple(int(x) for x in np.atleast_1d(self.operand(v)))
        else:
            s = (self.index(v),)
        if any(x < 0 for x in s):
            raise Bad("error", "negative size")
        if np.prod(s, dtype=float) > 5000:
            raise Bad("unknown", "size")
        return s

    def new(self, shape, dt, fill, sc):
        s = self.mkshape(self.ev(shape, sc))
        d = self.ev(dt, sc) if dt is not None and isinstance(dt, Term) else None
        return A(np.full(s, fill), self.dkey(d) if d is not None else None)

    def op_empty(self, t, sc, shape, dt=None, *r):
        # contents before the first assignment: some value of their own
        return self.new(shape, dt, -77, sc)

    def op_zeros(self, t, sc, shape, dt=None, *r):
        return self.new(shape, dt, 0, sc)

    def op_ones(self, t, sc, shape, dt=None, *r):
        return self.new(shape, dt, 1, sc)

    def op_filled(self, t, sc, loc, val):
        l, v = self.simple(self.ev(loc, sc)), self.simple(self.ev(val, sc))
        if isinstance(l, U) and l.k not in self.arrays:
            return v
        if not isinstance(l, A):
            return v
        if isinstance(v, U):
            if v.k not in self.arrays:
                # contents received from elsewhere
                n = l.v.size
                return A(np.array([self.unum(digest("el", v.k, str(i))) for i in range(n)], dtype=np.int64).reshape(l.v.shape), l.dt)
        if isinstance(v, (dict, Dt, str)) or v is None:
            return v
        if isinstance(v, tuple):
            v = self.arr(v)
        x = v.v if isinstance(v, A) else self.operand(v)
        return A(np.broadcast_to(x, l.v.shape).copy(), l.dt)

    def op_full(self, t, sc, a):
        return self.ev(a, sc)

    op_tupleof_ = op_full

    def op_asarray(self, t, sc, a, *dt):
        v = self.ev(a, sc)
        d = self.ev(dt[0], sc) if dt else None
        if isinstance(d, tuple) and d and d[0] == "kw":
            d = d[2]
        if isinstance(v, tuple):
            v = self.arr(v)
        return self.cast(v, d) if d is not None else v

    op_asdt = op_asarray

    def op_cast(self, t, sc, a, d):
        return self.cast(self.ev(a, sc), self.ev(d, sc))

    def cast(self, v, d):
        v = self.simple(v)
        if isinstance(v, U) and isinstance(d, Dt):
            return self.app("cast", v, d) if v.k not in self.arrays else v
        if isinstance(v, A):
            x = v.v
            if isinstance(d, Dt) and x.dtype.kind == "f" and "int" in d.name:
                x = np.trunc(x).astype(np.int64)
            if isinstance(d, Dt) and d.name.startswith("bool"):
                x = x.astype(bool)
            return A(x, self.dkey(d) if d is not None else v.dt)
        if isinstance(v, (int, float)) and isinstance(d, Dt):
            if "int" in d.name:
                return int(v)
            if "bool" in d.name:
                return bool(v)
            return v
        return v

    def op_flatc(self, t, sc, a):
        v = self.simple(self.ev(a, sc))
        if isinstance(v, (U, tuple)):
            v = self.arr(v)
        if isinstance(v, A):
            return A(v.v.ravel(), v.dt)
        return v

    op_flat = op_flatc

    def op_reshape(self, t, sc, a, s):
        v = self.arr(self.ev(a, sc))
        k = self.simple(self.ev(s, sc))
        k = tuple(self.index(x) for x in k) if isinstance(k, tuple) else (self.index(k),)
        return A(v.v.reshape(k), v.dt)

    def op_arange(self, t, sc, a, b, *r):
        n0, n1 = self.index(self.ev(a, sc)), self.index(self.ev(b, sc))
        if n1 - n0 > 5000:
            raise Bad("unknown", "size")
        d = None
        for x in r:
            v = self.ev(x, sc)
            if isinstance(v, tuple) and v and v[0] == "kw" and v[1] == "dtype":
                d = self.dkey(v[2])
            elif isinstance(v, tuple):
                return self.app("arange", n0, n1, v)
        return A(np.arange(n0, n1), d or "dt:int64")

    def red(self, f, a, sc):
        v = self.simple(self.ev(a, sc))
        if isinstance(v, U):
            v = self.arr(v)
        return self.put(f(self.unbool(np.asarray(self.operand(v)))))

    def op_sum(self, t, sc, a):
        return self.red(np.sum, a, sc)

    def op_prod(self, t, sc, a):
        return self.red(lambda x: int(np.prod(x)) if x.size == 0 else np.prod(x), a, sc)

    def op_cumsum(self, t, sc, a):
        return self.red(np.cumsum, a, sc)

    def op_amin(self, t, sc, a, *r):
        return self.red(np.amin, a, sc) if not r else self.app("amin", *[self.ev(x, sc) for x in t.args])

    def op_amax(self, t, sc, a, *r):
        return self.red(np.amax, a, sc) if not r else self.app("amax", *[self.ev(x, sc) for x in t.args])

    def op_nonzero(self, t, sc, a):
        v = self.arr(self.ev(a, sc))
        return tuple(A(x, "dt:int64") for x in np.nonzero(self.operand(v)))

    def op_argsort(self, t, sc, a, kind=None):
        v = self.arr(self.ev(a, sc))
        k = self.key(self.ev(kind, sc)) if isinstance(kind, Term) else str(kind)
        x = self.operand(v)
        if "stable" in k or "merge" in k:
            return A(np.argsort(x, kind="stable"), "dt:int64")
        # any order of equal elements
        p = np.array([self.h("tie", k, str(i), n=97) for i in range(x.shape[0])], dtype=np.int64)
        return A(np.lexsort((p, x)) if x.ndim == 1 else np.argsort(x), "dt:int64")

    def op_npconcat(self, t, sc, a, *r):
        v = self.ev(a, sc)
        if isinstance(v, tuple) and v:
            xs = [self.arr(x) for x in v]
            dts = set(x.dt for x in xs)
            return A(np.concatenate([x.v for x in xs]), dts.pop() if len(dts) == 1 else None)
        if isinstance(v, tuple):
            raise Bad("error", "nothing to concatenate")
        return self.app("npconcat", v)

    def op_pyint(self, t, sc, a):
        v = self.simple(self.ev(a, sc))
        if isinstance(v, str):
            return int(v)
        n = self.num(v)
        return int(n)

    def op_pyfloat(self, t, sc, a):
        v = self.simple(self.ev(a, sc))
        if isinstance(v, (str, Dt, dict, tuple)) or v is None:
            return self.app("pyfloat", v)
        return self.num(v)

    def op_rank(self, t, sc, c):
        k = self.key(self.ev(c, sc))
        return self.h("rank", k, n=self.h("csize", k, n=3) + 1)

    def op_commsize(self, t, sc, c):
        return self.h("csize", self.key(self.ev(c, sc)), n=3) + 1

    def everywhere(self, cv, x):
        """Values of x on all ranks, and this rank."""
        k = self.key(cv)
        n = self.h("csize", k, n=3) + 1
        r = self.h("rank", k, n=n)
        x = self.simple(x)
        if isinstance(x, bool):
            return tuple(x if i == r else self.h("ag", self.key(x), str(i), n=2) == 0 for i in range(n)), r
        if isinstance(x, (int, float)):
            return tuple(x if i == r else self.h("ag", self.key(x), str(i), n=self.D + 2) for i in range(n)), r
        return tuple(x if i == r else self.app("allgather%d" % i, x, cv) for i in range(n)), r

    def op_mpi_allgather(self, t, sc, c, *kws):
        cv = self.ev(c, sc)
        vs = [self.ev(k, sc) for k in kws]
        if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][0] == "kw":
            return self.everywhere(cv, vs[0][2])[0]
        return self.app("mpi_allgather", cv, *vs)

    def op_mpi_allreduce(self, t, sc, c, *kws):
        cv = self.ev(c, sc)
        vs = [self.ev(k, sc) for k in kws]
        d = {v[1]: v[2] for v in vs if isinstance(v, tuple) and len(v) == 3 and v[0] == "kw"}
        if "sendobj" in d and set(d) <= {"sendobj", "op"} and len(d) == len(vs):
            x = self.simple(d["sendobj"])
            op = [a.args[1] for a in kws if a.op == "kw" and a.args[0] == "op"]
            op = show(op[0]) if op else "mpi4py.MPI.SUM"
            f = {"mpi4py.MPI.SUM": sum, "mpi4py.MPI.MAX": max, "mpi4py.MPI.MIN": min}.get(op)
            if f and isinstance(x, (int, float)):
                a, r = self.everywhere(cv, x)
                return f(a) if t.op == "mpi_allreduce" else f(a[:r + 1])
        return self.app(t.op, cv, *vs)

    op_mpi_scan = op_mpi_allreduce

    def op_xchg(self, t, sc, *a):
        vals = [self.ev(x, sc) for x in a]
        u = self.app("xchg", *vals)
        try:
            n = int(np.sum(self.operand(vals[4])))
        except (Bad, IndexError, TypeError, ValueError):
            return u
        if not isinstance(u, U) or not 0 <= n <= 5000:
            return u
        dt = self.simple(vals[1])
        return A(np.array([self.unum(digest("el", u.k, str(i))) for i in range(n)], dtype=np.int64), dt.dt if isinstance(dt, A) else None)

    def op_shapeless(self, t, sc, *a):
        return self.app(t.op, *[self.ev(x, sc) for x in a])

    # strings
    def op_fmt(self, t, sc, a, spec):
        v = self.simple(self.ev(a, sc))
        if isinstance(v, A) and v.v.size == 0:
            v = ""
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            s = self.ev(spec, sc) if isinstance(spec, Term) else spec
            if isinstance(s, str):
                return format(v, s)
        return self.app("fmt", v, spec if not isinstance(spec, Term) else self.ev(spec, sc))

    def op_str(self, t, sc, *a):
        out = []
        for x in a:
            v = self.ev(x, sc)
            if isinstance(v, U) and v.k in self.arrays and self.arr(v).v.size == 0:
                v = ""
            if isinstance(v, str) and out and isinstance(out[-1], str):
                out[-1] += v
            elif v != "" if isinstance(v, str) else True:
                out.append(v)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return self.app("str", *out)

    def op_attr(self, t, sc, b, n):
        v = self.ev(b, sc)
        if isinstance(v, A) and n in ("isnative", "flags"):
            return self.app("attr", v, n)
        return self.app("attr", v, n)

    def op_isinstance(self, t, sc, a, b):
        v = self.ev(a, sc)
        if isinstance(v, U):
            return self.h("bool", digest("isinst", self.key(v), self.key(self.ev(b, sc))), n=2) == 0
        return self.h("bool", digest("isinst", type(v).__name__, self.key(self.ev(b, sc))), n=2) == 0

    def op_exc(self, t, sc, *a):
        return self.h("exc", self.app("exc", *[self.ev(x, sc) if isinstance(x, Term) else str(x) for x in a]).k, n=6) == 0

    def op_call(self, t, sc, name, *args):
        vals = [self.ev(a, sc) if isinstance(a, Term) else a for a in args]
        f = CALLS.get(name)
        if f is not None:
            pos = [v for v in vals if not (isinstance(v, tuple) and len(v) == 3 and v[0] == "kw")]
            kws = {v[1]: v[2] for v in vals if isinstance(v, tuple) and len(v) == 3 and v[0] == "kw"}
            try:
                r = f(self, *pos, **kws)
                if r is not NotImplemented:
                    return r
            except TypeError:
                pass
        return self.app("call " + name, *vals)

    # loops
    def op_phi(self, t, sc, *a):
        s = sc
        while s is not None:
            if t in s.bind:
                v = s.bind[t]
                return v() if callable(v) else v
            s = s.up
        return U(digest("phi", str(a[1]), t.dg))

    def run(self, L, sc):
        """Scopes of the rounds of a loop, and the final values as functions."""
        m = ("run", L)
        s = sc
        d = deps(L)
        while s is not self.root and not (s.loop in d or not d.isdisjoint(s.bind)):
            s = s.up
        if m in s.memo:
            r = s.memo[m]
            if isinstance(r, Bad):
                raise r
            return r
        try:
            r = self.run_(L, s)
        except Bad as b:
            s.memo[m] = b
            raise
        s.memo[m] = r
        return r

    def lazily(self, t, sc):
        cell = []

        def get():
            if not cell:
                try:
                    cell.append(self.ev(t, sc))
                except Bad as b:
                    cell.append(b)
            if isinstance(cell[0], Bad):
                raise cell[0]
            return cell[0]
        return get

    def run_(self, L, sc):
        cond, phis, inits, nexts, brks = L.args
        state = [self.lazily(x, sc) for x in inits.args]
        rounds = []
        while True:
            it = Scope(sc, dict(zip(phis.args, state)), L)
            if not self.truth(self.ev(cond, it)):
                return rounds, state
            rounds.append(it)
            if len(rounds) > 60:
                raise Bad("unknown", "rounds")
            for b in brks.args:
                if self.truth(self.ev(b.args[0], it)):
                    return rounds, [self.lazily(x, it) for x in b.args[1].args]
            state = [self.lazily(x, it) for x in nexts.args]
            # variables are needed in order, which keeps the recursion shallow
            for f in state:
                try:
                    f()
                except Bad:
                    pass

    def op_out(self, t, sc, L, i):
        return self.run(L, sc)[1][i]()

    def op_cur(self, t, sc, L, i):
        s = sc
        while s is not None:
            if s.loop is L:
                v = s.bind[L.args[1].args[i]]
                return v() if callable(v) else v
            s = s.up
        raise Bad("unknown", "round of a loop")

    # -------------------------------------------------------------------------------------------- effects
    def rounds_of(self, t):
        """Scopes for every combination of rounds of the loops whose running round t speaks of."""
        loops, todo = [], [x for x in deps(t) if x.op == "loop"]
        while todo:
            L = todo.pop()
            if L in loops:
                loops.remove(L)
            loops.append(L)
            todo.extend(x for x in deps(L) if x.op == "loop")
        # outer loops first
        order = []
        while loops:
            for L in loops:
                if not any(x in loops for x in deps(L)):
                    order.append(L)
                    loops.remove(L)
                    break
            else:
                raise Bad("unknown", "loops")
        scopes = [self.root]
        for L in order:
            out = []
            for s in scopes:
                try:
                    rounds = self.run(L, s)[0]
                except Bad as b:
                    # the loop need not be reached
                    raise Bad("unknown", b.why)
                for r in rounds:
                    out.append(Scope(s, r.bind, L) if r.up is not s else r)
            scopes = out
            if len(scopes) > 3000:
                raise Bad("unknown", "rounds")
        return scopes

    def happen(self, cond, data):
        """Data of the occurrences of an effect."""
        out = []
        for s in self.rounds_of(T("tuple", cond, data)):
            if self.truth(self.ev(cond, s)):
                out.append(self.key(self.ev(data, s)))
        return out

    def ever(self, cond):
        return any(self.truth(self.ev(cond, s)) for s in self.rounds_of(cond))


def f_searchsorted(w, a=None, v=None, side="left", **kw):
    if kw or not isinstance(side, str):
        return NotImplemented
    x, y = w.operand(w.arr(a)), w.simple(v)
    y = w.operand(w.arr(y)) if isinstance(y, (U, tuple, A)) else w.num(y)
    return w.put(np.searchsorted(x, y, side=side), "dt:int64")


def f_where(w, condition=None, x=None, y=None):
    if x is None:
        return NotImplemented
    return w.put(np.where(w.operand(condition), w.operand(x), w.operand(y)))


def f_argsort(w, arr=None):
    v = w.arr(arr)
    return A(np.argsort(w.operand(v), kind="stable"), "dt:int64")


def f_repeat(w, a=None, repeats=None):
    x, n = w.operand(a), w.operand(repeats)
    if np.any(np.asarray(n) < 0):
        raise Bad("error", "negative repeats")
    return w.put(np.repeat(x, n))


def f_unique(w, ar=None, return_index=False, return_inverse=False, return_counts=False):
    r = np.unique(w.operand(w.arr(ar)), return_index=w.truth(return_index), return_inverse=w.truth(return_inverse), return_counts=w.truth(return_counts))
    return tuple(A(x) for x in r) if isinstance(r, tuple) else A(r)


def f_elem(f):
    def g(w, x=None, a=None, **kw):
        if kw:
            return NotImplemented
        v = w.operand(x if x is not None else a)
        return w.put(f(v))
    return g


def f_sum(w, a=None, dtype=None, axis=None):
    v = w.simple(a)
    x = w.unbool(np.asarray(w.operand(w.arr(v) if isinstance(v, U) else v)))
    return w.put(np.sum(x, axis=None if axis is None else w.index(axis)))


def f_diff(w, a=None):
    return w.put(np.diff(w.unbool(w.operand(w.arr(a)))))


def f_append(w, arr=None, values=None):
    return w.put(np.append(w.operand(w.arr(arr)), w.operand(values)))


def f_clip(w, a=None, a_min=None, a_max=None):
    return w.put(np.clip(w.operand(a), w.operand(a_min), w.operand(a_max)))


def f_fullarr(w, shape=None, fill_value=None, dtype=None):
    return A(np.full(w.mkshape(shape), w.operand(fill_value)), w.dkey(dtype) if dtype is not None else None)


def f_divmod(w, a, b):
    x, y = w.num(a), w.num(b)
    if y == 0:
        raise Bad("error", "zero")
    return divmod(x, y)


def f_arraysize(w, v, *r):
    return NotImplemented


def f_bincount(w, x=None, weights=None, minlength=0):
    v = w.operand(w.arr(x))
    return w.put(np.bincount(v, None if weights is None else w.operand(weights), w.index(minlength or 0)))


CALLS = {"numpy.searchsorted": f_searchsorted, "virgo.mpi.parallel_sort.my_argsort": f_argsort, "numpy.where": f_where, "numpy.repeat": f_repeat, "numpy.unique": f_unique,
         "numpy.floor": f_elem(np.floor), "numpy.ceil": f_elem(np.ceil), "numpy.abs": f_elem(np.abs), "numpy.sqrt": None,
         "numpy.sum": f_sum, "numpy.diff": f_diff, "numpy.append": f_append, "numpy.clip": f_clip, "numpy.full": f_fullarr,
         "builtins.divmod": f_divmod, "divmod": f_divmod, "numpy.bincount": f_bincount,
         "numpy.flatnonzero": lambda w, a=None: w.put(np.flatnonzero(w.operand(w.arr(a)))),
         "numpy.count_nonzero": lambda w, a=None: int(np.count_nonzero(w.operand(w.arr(a)))),
         "numpy.sort": lambda w, a=None: w.put(np.sort(w.operand(w.arr(a)))),
         "numpy.cumsum": lambda w, a=None: w.put(np.cumsum(w.operand(w.arr(a)))),
         "numpy.isin": lambda w, element=None, test_elements=None: w.put(np.isin(w.operand(w.arr(element)), w.operand(w.arr(test_elements)))),
         "numpy.maximum.accumulate": lambda w, a=None: w.put(np.maximum.accumulate(w.operand(w.arr(a))))}
CALLS = {k: v for k, v in CALLS.items() if v}

SEPARATED, AGREE, OPEN = "separated", "agree", "open"


def telling(seen):
    """Do the values on which both sides agree tell anything?"""
    if any(isinstance(v, bool) for v in seen):
        return len(seen) == 2 and min(seen.values()) >= 2
    if len(seen) > 1 and not any(re.search(r"\bn-?\d|A\(", v) for v in seen):
        # wholly opaque values: only the conditions vary
        return len(seen) >= ENOUGH or min(seen.values()) >= 2
    return len(seen) >= ENOUGH


def interpret(run, seed, tags, pools, arrays, nums, sides=(0, 1), poke=None):
    """[(ok, value or Bad)] of the sides in one interpretation, and the world."""
    for attempt in range(40):
        w = World(seed, pools, arrays, nums, tags)
        w.poke = poke
        r = []
        try:
            for side in sides:
                try:
                    r.append((True, run(w, side)))
                    if side == 0:
                        w.softs = w.soft
                except Bad as b:
                    r.append((False, b))
                except RecursionError:
                    r.append((False, Bad("unknown", "recursion")))
        except Restart:
            continue
        return r, w
    return None, None


class Difference(object):
    """A subterm of one side that the other side lacks, although it knows all its operands."""

    def __init__(self, side, term):
        self.side, self.term, self.seen, self.met = side, term, {}, 0
        self.near = self.far = False

    def exercised(self):
        if self.term.isb or any(isinstance(v, bool) for v in self.seen):
            return len(self.seen) == 2
        return sum(self.seen.values()) >= 2

    def exercise(self, run, seed, tags, pools, arrays, nums, value):
        """Would another value of the subterm show in this interpretation?"""
        p, q, n = {k: set(v) for k, v in pools.items()}, set(arrays), set(nums)
        r, w = interpret(run, seed, tags, p, q, n, (self.side,), self.term)
        if r is None:
            return
        self.met += bool(w.poked)
        ok, v = r[0]
        if ok and v == value or not ok and v.kind != "error":
            return
        if (p, q, n) != (pools, arrays, nums):
            r, _ = interpret(run, seed, tags, p, q, n, (self.side,))
            if r is None or r[0] == (ok, v):
                return
        for x in w.poked:
            self.seen[x] = self.seen.get(x, 0) + 1


def relevant(ts):
    """The subterms of ts, of loops only what belongs to the variables read."""
    seen, needed, owners = {}, set(), {}
    stack = list(ts)

    def need(L, i):
        if (L, i) in needed:
            return
        needed.add((L, i))
        cond, phis, inits, nexts, brks = L.args
        if L not in seen:
            seen[L] = True
            stack.append(cond)
            stack.extend(b.args[0] for b in brks.args)
            for j, v in enumerate(phis.args):
                owners.setdefault(v, []).append((L, j))
                if v in seen:
                    need(L, j)
        stack.extend((inits.args[i], nexts.args[i]))
        stack.extend(b.args[1].args[i] for b in brks.args)

    while stack:
        x = stack.pop()
        if x.op in ("out", "cur"):
            need(x.args[0], x.args[1])
            seen[x] = True
            continue
        if x in seen:
            continue
        seen[x] = True
        if x.op == "phi":
            for L, j in owners.get(x, ()):
                need(L, j)
        elif x.op == "loop":
            for i in range(len(x.args[2].args)):
                need(x, i)
        else:
            stack.extend(children(x))
    return seen


_shape = {}


def shape(t):
    """Digest of a term in which loop variables have no identity."""
    if t in _shape:
        return _shape[t]
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _shape:
            continue
        ch = children(x)
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c not in _shape)
            continue
        if x.op == "phi":
            _shape[x] = "phi"
        elif x.op == "poly":
            _shape[x] = digest("poly", *sorted("%s*%s" % (k, ",".join(sorted(_shape[c] for c in m))) for m, k in x.args[0].d.items()))
        else:
            _shape[x] = digest(x.op, *[_shape[a] if isinstance(a, Term) else repr(a) for a in x.args])
    return _shape[t]


def differences(ss, aa):
    """The subterms of one side, of which the other side knows all operands but not the subterm."""
    S, A = relevant(ss), relevant(aa)
    out = {}
    for near, sh in ((True, shape), (False, lambda t: t)):
        KS, KA = set(map(sh, S)), set(map(sh, A))
        for side, X, Y in ((0, S, KA), (1, A, KS)):
            routed = []
            for t in X:
                if sh(t) in Y or t.op in STRUCTURAL:
                    continue
                if not near and t.op in ("out", "cur") and t.args[0] not in Y:
                    routed.append(t)
                elif all(sh(c) in Y or c.op in STRUCTURAL for c in children(t)):
                    d = out.setdefault((side, t), Difference(side, t))
                    d.near |= near
                    d.far |= not near
            for t in routed:
                # the loop differs: so does something in it, unless only its variables are exchanged
                inner = subterms(t.args[0])
                if not any(d.side == side and d.far and d.term in inner for d in out.values()):
                    out.setdefault((side, t), Difference(side, t)).far = True
    return list(out.values())


def idle(diffs):
    """The differences of a side if too few of them showed, in all or within loops."""
    out = []
    for side in (0, 1):
        for near in (True, False):
            ds = [d for d in diffs if d.side == side and (d.near if near else d.far)]
            inner = [d for d in ds if deps(d.term)]
            seen = sum(bool(d.seen) for d in inner)
            if 3 * sum(bool(d.seen) for d in ds) < len(ds):
                out.extend(ds)
            elif len(inner) - seen > max(1, len(inner) // 3) if near else 5 * seen < 2 * len(inner):
                out.extend(inner)
    return out


STRUCTURAL = {"phi", "brk", "loop", "undef", "empty"}


def identity(run, tags=True, trials=TRIALS, diffs=()):
    """run(world, side) -> comparable value.  Do the two sides agree in every interpretation tried?"""
    same = bad = failed = 0
    why, seen = {}, {}
    for seed in range(trials):
        pools, arrays, nums = {}, set(), set()
        r, w = interpret(run, seed, tags, pools, arrays, nums)
        if r is None:
            bad += 1
            continue
        (oks, s), (oka, a) = r
        if oks and oka:
            if s != a:
                if w.softs:
                    bad += 1
                    continue
                return SEPARATED, "interpretation %d" % seed
            same += 1
            seen[s] = seen.get(s, 0) + 1
            for d in diffs:
                if not d.exercised():
                    d.exercise(run, seed, tags, pools, arrays, nums, s)
            if same >= 30 and telling(seen) and (same >= 90 or all(d.exercised() for d in diffs)) and not idle(diffs):
                break
        elif not w.softs and (oks and (a.kind == "error" or a.why == "rounds") or oka and s.why == "rounds"):
            # operations that fail in passing are no difference: the interpretation may be ill-typed
            failed += 1
            failure = "interpretation %d: %s" % (seed, (s if oka else a).why)
        else:
            bad += 1
            for ok, x in r:
                if not ok:
                    why[x.why] = why.get(x.why, 0) + 1
        if bad >= 60 and same == 0:
            break
    if failed > max(1, same // 8):
        return SEPARATED, failure
    if same >= ENOUGH and telling(seen):
        left = idle(diffs)
        if not left:
            return AGREE, ""
        return OPEN, "no influence of " + "; ".join(("expected " if d.side == 0 else "found ") + show(d.term, 3)[:80] for d in left if not d.seen)[:300]
    return OPEN, ",".join(sorted(why, key=lambda k: -why[k])[:3])


def element_types(t):
    return set(x for x in subterms(t) if x.op == "dt")


def allowing(run, s, a):
    """As identity; element types that cannot be derived only matter if the terms mention different ones."""
    diffs = differences(s, a)
    r = identity(run, diffs=diffs)
    if r[0] == SEPARATED and set().union(*map(element_types, s)) == set().union(*map(element_types, a)):
        r = identity(run, False, diffs=differences(s, a))
    return r


def of_terms(s, a):
    def run(w, side):
        t = (s, a)[side]
        if t.isb:
            return w.ever(t)
        return w.key(w.ev(t, w.root))
    return allowing(run, [s], [a])


def of_items(ss, aa, flat=False, failing=None):
    """flat: shapes of contiguous buffers do not matter; failing: conditions under which nothing is compared"""
    def run(w, side):
        out = []
        w.flat = flat
        if failing and any(w.ever(t) for t in failing[side]):
            return ""
        for it in (ss, aa)[side]:
            out.extend(w.happen(it.cond, it.data))
        return ";".join(sorted(out))
    return allowing(run, *[[t for it in x for t in (it.cond, it.data)] for x in (ss, aa)])


def of_either(ss, aa):
    """Is one of the conditions met?"""
    def run(w, side):
        return any(w.ever(t) for t in (ss, aa)[side])
    return identity(run)
