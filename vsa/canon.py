"""Canonical digests of terms.

canon(t) identifies t up to renaming of loop variables, order of commutative operands, order of decision atoms,
variables a loop carries without using them, and duplicated loop variables.  Loop variables are identified by
partition refinement of the loop's transition system, so equal digests mean equal values on every run.
"""
import hashlib
from .terms import *
from .terms import _poly_dict

_free = {}
EMPTY = frozenset()


def free(t):
    """Loop variables occurring free in t."""
    r = _free.get(t)
    if r is not None:
        return r
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _free:
            continue
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in children(x) if c not in _free)
            continue
        if x.op == "phi":
            f = _free.get(x.args[2], EMPTY) | {x}
        else:
            f = EMPTY
            for c in children(x):
                g = _free[c]
                if g:
                    f = f | g
            if x.op == "loop":
                f = f - frozenset(x.args[1].args)
        _free[x] = f
    return _free[t]


_used = {}


def used(t):
    """Free loop variables t really depends on: an inner loop's unneeded variables do not count."""
    r = _used.get(t)
    if r is not None:
        return r
    if not free(t):
        _used[t] = EMPTY
        return EMPTY
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _used:
            continue
        if not free(x):
            _used[x] = EMPTY
            continue
        if x.op in ("out", "cur"):
            L, i = x.args
            cond, phis, inits, nexts, brks = L.args
            if not done:
                stack.append((x, True))
                stack.append((cond, False))
                for b in brks.args:
                    stack.append((b.args[0], False))
                for k in range(len(phis.args)):
                    stack.append((inits.args[k], False))
                    stack.append((nexts.args[k], False))
                    for b in brks.args:
                        stack.append((b.args[1].args[k], False))
                continue
            f = _used[cond]
            for b in brks.args:
                f = f | _used[b.args[0]]
            for k in needs(L, i):
                f = f | _used[inits.args[k]] | _used[nexts.args[k]]
                for b in brks.args:
                    f = f | _used[b.args[1].args[k]]
            f = f - frozenset(phis.args)
        else:
            if not done:
                stack.append((x, True))
                stack.extend((c, False) for c in children(x) if c not in _used)
                continue
            if x.op == "phi":
                f = _used.get(x.args[2], EMPTY) | {x}
            else:
                f = EMPTY
                for c in children(x):
                    f = f | _used[c]
                if x.op == "loop":
                    f = f - frozenset(x.args[1].args)
        _used[x] = f
    return _used[t]


class Env(object):
    __slots__ = ("map", "cache", "parent", "loops")

    def __init__(self, map_, parent):
        self.map, self.parent, self.cache, self.loops = map_, parent, {}, {}


_tick = [0]
ROOT = Env({}, None)


def H(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else repr(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def canon(t, env=ROOT):
    f = free(t)
    while env.parent is not None and not any(p in env.map for p in f):
        env = env.parent
    r = env.cache.get(t)
    _tick[0] += 1
    if _tick[0] & 65535 == 0:
        over_budget()
    if r is None:
        r = _canon(t, env)
        env.cache[t] = r
    return r


COMM = {"eq", "min", "max", "bitand", "bitor", "bitxor", "logical_and", "logical_or", "set", "mulx"}


def _canon(t, env):
    op = t.op
    if op == "phi":
        e = env
        while e is not None:
            if t in e.map:
                return e.map[t]
            e = e.parent
        return H("freephi", t.args[1], canon(t.args[2], env))
    if op == "poly":
        return poly_h(t, env)
    if op == "ref":
        return H("ref")
    if op == "c":
        v = t.args[0]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return H("c", type(v).__name__, v)
        return H("c", "num", int(v) if v == v and abs(v) != float("inf") and v == int(v) else v)
    if op == "ite":
        return dd(t, env)
    if op == "lt0":
        h, pol = lt_atom(t, env)
        return H("ite", h, canon(TRUE), canon(FALSE)) if pol else H("ite", h, canon(FALSE), canon(TRUE))
    if is_bool(t):
        return H("ite", atom_h(t, env), canon(TRUE), canon(FALSE))
    if op == "func":
        if "<lambda>" in t.args[0]:
            return H("lambda", t.args[0].split("#")[-1])
        return H("func", t.args[0].split("@")[0])
    if op in ("out", "cur"):
        return H(op, out_h(t.args[0], t.args[1], env))
    return plain(t, env)


def plain(t, env):
    if t.op == "eq" and t.args[0].op in ("poly", "c") and t.args[1].op in ("poly", "c"):
        # x-y == 0 and y-x == 0 are the same condition
        acc = {}
        for p, w in zip(t.args, (1, -1)):
            if p.op == "c" and (isinstance(p.args[0], bool) or not isinstance(p.args[0], (int, float))):
                break
            for m, c in _poly_dict(p).items():
                k = tuple(sorted(canon(a, env) for a in m))
                acc[k] = acc.get(k, 0) + w * c
        else:
            return H("eq0", min(poly_key(acc), poly_key({k: -c for k, c in acc.items()})))
    if t.op in COMM:
        return H(t.op, *sorted(canon(a, env) for a in t.args))
    if t.op == "dict":
        return H(t.op, *sorted(canon(a, env) for a in t.args))
    return H(t.op, *[canon(a, env) if isinstance(a, Term) else "v%s:%r" % (type(a).__name__, a) for a in t.args])


def poly_h(t, env, shift=None):
    d = _poly_dict(t)
    acc = {}
    for m, c in d.items():
        k = tuple(sorted(canon(a, env) for a in m))
        acc[k] = acc.get(k, 0) + c
    return poly_key(acc)


def poly_key(acc):
    acc = {k: c for k, c in acc.items() if c != 0}
    if not acc:
        return canon(C(0))
    if len(acc) == 1:
        (k, c), = acc.items()
        if len(k) == 1 and c == 1:
            return k[0]
        if k == ():
            return canon(C(c))
    return H("poly", *["%s*%s" % (num(c), ",".join(k)) for k, c in sorted(acc.items())])


def num(c):
    try:
        if c == int(c):
            return str(int(c))
    except Exception:
        pass
    return repr(c)


def lt_atom(t, env):
    """p<0 over integers is the negation of -p-1<0; pick one representative."""
    p = t.args[0]
    acc = {}
    for m, c in _poly_dict(p).items():
        k = tuple(sorted(canon(a, env) for a in m))
        acc[k] = acc.get(k, 0) + c
    acc = {k: c for k, c in acc.items() if c != 0}
    if not all(isinstance(c, int) for c in acc.values()):
        return H("lt0", poly_key(acc)), True
    o = {k: -c for k, c in acc.items()}
    o[()] = o.get((), 0) - 1
    a, b = poly_key(acc), poly_key(o)
    return (H("lt0", a), True) if a <= b else (H("lt0", b), False)


def atom_h(t, env):
    return plain(t, env)


def datoms(t):
    """Decision atoms of a diagram."""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            if x.args[0] not in seen:
                out.append(x.args[0])
                seen.add(x.args[0])
            stack.extend(x.args[1:])
        elif is_bool(x) and x.op != "c":
            out.append(x)
    return out


def dd(t, env):
    """Digest of a decision diagram independent of the order of its atoms."""
    ah = {}
    ats = datoms(t)
    if len(ats) > 12:
        if t.op == "ite":
            c = t.args[0]
            if c.op == "lt0":
                h, pol = lt_atom(c, env)
            else:
                h, pol = (atom_h(c, env) if is_bool(c) else H("truthy", canon(c, env))), True
            hi, lo = canon(t.args[1], env), canon(t.args[2], env)
            return H("ite", h, hi, lo) if pol else H("ite", h, lo, hi)
    for a in ats:
        if a.op == "lt0":
            ah[a] = lt_atom(a, env)
        elif is_bool(a):
            ah[a] = (atom_h(a, env), True)
        else:
            ah[a] = (H("truthy", canon(a, env)), True)
    boolroot = is_bool(t)

    def top(x):
        if x.op == "ite":
            return x.args[0]
        if is_bool(x) and x.op != "c":
            return x
        return None
    sets = {}

    def aset(x):
        r = sets.get(x)
        if r is None:
            if x.op == "ite":
                r = aset(x.args[1]) | aset(x.args[2]) | {ah[x.args[0]][0]}
            elif is_bool(x) and x.op != "c":
                r = frozenset([ah[x][0]])
            else:
                r = frozenset()
            sets[x] = r
        return r
    cofc = {}

    def cof(x, h, v):
        if h not in aset(x):
            return x
        k = (x, h, v)
        r = cofc.get(k)
        if r is None:
            a = top(x)
            if x.op != "ite":
                r = TRUE if (v == ah[a][1]) else FALSE
            elif ah[a][0] == h:
                r = cof(x.args[1] if v == ah[a][1] else x.args[2], h, v)
            else:
                hi, lo = cof(x.args[1], h, v), cof(x.args[2], h, v)
                if hi is lo:
                    r = hi
                elif hi is TRUE and lo is FALSE and is_bool(a):
                    r = a
                else:
                    r = T("ite", a, hi, lo)
            cofc[k] = r
        return r
    memo = {}
    budget = [4000]

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        s = aset(x)
        if not s:
            r = canon(x, env)
        else:
            budget[0] -= 1
            if budget[0] < 0:
                r = H("bigdd", x.dg)
            else:
                h = min(s)
                hi, lo = go(cof(x, h, True)), go(cof(x, h, False))
                r = hi if hi == lo else H("ite", h, hi, lo)
        memo[x] = r
        return r
    # pre-register atoms reachable only after cofactoring (none: cofactors introduce no new atoms)
    return go(t)


def loop_needs(L, i):
    """Loop variables on which the exit value of variable i depends."""
    cond, phis, inits, nexts, brks = L.args
    idx = {p: k for k, p in enumerate(phis.args)}
    need, todo = set(), [i]

    def see(t):
        for p in used(t):
            k = idx.get(p)
            if k is not None and k not in need:
                todo.append(k)
    see(cond)
    for b in brks.args:
        see(b.args[0])
    while todo:
        k = todo.pop()
        if k in need:
            continue
        need.add(k)
        see(nexts.args[k])
        for b in brks.args:
            see(b.args[1].args[k])
    return frozenset(need)


_needs = {}


def needs(L, i):
    r = _needs.get((L, i))
    if r is None:
        r = loop_needs(L, i)
        _needs[(L, i)] = r
    return r


def loop_classes(L, need, env):
    key = (L, need)
    r = env.loops.get(key)
    if r is not None:
        return r
    cond, phis, inits, nexts, brks = L.args
    ks = sorted(need)
    h = {k: H("phi", canon(inits.args[k], env)) for k in ks}
    n = len(set(h.values()))
    rounds = 0
    while True:
        rounds += 1
        e = Env({phis.args[k]: h[k] for k in ks}, env)
        h2 = {}
        for k in ks:
            h2[k] = H("step", h[k], canon(nexts.args[k], e), *[canon(b.args[1].args[k], e) for b in brks.args])
        n2 = len(set(h2.values()))
        if n2 == n or rounds > 40:
            break
        h, n = h2, n2
    tail = H("loop", rounds, canon(cond, e), *([canon(b.args[0], e) for b in brks.args] + sorted(set(h2.values()))))
    r = (tail, h2, h)
    env.loops[key] = r
    return r


def out_h(L, i, env):
    need = needs(L, i)
    tail, h2, _ = loop_classes(L, need, env)
    return H("out", tail, h2[i])


def same(a, b):
    return a is b or canon(a) == canon(b)
