"""Comparison of a specified term with the term derived from the current source.

Verdicts: EQ (same value on every run), DIFF (the values differ, with the differing parts named), UNK (the
current code uses a construct the normal form cannot relate to the specification; no verdict is given).
"""
from .terms import *
from .terms import _poly_dict
from .terms import _lt0
from .canon import canon, Env, ROOT, free, datoms, lt_atom, atom_h, H, same, needs, loop_classes

EQ, DIFF, UNK = "eq", "diff", "unk"

# operators whose normal form is complete enough that a structural mismatch between two of them is a difference
KNOWN = {"c", "sym", "comm", "attr", "idx", "slice", "tuple", "list", "poly", "floordiv", "div", "mod", "ite", "lt0", "eq",
         "isnone", "min", "max", "cumsum", "sum", "dim", "ndim", "shape", "size", "rank", "commsize", "zeros", "empty",
         "ones", "filled", "store", "argsort", "cast", "dt", "dtype", "flatc", "str", "fmt", "prod", "kw", "split", "full",
         "bitxor", "bitand", "bitor", "shl", "shr", "any", "all", "amin", "amax", "arange", "truthy", "nonzero", "in",
         "logical_and", "logical_or", "invert", "npconcat", "concat", "append", "dict", "abs", "undef", "reshape", "pow",
         "call", "new", "ext", "func", "class", "bound", "npdtype", "xchg", "exc1", "exc", "asarray", "mpitype",
         "exc0", "is", "undefname", "isinstance", "hasattr", "pyint", "pyfloat", "spec", "set", "round"}

# functions whose result in general differs from all of their arguments and that rewritings do not introduce
CHANGING = {"numpy.unique", "numpy.sort", "builtins.sorted", "builtins.reversed", "numpy.flip", "numpy.roll", "numpy.round",
            "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.trunc", "numpy.sqrt", "numpy.log", "numpy.exp", "numpy.log10",
            "numpy.random.permutation", "numpy.fliplr", "numpy.flipud", "numpy.nan_to_num"}


def known(t):
    return t.op in KNOWN or t.op.startswith("mpi_")


class Scope(object):
    """A pair of loops under comparison and the pairing of their variables found so far."""

    def __init__(self, Ls, La, parent):
        self.Ls, self.La, self.parent = Ls, La, parent
        self.ps, self.pa = Ls.args[1].args, La.args[1].args
        self.is_ = {p: k for k, p in enumerate(self.ps)}
        self.ia = {p: k for k, p in enumerate(self.pa)}
        self.fwd, self.bwd, self.settled = {}, {}, frozenset()
        self.es = self.ea = None

    def pair(self, i, j):
        self.fwd[i] = j
        self.bwd[j] = i
        self.es = self.ea = None

    def envs(self):
        up = self.parent.envs() if self.parent else (ROOT, ROOT)
        if self.es is None or self.es.parent is not up[0] or self.ea.parent is not up[1]:
            # a variable not paired yet stands for its own behaviour, so it only equals one that behaves the same
            self.es = Env({p: "P%d.%d" % (id(self), i) if i in self.fwd and i not in self.settled else solo(self.Ls, i, up[0]) for i, p in enumerate(self.ps)}, up[0])
            self.ea = Env({p: "P%d.%d" % (id(self), self.bwd[j]) if j in self.bwd and self.bwd[j] not in self.settled else solo(self.La, j, up[1])
                           for j, p in enumerate(self.pa)}, up[1])
        return self.es, self.ea


class Comparer(object):
    def __init__(self, vocab=None, budget=20000):
        self.vocab = vocab          # names of opaque calls and operators that occur in the specification
        self.reasons, self.unks = [], []
        self.given, self.alias = {}, {}     # conditions of the case under comparison
        self.budget = budget
        self.retries = 400

    def cmp(self, s, a, sc=None, depth=0):
        if s is a and (sc is None or not free(s)):
            return EQ
        es, ea = sc.envs() if sc else (ROOT, ROOT)
        if canon(s, es) == canon(a, ea):
            return EQ
        self.budget -= 1
        if self.budget < 0 or depth > 300:
            return self.unk("budget")
        return self._cmp(s, a, sc, depth + 1)

    def eqd(self, s, a, sc):
        es, ea = sc.envs() if sc else (ROOT, ROOT)
        return canon(s, es) == canon(a, ea)

    def unk(self, why):
        self.unks.append(why)
        return UNK

    def diff(self, s, a):
        self.reasons.append((s, a))
        return DIFF

    def foreign(self, a):
        """Does a contain a construct outside the specification's vocabulary?"""
        for x in subterms(a):
            if x.op in ("out", "cur", "phi", "loop", "brk"):
                continue
            if not known(x) and (self.vocab is None or "op " + x.op not in self.vocab):
                self.stranger = x.op
                return True
            if x.op == "call" and self.vocab is not None and x.args[0] not in self.vocab and x.args[0] not in CHANGING:
                self.stranger = x.args[0]
                return True
        return False

    def unfill(self, t):
        while t.op == "filled" and len(t.args) == 2:
            t = t.args[1]
        return t

    def mismatch(self, s, a):
        if self.foreign(a):
            return self.unk("construct outside the specification: " + self.stranger)
        if loopy(s) != loopy(a):
            return self.unk("a loop on one side only")
        return self.diff(s, a)

    def _all(self, pairs, sc, depth, struct=False):
        rs = []
        for x, y in pairs:
            if isinstance(x, Term) and isinstance(y, Term):
                rs.append(self.cmp(x, y, sc, depth))
            else:
                rs.append(EQ if x == y and type(x) is type(y) else DIFF)
        return self.worst(rs, struct)

    def worst(self, rs, struct=False):
        order = (DIFF, UNK) if struct else (UNK, DIFF)
        for v in order:
            if v in rs:
                return v
        return EQ

    def _cmp(self, s, a, sc, depth):
        if s.op == "phi" and a.op == "phi":
            c = sc
            while c is not None:
                i, j = c.is_.get(s), c.ia.get(a)
                if i is not None and j is not None:
                    if i in c.fwd or j in c.bwd:
                        return EQ if c.fwd.get(i) == j else self.clash(c, i, j, s, a)
                    c.pair(i, j)
                    return EQ
                if (i is None) != (j is None):
                    return self.deeper(s, a)
                c = c.parent
            return self.deeper(s, a)
        if s.op == "ite" or a.op == "ite" or (is_bool(s) and is_bool(a)):
            return self.cmp_dd(s, a, sc, depth)
        if (s.op == "filled") != (a.op == "filled"):
            # an array assigned as a whole against a new array with those values (its type may differ)
            x, y = self.unfill(s), self.unfill(a)
            if x is not None and y is not None and (x is not s or y is not a):
                r = self.cmp(x, y, sc, depth)
                return self.unk("filled") if r == EQ else r
        if s.op == "c" and a.op == "c":
            return self.diff(s, a)
        if s.op == "poly" or a.op == "poly":
            if s.op != "poly" and not arith(s) or a.op != "poly" and not arith(a):
                return self.mismatch(s, a)
            return self.cmp_poly(s, a, sc, depth)
        if s.op == a.op and s.op in ("out", "cur"):
            return self.cmp_out(s, a, sc, depth)
        if s.op != a.op:
            if (s.op == "phi") != (a.op == "phi") and loopy(a):
                return self.unk("loop variable against a loop")
            return self.mismatch(s, a)
        if s.op in ("min", "max", "bitand", "bitor", "bitxor", "logical_and", "logical_or", "set", "eq", "mulx"):
            if len(s.args) != len(a.args):
                return self.mismatch(s, a)
            return self.cmp_multiset(list(s.args), list(a.args), s, a, sc, depth)
        if s.op == "call" and s.args[0] != a.args[0]:
            return self.mismatch(s, a)
        if s.op == "func" and ("<lambda>" in s.args[0] or "<lambda>" in a.args[0]):
            if "<lambda>@" in s.args[0] and "<lambda>@" in a.args[0] and "#s" in s.args[0] and "#s" in a.args[0]:
                return self.diff(s, a)
            return self.unk("functions")
        if s.op == "dict":
            ds, da = {x.args[0]: x.args[1] for x in s.args}, {x.args[0]: x.args[1] for x in a.args}
            if set(ds) != set(da):
                return self.mismatch(s, a)
            return self._all([(ds[k], da[k]) for k in ds], sc, depth, True)
        if len(s.args) != len(a.args):
            return self.mismatch(s, a)
        if any(isinstance(x, Term) != isinstance(y, Term) for x, y in zip(s.args, a.args)):
            return self.mismatch(s, a)
        for x, y in zip(s.args, a.args):
            if not isinstance(x, Term) and x != y:
                return self.mismatch(s, a)
        return self._all(list(zip(s.args, a.args)), sc, depth, s.op in ("tuple", "list", "str", "kw"))

    def deeper(self, s, a):
        """Variables of loops that do not correspond to each other."""
        if "h" in (s.args[1], a.args[1]) or "m" in (s.args[1], a.args[1]):
            return self.unk("state of different loops")
        return self.diff(s, a)

    def clash(self, c, i, j, s, a):
        """Variables i and j meet although one of them is paired already."""
        up = c.parent.envs() if c.parent else (ROOT, ROOT)
        i2, j2 = c.bwd.get(j, i), c.fwd.get(i, j)
        if solo(c.La, j, up[1]) == solo(c.La, j2, up[1]) and solo(c.Ls, i, up[0]) == solo(c.Ls, i2, up[0]):
            return EQ
        if (i not in c.fwd or i in c.settled) and (j not in c.bwd or c.bwd[j] in c.settled):
            return self.diff(s, a)
        return self.unk("pairing of loop variables")

    def match(self, xs, ys, sc):
        """Remove pairs of equal terms from two lists."""
        es, ea = sc.envs() if sc else (ROOT, ROOT)
        hy = [(canon(y, ea), y) for y in ys]
        rest = []
        for x in xs:
            h = canon(x, es)
            for k, (g, y) in enumerate(hy):
                if g == h:
                    del hy[k]
                    break
            else:
                rest.append(x)
        return rest, [y for _, y in hy]

    def cmp_multiset(self, xs, ys, s, a, sc, depth):
        xs, ys = self.match(xs, ys, sc)
        if not xs and not ys:
            return EQ
        if len(xs) == len(ys):
            # pair operands of the same shape in order
            by = {}
            for y in ys:
                by.setdefault(y.op, []).append(y)
            if all(len(v) == 1 for v in by.values()) and all(len(by.get(x.op, [])) == 1 for x in xs) \
                    and len(set(x.op for x in xs)) == len(xs):
                return self._all([(x, by[x.op][0]) for x in xs], sc, depth)
            if len(xs) == 1:
                return self.cmp(xs[0], ys[0], sc, depth)
        if any(self.foreign(y) for y in ys) or any(loopy(y) for y in ys) != any(loopy(x) for x in xs):
            return self.unk("operands")
        return self.diff(s, a)

    def cmp_poly(self, s, a, sc, depth):
        es, ea = sc.envs() if sc else (ROOT, ROOT)

        def table(t, e):
            out = {}
            for m, c in _poly_dict(t).items():
                k = tuple(sorted(canon(x, e) for x in m))
                if k in out:
                    out[k] = (out[k][0], out[k][1] + c)
                else:
                    out[k] = (m, c)
            return out
        ts, ta = table(s, es), table(a, ea)
        ls = [(m, c) for k, (m, c) in ts.items() if ta.get(k, (0, 0))[1] != c]
        la = [(m, c) for k, (m, c) in ta.items() if ts.get(k, (0, 0))[1] != c]
        if not ls and not la:
            return EQ
        if len(ls) == 1 and len(la) == 1 and len(ls[0][0]) == len(la[0][0]) and ls[0][1] == la[0][1] and ls[0][0]:
            return self.cmp_multiset(list(ls[0][0]), list(la[0][0]), s, a, sc, depth)
        if len(ls) == len(la) and len(ls) <= 4 and ls:
            # same shape up to the loop variables: pair terms with the same coefficient and operators
            key = lambda mc: (num_key(mc[1]), tuple(sorted(x.op for x in mc[0])))
            ks, ka = [key(x) for x in ls], [key(x) for x in la]
            if sorted(ks) == sorted(ka) and len(set(ks)) == len(ks):
                o = {key(x): x for x in la}
                return self._all2([(list(m), list(o[key((m, c))][0])) for m, c in ls], s, a, sc, depth)
        for m, c in la:
            if any(self.foreign(x) for x in m):
                return self.unk("term outside the specification: " + self.stranger)
        lo = lambda L: any(loopy(x) for m, c in L for x in m)
        if lo(ls) != lo(la):
            return self.unk("a loop in one sum only")
        return self.diff(s, a)

    def _all2(self, pairs, s, a, sc, depth):
        return self.worst([self.cmp_multiset(x, y, s, a, sc, depth) for x, y in pairs])

    def cmp_dd(self, s, a, sc, depth):
        """Compare two decision diagrams by cases over the union of their atoms."""
        es, ea = sc.envs() if sc else (ROOT, ROOT)

        def table(t, e):
            out = {}
            for x in datoms(t):
                if x.op == "lt0":
                    out[x] = lt_atom(x, e)
                elif is_bool(x):
                    out[x] = (atom_h(x, e), True)
                else:
                    out[x] = (H("truthy", canon(x, e)), True)
            return out
        hs, ha = table(s, es), table(a, ea)
        ss, sa = set(h for h, _ in hs.values()), set(h for h, _ in ha.values())
        only_s, only_a = sorted(ss - sa), sorted(sa - ss)
        term_s = {h: (x, p) for x, (h, p) in hs.items()}
        term_a = {h: (x, p) for x, (h, p) in ha.items()}
        forced = {g: v for g, v in self.alias.items() if g in sa}
        worst = []
        only_s = [h for h in only_s if h not in set(v[0] for v in forced.values())]
        only_a = [h for h in only_a if h not in forced]
        # unmatched conditions: relate them one to one when their form is the same
        if only_s and only_a:
            left = list(only_a)

            def relate(x, y):
                if x.op == "lt0":
                    return self.cmp_lt(x, y, sc, depth)
                if is_bool(x):
                    return self._cmp_atom(x, y, sc, depth), False
                return self.cmp(x, y, sc, depth), False

            def tie(h, g, r, flip):
                left.remove(g)
                only_s.remove(h)
                only_a.remove(g)
                forced[g] = (h, (term_s[h][1] == term_a[g][1]) != flip)
                worst.append(r)
            # conditions that are the same once variables of the loops are paired
            for h in list(only_s):
                x = term_s[h][0]
                cand = [g for g in left if term_a[g][0].op == x.op]
                if len(cand) == 1 and len([k for k in only_s if term_s[k][0].op == x.op]) == 1 or not free(x):
                    continue
                for g in cand[:6]:
                    n, m, save = len(self.reasons), len(self.unks), self.save(sc)
                    r, flip = relate(x, term_a[g][0])
                    if r == EQ:
                        tie(h, g, r, flip)
                        break
                    del self.reasons[n:]
                    del self.unks[m:]
                    self.restore(sc, save)
            for h in list(only_s):
                x = term_s[h][0]
                cand = [g for g in left if term_a[g][0].op == x.op]
                if len(cand) == 1 and len([k for k in only_s if term_s[k][0].op == x.op]) == 1:
                    r, flip = relate(x, term_a[cand[0]][0])
                    tie(h, cand[0], r, flip)
        unsure = UNK in worst
        only_s, only_a = set(only_s), set(only_a)
        new = [term_a[h][0] for h in only_a]
        if new and any(self.foreign(x) for x in new):
            unsure = True
            self.unk("condition outside the specification: " + self.stranger)
        lits = dict(term_s)
        for h in only_a:
            lits[h] = term_a[h]
        for g, (h, same_) in forced.items():
            if h not in lits:
                lits[h] = (term_a[g][0], term_a[g][1] == same_)
        kin = self.kinship(only_s, only_a, lits)
        excl = {}
        for h, (t, pol) in lits.items():
            if t.op == "eq" and pol:
                for x, y in (t.args, t.args[::-1]):
                    if y.op in ("c", "dt") and x.op not in ("c", "dt"):
                        excl.setdefault(canon(x, es if h in term_s else ea), []).append((h, canon(y)))
        rivals = {}
        for group in excl.values():
            for h, v in group:
                rivals.setdefault(h, set()).update(g for g, w in group if w != v)
        memo = {}
        left = [3000]

        def sup(t, table):
            k = (t, id(table))
            if k not in memo:
                memo[k] = frozenset(self.name(x, table, forced) for x in datoms(t))
            return memo[k]

        def leaf(vs, va, env):
            if vs.op == "c" and va.op == "c" and is_bool(vs) and is_bool(va):
                if vs is va:
                    return EQ
                self.reasons.append((s, a))
                return DIFF
            n = len(self.reasons)
            r = self.cmp(vs, va, sc, depth)
            if r != EQ and only_a and self.refined(vs, va, [(term_a[h][0], v == term_a[h][1]) for h, v in env.items() if h in only_a]):
                r = EQ
            if r == EQ:
                del self.reasons[n:]
            return r

        def inside(t, table):
            k = (t, "in", id(table))
            if k not in memo:
                memo[k] = frozenset(self.name(x, table, forced) for x in subterms(t) if x in table)
            return memo[k]

        def assuming(vs, va, env):
            """The comparison again, for the parts that depend on the conditions of the case."""
            known_ = {h: v for h, v in env.items() if h in inside(vs, hs) or h in inside(va, ha)}
            known_ = {h: v for h, v in known_.items() if self.given.get(h) != v}
            if not known_ or self.retries <= 0:
                return None
            k = (vs, va, frozenset(known_.items()))
            if k not in memo:
                self.retries -= 1
                old = self.given, self.alias
                n, m = len(self.reasons), len(self.unks)
                self.given, self.alias = dict(self.given, **env), dict(self.alias, **forced)
                try:
                    memo[k] = leaf(vs, va, env)
                finally:
                    self.given, self.alias = old
                if memo[k] == EQ:
                    del self.reasons[n:]
                    del self.unks[m:]
            return memo[k]

        def walk(x, y, env):
            x, y = settle(x, hs, env, {}), settle(y, ha, env, forced)
            live = sup(x, hs) | sup(y, ha)
            k = (x, y, frozenset((h, v) for h, v in env.items() if h in live or h in only_a or h in kin))
            if k in memo:
                return memo[k]
            left[0] -= 1
            if left[0] < 0:
                return self.unk("too many cases")
            h = None
            for t, table, f in ((x, hs, {}), (y, ha, forced)):
                if t.op == "ite":
                    h = self.name(t.args[0], table, f)
                elif is_bool(t) and t.op != "c":
                    h = self.name(t, table, f)
                if h is not None:
                    break
            if h is None:
                if (x, y) not in memo:
                    memo[(x, y)] = leaf(x, y, env)
                r = memo[(x, y)]
                if r != EQ:
                    n = len(self.reasons)
                    w = assuming(x, y, env)
                    if w is not None:
                        r = w
                if r == DIFF:
                    r = self.possible(env, lits, kin, only_a)
            else:
                r = walk(x, y, dict(env, **dict([(g, False) for g in rivals.get(h, ())] + [(h, True)])))
                if r != DIFF:
                    r = self.worst((r, walk(x, y, dict(env, **{h: False}))), True)
            memo[k] = r
            return r
        n = len(self.reasons)
        r = walk(s, a, {h: self.given[h] for h in lits if h in self.given})
        if r == EQ:
            del self.reasons[n:]
        worst.append(r)
        if unsure:
            return UNK if self.worst(worst) != EQ else EQ
        return self.worst(worst, True)

    def name(self, x, table, forced):
        h = table[x][0]
        return forced[h][0] if h in forced else h

    def kinship(self, only_s, only_a, lits):
        """Conditions that may be related to a condition of the other side although their forms differ."""
        def subjects(t):
            out = set()
            for x in t.args:
                if isinstance(x, Term):
                    if x.op == "poly":
                        for m in _poly_dict(x):
                            out.update(m)
                    elif x.op != "c":
                        out.add(x)
            return frozenset(canon(x) for x in out)
        if not only_s or not only_a:
            return {}
        sub_ = {h: subjects(lits[h][0]) for h in lits}
        kin = {}
        for h in only_a:
            for g in only_s:
                if sub_[h] & sub_[g]:
                    kin.setdefault(h, set()).add(g)
                    kin.setdefault(g, set()).add(h)
        return kin

    def possible(self, env, lits, kin, only_a):
        """Can the conditions of a case in which the sides differ hold together?"""
        for h, v in env.items():
            t = lits[h][0]
            truth = v == lits[h][1]
            if h in only_a and truth and empties(t) or h in only_a and not truth and t.op == "lt0" and empties(_lt0(sub(neg(t.args[0]), C(1)))):
                return self.unk("a special case for empty data")
        hs = sorted(env)
        related = False
        for k, h in enumerate(hs):
            for g in hs[k + 1:]:
                x, y = lits[h], lits[g]
                r = jointly(x[0], env[h] == x[1], y[0], env[g] == y[1])
                if r is False:
                    return EQ
                if r is None and g in kin.get(h, ()):
                    related = True
        if related:
            return self.unk("related conditions")
        return DIFF

    def refined(self, vs, va, lits):
        """Are vs and va equal once an added equality condition is taken into account?"""
        m = {}
        for t, pol in lits:
            if t.op == "eq" and pol:
                x, y = t.args
                if x.op == "c":
                    x, y = y, x
                if y.op == "c" and x.op != "poly":
                    m[x] = y
        if not m:
            return False
        f = lambda x, cache: m.get(x)
        try:
            return same(rebuild(vs, f), rebuild(va, f))
        except Exception:
            return False

    def _cmp_atom(self, x, y, sc, depth):
        if x.op == "eq" and all(z.op == "poly" or z.op == "c" and type(z.args[0]) in (int, float) for z in x.args + y.args):
            p, q = sub(*x.args), sub(*y.args)
            n = len(self.reasons)
            save = self.save(sc)
            r = self.cmp(p, q, sc, depth)
            if r != EQ:
                w = self.reasons[n:]
                del self.reasons[n:]
                self.restore(sc, save)
                r2 = self.cmp(neg(p), q, sc, depth)
                if r2 == EQ or UNK in (r, r2):
                    del self.reasons[n:]
                    return EQ if r2 == EQ else UNK
                self.reasons[n:] = w
            return r
        if x.op in ("eq",):
            if len(x.args) != len(y.args):
                return self.mismatch(x, y)
            return self.cmp_multiset(list(x.args), list(y.args), x, y, sc, depth)
        return self._all(list(zip(x.args, y.args)), sc, depth) if len(x.args) == len(y.args) else self.mismatch(x, y)

    def cmp_lt(self, x, y, sc, depth):
        """Compare p<0 with q<0, or with its complement; returns (verdict, flipped)."""
        p, q = x.args[0], y.args[0]
        q2 = sub(neg(q), C(1))
        n, b = len(self.reasons), self.budget
        save = self.save(sc)
        r1 = self.cmp_poly(p, q, sc, depth)
        if r1 == EQ:
            return EQ, False
        w1 = self.reasons[n:]
        st1 = self.save(sc)
        del self.reasons[n:]
        self.restore(sc, save)
        r2 = self.cmp_poly(p, q2, sc, depth)
        if r2 == EQ:
            del self.reasons[n:]
            return EQ, True
        # the closer relation: same leading shape
        if overlap(p, q) >= overlap(p, q2):
            del self.reasons[n:]
            self.reasons.extend(w1)
            self.restore(sc, st1)
            return r1, False
        return r2, True

    def save(self, sc):
        out = []
        while sc is not None:
            out.append((sc, dict(sc.fwd), dict(sc.bwd)))
            sc = sc.parent
        return out

    def restore(self, sc, save):
        for c, f, b in save:
            if c.fwd != f:
                c.fwd, c.bwd = dict(f), dict(b)
                c.es = c.ea = None

    def cmp_out(self, s, a, sc, depth):
        Ls, i = s.args
        La, j = a.args
        cs, ps, is_, ns, bs = Ls.args
        ca, pa, ia, na, ba = La.args
        if len(bs.args) != len(ba.args):
            return self.unk("loop exits")
        d = Scope(Ls, La, sc)
        es, ea = sc.envs() if sc else (ROOT, ROOT)
        # variables whose whole behaviour is the same in both loops are paired beforehand
        hs, ha = {}, {}
        for L, e, out, k0 in ((Ls, es, hs, i), (La, ea, ha, j)):
            for k in range(len(L.args[1].args)):
                out[k] = solo(L, k, e)
        inv = {}
        for k, h in ha.items():
            inv.setdefault(h, k)
        for k, h in hs.items():
            if h in inv and inv[h] not in d.bwd and k != i and inv[h] != j:
                d.pair(k, inv[h])
        settled = d.settled = frozenset(d.fwd)
        d.es = d.ea = None
        if i in d.fwd or j in d.bwd:
            pass
        d.pair(i, j)
        rs = []
        done = set()
        rs.append(self.cmp(cs, ca, d, depth))
        for x, y in zip(bs.args, ba.args):
            rs.append(self.cmp(x.args[0], y.args[0], d, depth))
        while True:
            todo = [k for k in d.fwd if k not in done and k not in settled]
            if not todo:
                break
            k = todo[0]
            m = d.fwd[k]
            done.add(k)
            rs.append(self.cmp(is_.args[k], ia.args[m], sc, depth))
            rs.append(self.cmp(ns.args[k], na.args[m], d, depth))
            for x, y in zip(bs.args, ba.args):
                rs.append(self.cmp(x.args[1].args[k], y.args[1].args[m], d, depth))
        return self.worst(rs)


_solo = {}


def solo(L, k, env):
    """Digest of variable k's own transition system (ignoring when the loop stops)."""
    key = (L, k)
    if env is ROOT and key in _solo:
        return _solo[key]
    cond, phis, inits, nexts, brks = L.args
    L2 = T("loop", TRUE, phis, inits, nexts, T("tuple"))
    need = needs(L2, k)
    tail, h2, _ = loop_classes(L2, need, env)
    r = H(tail, h2[k])
    if env is ROOT:
        _solo[key] = r
    return r


def num_key(c):
    return repr(c)


def overlap(p, q):
    dp, dq = _poly_dict(p), _poly_dict(q)
    return sum(1 for m in dp if m != () and (c_sign(dp[m]) == c_sign(dq.get(m, 0)) or any(
        [x.op for x in m] == [x.op for x in m2] and c_sign(dp[m]) == c_sign(dq[m2]) for m2 in dq)))


def c_sign(c):
    return (c > 0) - (c < 0)


def settle(t, table, env, forced):
    """Follow the branches already decided."""
    while True:
        x = t.args[0] if t.op == "ite" else t if is_bool(t) and t.op != "c" and t in table else None
        if x is None:
            return t
        h, pol = table[x]
        if h in forced:
            h, p = forced[h]
            pol = pol == p
        if h not in env:
            return t
        v = env[h] == pol
        if t.op == "ite":
            t = t.args[1] if v else t.args[2]
        else:
            return TRUE if v else FALSE


COUNTS = ("dim", "size", "len", "mpi_allreduce", "sum", "commsize")


def empties(t):
    """Is this the condition that some amount of data is zero?"""
    if t.op == "eq":
        x, y = t.args
        if x.op == "c":
            x, y = y, x
        return y.op == "c" and cval(y) == 0 and x.op in COUNTS
    if t.op == "lt0":
        d = dict(_poly_dict(t.args[0]))
        k = d.pop((), 0)
        return len(d) == 1 and all(len(m) == 1 and m[0].op in COUNTS and c == 1 for m, c in d.items()) and k in (0, -1)
    return False


_lines = {}


def line(t):
    r = _lines.get(t, _lines)
    if r is _lines:
        r = _lines[t] = line_(t)
    return r


def line_(t):
    if t.op == "lt0":
        p = t.args[0]
    elif t.op == "eq":
        p = sub(t.args[0], t.args[1])
    else:
        return None
    if p.op in ("tuple", "list", "str"):
        return None
    d = dict(_poly_dict(p))
    k = d.pop((), 0)
    if isinstance(k, float) and k == int(k):
        k = int(k)
    if not d or not all(isinstance(c, int) for c in d.values()) or not isinstance(k, int):
        return None
    items = tuple(sorted((tuple(sorted(canon(a) for a in m)), c) for m, c in d.items()))
    sign = 1
    if items[0][1] < 0:
        items = tuple((m, -c) for m, c in items)
        sign = -1
    low = 0 if all(c > 0 and all(nonneg(a) for a in m) for m, c in d.items()) and sign > 0 else None
    if sign < 0 and all(c < 0 and all(nonneg(a) for a in m) for m, c in d.items()):
        low = 0
    return items, sign, k, low, t.op


def jointly(x, vx, y, vy):
    """Can two conditions on the same quantity hold (or fail) together?  None: not decided."""
    a, b = line(x), line(y)
    if a is None or b is None or a[0] != b[0]:
        return None
    def holds(l, u):
        v = l[1] * u + l[2]
        return v < 0 if l[4] == "lt0" else v == 0
    ks = [abs(a[2]), abs(b[2])]
    lo = -max(ks) - 2
    if a[3] == 0 or b[3] == 0:
        lo = 0
    if max(ks) > 5000:
        return None
    return any(holds(a, u) == vx and holds(b, u) == vy for u in range(lo, max(ks) + 3))


def arith(t):
    return t.op in ("c", "poly") or t.op not in ("tuple", "list", "str", "dict")


_loopy = {}


def loopy(t):
    r = _loopy.get(t)
    if r is None:
        r = any(x.op in ("out", "cur", "loop") for x in subterms(t))
        _loopy[t] = r
    return r


# ---------------------------------------------------------------------------------------------- storage
def dump(terms):
    """Serialise terms to a JSON-able node list; returns (nodes, ids)."""
    nodes, ids = [], {}

    def visit(t):
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x in ids:
                continue
            if not done:
                stack.append((x, True))
                stack.extend((c, False) for c in children(x) if c not in ids)
                continue
            if x.op == "poly":
                body = sorted([[c, [ids[a] for a in m]] for m, c in x.args[0].d.items()], key=repr)
                nodes.append(["poly", body])
            else:
                nodes.append([x.op] + [{"t": ids[a]} if isinstance(a, Term) else enc(a) for a in x.args])
            ids[x] = len(nodes) - 1
    for t in terms:
        visit(t)
    return nodes, ids


def enc(v):
    if v is Ellipsis:
        return {"e": 1}
    if isinstance(v, bytes):
        return {"b": v.decode("latin1")}
    if isinstance(v, float) and v != v:
        return {"nan": 1}
    if isinstance(v, complex):
        return {"cx": [v.real, v.imag]}
    if isinstance(v, (bool, int, float, str)) or v is None:
        return {"v": v}
    raise TypeError(repr(v))


def load(nodes):
    """Rebuild terms; phi variables get fresh identities."""
    out = []
    base = 10 ** 6 + load.counter * 10 ** 5
    load.counter += 1
    for nd in nodes:
        op = nd[0]
        if op == "poly":
            r = C(0)
            for c, m in nd[1]:
                p = C(c)
                for a in m:
                    p = mul(p, out[a])
                r = add(r, p)
            out.append(r)
            continue
        args = []
        for a in nd[1:]:
            if "t" in a:
                args.append(out[a["t"]])
            elif "e" in a:
                args.append(Ellipsis)
            elif "b" in a:
                args.append(a["b"].encode("latin1"))
            elif "nan" in a:
                args.append(float("nan"))
            elif "cx" in a:
                args.append(complex(*a["cx"]))
            else:
                args.append(a["v"])
        if op == "phi":
            args[0] = base + args[0]
        x = T(op, *args)
        out.append(x)
    return out


load.counter = 0
