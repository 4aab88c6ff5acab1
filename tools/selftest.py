#!/usr/bin/env python3
"""Self test of the conformance rule: behaviour-changing mutants should be reported, behaviour-preserving rewrites must not.
usage: selftest.py mut|ref MODULE_RELPATH [FUNC...]"""
import ast, copy, os, sys, threading, warnings, time, itertools
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


# ------------------------------------------------------------------------------------------- mutants
def mutants(fn):
    """Yield (description, mutated function node)."""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(f):
            g = copy.deepcopy(fn)
            m = list(ast.walk(g))[i]
            r = f(m, g)
            return g
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(n.ops[0]), [])
            for o in alt:
                yield "%d cmp %s" % (line, o.__name__), mk(lambda m, g: m.ops.__setitem__(0, o()))
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Div: ast.Mult}.get(type(n.op))
            if alt and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                yield "%d binop %s" % (line, alt.__name__), mk(lambda m, g: setattr(m, "op", alt()))
        if isinstance(n, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}.get(type(n.op))
            if alt:
                yield "%d aug %s" % (line, alt.__name__), mk(lambda m, g: setattr(m, "op", alt()))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            yield "%d const %d+1" % (line, n.value), mk(lambda m, g: setattr(m, "value", m.value + 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield "%d not %s" % (line, n.value), mk(lambda m, g: setattr(m, "value", not m.value))
        if isinstance(n, ast.Constant) and type(n.value) is str and n.value and " " not in n.value and len(n.value) < 30:
            yield "%d str %s" % (line, n.value), mk(lambda m, g: setattr(m, "value", m.value + "x"))
        if isinstance(n, ast.BoolOp):
            alt = ast.And if isinstance(n.op, ast.Or) else ast.Or
            yield "%d boolop" % line, mk(lambda m, g: setattr(m, "op", alt()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield "%d dropnot" % line, mk(lambda m, g: replace(g, m, m.operand))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    yield "%d dropkw %s" % (line, n.keywords[k].arg), mk(lambda m, g: m.keywords.pop(k))
            for k in range(len(n.args) - 1):
                if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                    yield "%d swapargs %d %s" % (line, k, ast.unparse(n.func)), mk(lambda m, g: m.args.insert(k, m.args.pop(k + 1)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a, b in (("send_count", "recv_count"), ("recv_count", "send_count"), ("send_displ", "recv_displ"), ("recv_displ", "send_displ"),
                         ("mycomm", "comm"), ("comm", "MPI.COMM_WORLD"), ("comm_rank", "comm_size"), ("comm_size", "comm_rank")):
                if n.id == a:
                    yield "%d name %s->%s" % (line, a, b), mk(lambda m, g: setattr(m, "id", b))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list) and n is not None:
                for k, s in enumerate(b):
                    if not isinstance(s, ast.stmt) or isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, ast.Pass):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("print", "gc.collect", "sys.stdout.flush"):
                        continue
                    if isinstance(s, ast.Delete):
                        continue

                    def dele(m, g, field=field, k=k):
                        getattr(m, field)[k] = ast.copy_location(ast.Pass(), getattr(m, field)[k])
                    yield "%d delete %s" % (s.lineno, ast.unparse(s).split("\n")[0][:50]), mk(dele)
        if isinstance(n, ast.If):
            yield "%d if True" % line, mk(lambda m, g: setattr(m, "test", ast.Constant(True)))
            yield "%d if False" % line, mk(lambda m, g: setattr(m, "test", ast.Constant(False)))


def replace(root, old, new):
    for n in ast.walk(root):
        for f, v in ast.iter_fields(n):
            if v is old:
                setattr(n, f, new)
                return
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return


# ------------------------------------------------------------------------------------------- rewrites
def localnames(fn):
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    return names - params - glob


def bodies(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def r_rename(fn, mod):
    ns = localnames(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ns:
            n.id = n.id + "_v"


def r_invert_if(fn, mod):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def r_flip_cmp(fn, mod):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = m[type(n.ops[0])]()


def r_for_while(fn, mod):
    cnt = [0]
    for b in list(bodies(fn)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and len(s.iter.args) == 1 \
                    and isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                cnt[0] += 1
                lim = "_lim%d" % cnt[0]
                new = [ast.parse("%s = %s" % (lim, ast.unparse(s.iter.args[0]))).body[0], ast.parse("%s = 0" % s.target.id).body[0],
                       ast.While(ast.parse("%s < %s" % (s.target.id, lim), mode="eval").body, s.body + [ast.parse("%s += 1" % s.target.id).body[0]], [])]
                k = b.index(s)
                b[k:k + 1] = new


def r_enum(fn, mod):
    """for x in seq -> for i in range(len(seq)): x = seq[i]"""
    cnt = [0]
    for b in list(bodies(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and isinstance(s.target, ast.Name):
                cnt[0] += 1
                iv = "_i%d" % cnt[0]
                s.body.insert(0, ast.parse("%s = %s[%s]" % (s.target.id, s.iter.id, iv)).body[0])
                s.iter = ast.parse("range(len(%s))" % s.iter.id, mode="eval").body
                s.target = ast.Name(iv, ast.Store())


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant, ast.Attribute))


def r_temp(fn, mod):
    """hoist call arguments and binary operands into temporaries, left to right"""
    cnt = [0]
    for b in list(bodies(fn)):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return)) and s.value is not None and not isinstance(s.value, ast.Constant):
                tgt = s.value
                pre = []
                if isinstance(tgt, ast.Call):
                    for k, a in enumerate(tgt.args):
                        if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript)):
                            cnt[0] += 1
                            nm = "_t%d" % cnt[0]
                            pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                            tgt.args[k] = ast.Name(nm, ast.Load())
                elif isinstance(tgt, ast.BinOp) and not (isinstance(tgt.op, ast.Mod) and isinstance(tgt.left, ast.Constant)):
                    for f in ("left", "right"):
                        a = getattr(tgt, f)
                        if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript)):
                            cnt[0] += 1
                            nm = "_t%d" % cnt[0]
                            pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                            setattr(tgt, f, ast.Name(nm, ast.Load()))
                out.extend(pre)
            out.append(s)
        b[:] = out


def free_names(e):
    return sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})


def r_helper_expr(fn, mod):
    """move right-hand sides into module level helper functions"""
    ns = localnames(fn) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    cnt = [0]
    for b in list(bodies(fn)):
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)) and cnt[0] < 12:
                if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Yield, ast.DictComp, ast.SetComp)) for x in ast.walk(s.value)):
                    continue
                if "super" in free_names(s.value):
                    continue
                used = [x for x in free_names(s.value) if x in ns or x == "MPI" or x == "h5py"]
                cnt[0] += 1
                nm = "_helper_%s_%d" % (fn.name.strip("_"), cnt[0])
                h = ast.parse("def %s(%s):\n    return 0" % (nm, ", ".join(used))).body[0]
                h.body[0].value = s.value
                mod.body.append(h)
                s.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])


def r_noop(fn, mod):
    for k, b in enumerate(list(bodies(fn))):
        i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        b.insert(i, ast.parse("_unused_%d = 0" % k).body[0])
        b.insert(i, ast.Pass())


def r_counter(fn, mod):
    """an unused counter in every loop"""
    for k, b in enumerate(list(bodies(fn))):
        for s in list(b):
            if isinstance(s, (ast.For, ast.While)):
                j = b.index(s)
                b.insert(j, ast.parse("_cnt%d = 0" % k).body[0])
                s.body.append(ast.parse("_cnt%d += 1" % k).body[0])


def rw(s):
    w = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    r = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    return w, r


def pure_assign(s):
    if not isinstance(s, ast.Assign) or not all(isinstance(t, ast.Name) for t in s.targets):
        return False
    for n in ast.walk(s.value):
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if not (f.startswith("np.") or f in ("len", "sum", "min", "max", "int", "list", "tuple", "my_argsort")):
                return False
    return True


def r_swap(fn, mod):
    for b in bodies(fn):
        i = 0
        while i + 1 < len(b):
            if pure_assign(b[i]) and pure_assign(b[i + 1]):
                w1, r1 = rw(b[i])
                w2, r2 = rw(b[i + 1])
                if not (w1 & (r2 | w2)) and not (w2 & r1):
                    b[i], b[i + 1] = b[i + 1], b[i]
                    i += 1
            i += 1


def r_early(fn, mod):
    """if c: ...return  else: ...  -> drop the else"""
    for b in list(bodies(fn)):
        k = 0
        while k < len(b):
            s = b[k]
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                rest, s.orelse = s.orelse, []
                b[k + 1:k + 1] = rest
            k += 1


def r_else(fn, mod):
    """if c: return..; rest -> if c: ... else: rest"""
    for b in list(bodies(fn)):
        for k, s in enumerate(list(b)):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(b):
                s.orelse = b[k + 1:]
                del b[k + 1:]
                break


def r_named_const(fn, mod):
    """name integer constants"""
    cnt = [0]
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    pre = []

    class V(ast.NodeTransformer):
        def visit_Constant(self, n):
            if type(n.value) is int and n.value > 1:
                cnt[0] += 1
                pre.append(ast.parse("_k%d = %d" % (cnt[0], n.value)).body[0])
                return ast.Name("_k%d" % cnt[0], ast.Load())
            return n

        def visit_FunctionDef(self, n):
            if n is not fn:
                return n
            n.body = [self.visit(x) for x in n.body]
            return n
    V().visit(fn)
    fn.body[i:i] = pre


def r_len_shape(fn, mod):
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            return n

        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and isinstance(n.ctx, ast.Load):
                return ast.Call(ast.Name("len", ast.Load()), [n.value.value], [])
            return n
    V().visit(fn)


def r_np_alias(fn, mod):
    """np.f(x) written as numpy attribute through a local alias"""
    class V(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == "np" and isinstance(n.ctx, ast.Load):
                n.value.id = "numpy_mod"
            return n
    if any(isinstance(x, ast.Name) and x.id == "np" for x in ast.walk(fn)):
        V().visit(fn)
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(i, ast.parse("import numpy as numpy_mod").body[0])


def r_helper_block(fn, mod):
    """move a prefix of simple statements into a helper returning the assigned names"""
    ns = localnames(fn) | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    cnt = [0]
    for b in list(bodies(fn)):
        for start in range(len(b)):
            blk = b[start:start + 3]
            if len(blk) == 3 and all(isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) for s in blk) and cnt[0] < 4:
                if any(isinstance(x, (ast.Yield,)) for s in blk for x in ast.walk(s)) or any("super" in free_names(s) for s in blk):
                    continue
                w, defined, used = [], set(), []
                for s in blk:
                    for x in free_names(s.value):
                        if x not in defined and (x in ns or x in ("MPI", "h5py", "comm")) and x not in used:
                            used.append(x)
                    for t in s.targets:
                        defined.add(t.id)
                        if t.id not in w:
                            w.append(t.id)
                cnt[0] += 1
                nm = "_block_%s_%d" % (fn.name.strip("_"), cnt[0])
                h = ast.parse("def %s(%s):\n    return %s" % (nm, ", ".join(used), ", ".join(w))).body[0]
                h.body[0:0] = blk
                mod.body.append(h)
                b[start:start + 3] = [ast.parse("%s = %s(%s)" % (", ".join(w), nm, ", ".join(used))).body[0]]
                break


def r_aug(fn, mod):
    """x += c -> x = x + c for loop counters (integer constant steps)"""
    for b in list(bodies(fn)):
        for k, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                b[k] = ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))


def r_demorgan(fn, mod):
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            alt = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(alt, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While)):
            n.test = V().visit(n.test)


def r_ternary(fn, mod):
    """if c: x=a else: x=b -> x = a if c else b"""
    for b in list(bodies(fn)):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                b[k] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))


def r_listcomp(fn, mod):
    """x = [e for v in it] -> loop with append"""
    cnt = [0]
    for b in list(bodies(fn)):
        for s in list(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and not s.value.generators[0].ifs \
                    and isinstance(s.targets[0], ast.Name):
                g = s.value.generators[0]
                k = b.index(s)
                nm = s.targets[0].id
                cnt[0] += 1
                tmp = "_l%d" % cnt[0]
                loop = ast.For(g.target, g.iter, [ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append", ast.Load()), [s.value.elt], []))], [])
                b[k:k + 1] = [ast.parse("%s = []" % tmp).body[0], loop, ast.parse("%s = %s" % (nm, tmp)).body[0]]


def r_kwargs(fn, mod):
    """np.zeros(n, dtype=t) -> np.zeros(n, t)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("np.zeros", "np.ones", "np.empty", "np.ndarray") and len(n.args) == 1 and len(n.keywords) == 1 and n.keywords[0].arg == "dtype":
            n.args.append(n.keywords[0].value)
            n.keywords = []


REWRITES = [r_rename, r_invert_if, r_flip_cmp, r_for_while, r_enum, r_temp, r_helper_expr, r_helper_block, r_noop, r_counter, r_swap, r_early,
            r_else, r_named_const, r_len_shape, r_np_alias, r_aug, r_demorgan, r_ternary, r_listcomp, r_kwargs]


def main():
    mode, rel = sys.argv[1], sys.argv[2]
    only = sys.argv[3:]
    from vsa.model import Program
    from vsa import conform
    from vsa.units import UNITS
    from vsa.driver import REPO
    base = Program(REPO)
    path = os.path.join(REPO, "python", rel)
    src = open(path).read()
    modname = rel[:-3].replace("/", ".")
    if modname.endswith(".__init__"):
        modname = modname[:-9]
    tree = ast.parse(src)
    units = [u for u in UNITS.values() if u.key.startswith(modname + ".")]
    specs = {u.uid: conform.load(u.path()) for u in units}
    fns = []
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    fns.append((n.name + "." + m.name, m))
        if isinstance(n, ast.FunctionDef) and n in tree.body:
            fns.append((n.name, n))
    tot = caught = unk = 0

    def judge(newtree, name):
        prog = Program(REPO, overrides={modname: ast.unparse(ast.fix_missing_locations(newtree))})
        res = []
        for u in units:
            rel_ = u.key[len(modname) + 1:]
            if mode != "all" and rel_ != name and not (u.kind == "class" and name.startswith(rel_ + ".")) and not uses(u, name):
                continue
            try:
                act = conform.facets(u.analyse(prog), want=u.want)
            except Exception as e:
                res.append((u.uid, "unk", "", "analysis failed: %r" % e))
                continue
            for r in conform.compare_facets(specs[u.uid], act):
                if r.verdict != "eq":
                    res.append((u.uid, r.verdict, r.facet + " " + r.name, r.detail))
        return res

    def uses(u, name):
        # private helpers are part of their callers
        f = base.func(u.key)
        return name.split(".")[-1].startswith("_") and not name.endswith("__") and f is not None and name.split(".")[-1] in ast.unparse(f.node)

    jobs = []
    for name, fn in fns:
        if only and name not in only:
            continue
        if mode == "mut":
            for desc, m in mutants(fn):
                t2 = copy.deepcopy(tree)
                put(t2, name, m)
                jobs.append((name, desc, t2))
        else:
            for R in REWRITES:
                t2 = copy.deepcopy(tree)
                f2 = get(t2, name)
                before = ast.dump(f2)
                R(f2, t2)
                if ast.dump(f2) == before:
                    continue
                jobs.append((name, R.__name__, t2))
    import json
    from vsa import terms as tm
    N = int(os.environ.get("JOBS", "8"))
    pids = []
    for w in range(N):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = os.fdopen(wr, "w")
            batch = jobs[w::N]
            for i in range(0, len(batch), 12):
              sub = os.fork()
              if sub:
                os.waitpid(sub, 0)
                continue
              for name, desc, t2 in batch[i:i + 12]:
                tm.set_budget(3000000, 60)
                try:
                    ast.unparse(ast.fix_missing_locations(t2))
                    res = judge(t2, name)
                except SyntaxError:
                    continue
                except tm.Budget:
                    res = [("", "unk", "budget", "")]
                out.write(json.dumps([name, desc, res]) + "\n")
                out.flush()
              os._exit(0)
            out.close()
            os._exit(0)
        os.close(wr)
        pids.append((pid, os.fdopen(r)))
    for pid, f in pids:
        for line in f:
            name, desc, res = json.loads(line)
            tot += 1
            d = [r for r in res if r[1] == "diff"]
            if d:
                caught += 1
                if mode != "mut":
                    print("ALARM ", name, desc, d[0][2], d[0][3][:400])
            elif res:
                unk += 1
                print("UNK   ", name, desc, [r[2] for r in res][:4], [r[3] for r in res if r[3]][:1])
            elif mode == "mut":
                print("MISSED", name, desc)
        os.waitpid(pid, 0)
    print(mode, rel, "total", tot, "reported", caught, "undecided", unk, "quiet", tot - caught - unk)


def get(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and "." in name and n.name == name.split(".")[0]:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == name.split(".")[1]:
                    return m
        if isinstance(n, ast.FunctionDef) and n.name == name and n in tree.body:
            return n


def put(tree, name, fn):
    for n in [tree] + [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef)]:
        for k, m in enumerate(n.body):
            if isinstance(m, ast.FunctionDef) and m.name == name.split(".")[-1] and (n is tree) == ("." not in name) and (n is tree or n.name == name.split(".")[0]):
                n.body[k] = fn


t = threading.Thread(target=main)
t.start()
t.join()
