"""G01: every public entry point is callable: names, library attributes, data fields and arguments resolve."""
import ast, builtins, symtable
from .common import *
from vsa.interp import libnames
from vsa.model import ClassInfo

NAMES, IMPORTS, LIB, CALLS, FIELDS, ONPATH = ("names-resolve", "imports-resolve", "library-attributes-exist", "calls-match-signatures",
                                                       "fields-are-declared", "bound-on-every-path")
KNOWN_BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__", "WindowsError"}
RB = "virgo.util.read_binary."


def library(prog):
    return {n: m for n, m in sorted(prog.modules.items()) if n.startswith("virgo") and not n.split(".")[-1].startswith("test_")}


def scopes(table):
    yield table
    for ch in table.get_children():
        for x in scopes(ch):
            yield x


def name_nodes(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            out.setdefault(n.id, n.lineno)
    return out


def aliases(tree, modname, prog):
    """Local name -> dotted library or package path, from every import statement of the module (any scope)."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return [n.id] + parts[::-1]
    return None


def names(c, mods):
    c.rule(NAMES, "every name a function, class body or module reads is a parameter, assigned in its scope or an enclosing one, "
                  "a module global, or a builtin")
    for mn, m in mods.items():
        try:
            top = symtable.symtable(m.src.decode("utf8"), m.path, "exec")
        except (SyntaxError, UnicodeDecodeError):
            c.undecided(NAMES, m.path)
            continue
        glob = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        star = False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                if n.module == "numpy":
                    glob |= set(libnames()["numpy_all"])
                else:
                    star = True
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                glob |= set(n.names)
        lines = name_nodes(m.tree)
        for t in scopes(top):
            if t.get_type() not in ("function", "class", "module"):
                continue
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced():
                    continue
                free = s.is_global() or t.get_type() == "module"
                if free and n not in glob and n not in KNOWN_BUILTINS:
                    if star:
                        c.undecided(NAMES, "%s: %s" % (m.path, n))
                    else:
                        c.violation(NAMES, "%s:%d %s" % (m.path, lines.get(n, t.get_lineno()), t.get_name()), "name '%s' is not defined anywhere" % n)
                else:
                    c.ok(NAMES, "%s %s: %s" % (m.path, t.get_name(), n))


def imports(c, mods, prog):
    c.rule(IMPORTS, "every import of a package module or of a name from one refers to something that exists")
    for mn, m in mods.items():
        for n in ast.walk(m.tree):
            tests = []
            if isinstance(n, ast.Import):
                tests = [(a.name, None) for a in n.names]
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                tests = [(n.module, a.name) for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                base = mn.split(".") if m.path.endswith("__init__.py") else mn.split(".")[:-1]
                base = base[:len(base) - (n.level - 1)]
                tests = [(".".join(base + ([n.module] if n.module else [])), a.name) for a in n.names]
            for mod, name in tests:
                if not mod or mod.split(".")[0] != "virgo":
                    continue
                where = "%s:%d import %s%s" % (m.path, n.lineno, mod, "." + name if name else "")
                pk = prog.modules.get(mod)
                if pk is None and not any(x.startswith(mod + ".") for x in prog.modules):
                    c.violation(IMPORTS, where, "there is no module %s" % mod)
                elif name and name != "*" and (mod + "." + name) not in prog.modules and (pk is None or name not in defined(pk)):
                    c.violation(IMPORTS, where, "%s does not define %s" % (mod, name))
                else:
                    c.ok(IMPORTS, where)


def defined(m):
    out = set(m.funcs) | set(m.classes)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split(".")[0] for a in n.names}
    return out


def libattrs(c, mods, prog):
    c.rule(LIB, "every attribute taken from an imported library or package module exists in it (library contents as installed: %s)"
           % ", ".join("%s %s" % x for x in sorted(libnames()["versions"].items())))
    L = libnames()["modules"]
    for mn, m in mods.items():
        al = aliases(m.tree, mn, prog)
        local = shadowed(m.tree)
        seen = set()
        guarded = hasattr_guards(m.tree)
        numpy_star = any(isinstance(n, ast.ImportFrom) and n.module == "numpy" and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                libcall(c, m, n, al, local, numpy_star)
            if not isinstance(n, ast.Attribute):
                continue
            d = dotted(n)
            if not d or d[0] not in al or d[0] in local:
                continue
            full = al[d[0]].split(".") + d[1:]
            # longest known module prefix, then one attribute
            for k in range(len(full) - 1, 0, -1):
                p = ".".join(full[:k])
                if p in L and L[p]:
                    a = full[k]
                    key = (m.path, n.lineno, p, a)
                    if key in seen:
                        break
                    seen.add(key)
                    if a not in L[p] and p + "." + a not in L and (p, a) not in guarded:
                        c.violation(LIB, "%s:%d" % (m.path, n.lineno), "%s has no attribute '%s'" % (p, a))
                    else:
                        c.ok(LIB, "%s:%d %s.%s" % (m.path, n.lineno, p, a))
                    break
                if p in prog.modules and p != "virgo":
                    a = full[k]
                    if a not in defined(prog.modules[p]) and p + "." + a not in prog.modules and not a.startswith("__") and \
                            not any(x.startswith(p + "." + a + ".") for x in prog.modules):
                        c.violation(LIB, "%s:%d" % (m.path, n.lineno), "module %s does not define '%s'" % (p, a))
                    else:
                        c.ok(LIB, "%s:%d %s.%s" % (m.path, n.lineno, p, a))
                    break
            # numpy methods of dtype-like classes are checked by the interpreter's events


def libcall(c, m, n, al, local, numpy_star):
    """A call of a library function whose parameters are known."""
    d = dotted(n.func)
    if not d or d[0] in local:
        return
    if d[0] in al:
        full = ".".join([al[d[0]]] + d[1:])
    elif numpy_star and len(d) == 1 and d[0] not in m.funcs and d[0] in libnames()["numpy_all"]:
        full = "numpy." + d[0]
    else:
        return
    sg = libnames()["signatures"].get(full)
    if sg is None or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return
    names_, kwonly, var, varkw, req, posonly = sg
    where = "%s:%d call of %s" % (m.path, n.lineno, full)
    kw = [k.arg for k in n.keywords]
    extra = [k for k in kw if k not in names_[posonly:] and k not in kwonly]
    if extra and not varkw:
        c.violation(CALLS, where, "has no parameter named %s" % ", ".join(extra))
    elif len(n.args) > len(names_) and not var:
        c.violation(CALLS, where, "takes at most %d positional arguments, %d given" % (len(names_), len(n.args)))
    elif any(k in names_[:len(n.args)] for k in kw) and not varkw:
        c.violation(CALLS, where, "is given the same argument twice")
    elif any(x not in kw for x in names_[len(n.args):req]):
        c.violation(CALLS, where, "is not given " + ", ".join(x for x in names_[len(n.args):req] if x not in kw))
    else:
        c.ok(CALLS, where)


def shadowed(tree):
    """Names that are also assigned as ordinary variables somewhere (ambiguous as module names)."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def hasattr_guards(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 \
                and isinstance(n.args[1], ast.Constant):
            out.add((ast.unparse(n.args[0]), n.args[1].value))
    return out


# ------------------------------------------------------------------------------------------------ on every path
def functions(mods):
    for mn, m in mods.items():
        for f in m.funcs.values():
            yield f
        for k in m.classes.values():
            for f in k.methods.values():
                yield f


def paths(c, mods):
    c.rule(ONPATH, "along every path of the function the names it reads are bound at that point")
    c.rule(CALLS, "every call of a package function or class passes the arguments its signature requires, and no others")
    done = {}
    sums = []
    python = [u for u in UNITS if not UNITS[u].fortran]
    for u in python:
        done.setdefault(UNITS[u].key, u)
    for uid, s in summaries(c, python, ONPATH):
        sums.append((uid, s))
    for f in functions(mods):
        if f.key in done or "." in f.key and f.key.rsplit(".", 1)[0] in done:
            continue
        set_budget(1000000, 20)
        try:
            it = Interp(c.prog, opaque=lambda k, me=f.key: k != me)
            sums.append((f.key, it.analyse(f.key)))
            c.count("functions")
        except (AnchorError, RecursionError, Budget):
            c.undecided(ONPATH, f.key)
        finally:
            set_budget()
    for uid, s in sums:
        bad = 0
        for e in s.events:
            where = "%s:%d %s" % (e.path, e.line, uid)
            if e.op == "badname":
                c.violation(ONPATH, where, "'%s' is not bound when it is read" % cval(e.data["name"]))
                bad += 1
            elif e.op == "unbound":
                c.violation(ONPATH, where, "'%s' is not set on every path that reads it: %s" % (cval(e.data["name"]), show(e.data["value"], 3)[:200]))
                bad += 1
            elif e.op == "badattr":
                c.violation(LIB, where, "%s has no '%s'" % (show(e.data["obj"], 3), cval(e.data["name"])))
            elif e.op == "badcall":
                miss, extra = cval(e.data["missing"]), cval(e.data["extra"])
                c.violation(CALLS, where, "call of %s: %s" % (cval(e.data["func"]), "; ".join(
                    (["missing argument " + ", ".join(miss)] if miss else []) + (["unexpected argument " + ", ".join(extra)] if extra else [])
                ) or "too many positional or repeated arguments"))
            elif e.op in ("prim", "new", "call"):
                c.count("calls")
        c.ok(CALLS, uid)
        if not bad:
            c.ok(ONPATH, uid)
    return sums


# ------------------------------------------------------------------------------------------------ data fields
def declared(prog, ci, seen=()):
    """Names a binary file class declares in its constructor (None: not all known)."""
    key = ci.key + ".__init__"
    out, full = {}, True
    try:
        s = Interp(prog, opaque=field_opaque(key)).analyse(key)
    except (AnchorError, RecursionError, Budget):
        return {}, False
    for e in s.events:
        if e.op == "prim":
            n, b = cval(e.data["name"]), e.data["bound"]
            if n in (RB + "BinaryFile.add_dataset", RB + "BinaryFile.add_attribute"):
                nm = b.get("name")
                if nm is not None and isc(nm):
                    out.setdefault(cval(nm), []).append(e)
                else:
                    full = False
            elif n == RB + "BinaryFile.start_fortran_record":
                pass
    return out, full


def field_opaque(me):
    def f(k):
        if k == me:
            return False
        if ".read_binary." in k:
            return True
        return not k.endswith((".__init__", ".add_record", ".read_record", ".add_field"))
    return f


def fields(c, mods):
    c.rule(FIELDS, "every dataset or attribute a binary reader takes from itself by a constant name is declared by its constructor, "
                   "before the constructor reads it")
    for mn, m in mods.items():
        for ci in m.classes.values():
            if "__init__" not in ci.methods or ci.key.startswith(RB):
                continue
            if not is_binary(c.prog, ci):
                continue
            decl, full = declared(c.prog, ci)
            if not decl or not full:
                c.undecided(FIELDS, ci.key, "declared names depend on run time values")
                continue
            names_ = set(decl)
            groups = {n[:i] for n in names_ for i in range(len(n)) if n[i] == "/"}
            have = {n.strip("/") for n in names_ | groups}
            for f in ci.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                            and f.node.args.args and n.value.id == f.node.args.args[0].arg and isinstance(n.slice, ast.Constant) \
                            and isinstance(n.slice.value, str):
                        nm = n.slice.value.strip("/")
                        where = "%s:%d %s" % (m.path, n.lineno, f.key)
                        if nm not in have:
                            c.violation(FIELDS, where, "'%s' is read but never declared" % nm)
                        else:
                            c.ok(FIELDS, where + " " + nm)
            init = ci.methods["__init__"]
            try:
                s = Interp(c.prog, opaque=field_opaque(init.key)).analyse(init.key)
            except (AnchorError, RecursionError, Budget):
                continue
            for e in s.events:
                if e.op == "prim" and cval(e.data["name"]) == RB + "BinaryGroup.__getitem__":
                    k = e.data["bound"].get("key", e.data["bound"].get("name"))
                    if k is None or not isc(k) or cval(k).strip("/") not in have:
                        continue
                    nm = cval(k).strip("/")
                    ds = [d for q, l in decl.items() if q.strip("/") == nm or q.strip("/").startswith(nm + "/") for d in l]
                    before = [d for d in s.events if d.seq < e.seq and d.op == "prim" and cval(d.data["name"]) in
                              (RB + "BinaryFile.add_dataset", RB + "BinaryFile.add_attribute") and isc(d.data["bound"]["name"])
                              and (cval(d.data["bound"]["name"]).strip("/") + "/").startswith(nm + "/")]
                    where = "%s:%d %s" % (e.path, e.line, init.key)
                    if not before:
                        c.violation(FIELDS, where, "'%s' is read before it is declared" % nm)
                    elif all(and_(e.cond(("if",)), d.cond(("if",))) is FALSE for d in before):
                        c.violation(FIELDS, where, "'%s' is read where none of its declarations applies" % nm)
                    else:
                        c.ok(FIELDS, where + " order " + nm)


def is_binary(prog, ci):
    seen, todo = set(), [ci]
    while todo:
        k = todo.pop()
        for b in k.node.bases:
            n = ast.unparse(b)
            if n.endswith("BinaryFile"):
                return True
            al = aliases(k.mod.tree, k.mod.name, prog)
            d = dotted(b)
            if d:
                full = ".".join([al.get(d[0], k.mod.name + "." + d[0])] + d[1:])
                x = prog.cls(full)
                if x is not None and x.key not in seen:
                    seen.add(x.key)
                    todo.append(x)
    return False


def run(c):
    mods = library(c.prog)
    for path, err in c.prog.unparsed:
        if "/virgo/" in path:
            c.violation(NAMES, path, "does not parse: " + err)
    c.stats["modules"] = len(mods)
    names(c, mods)
    imports(c, mods, c.prog)
    libattrs(c, mods, c.prog)
    paths(c, mods)
    fields(c, mods)
