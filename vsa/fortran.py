"""Front end for the Fortran HDF5 wrapper: preprocesses and parses the subset of Fortran it is written in and turns every
routine into a Python function with the same control flow, so the ordinary analysis applies.

Conventions of the translation: module variables are attributes of `self`; HDF5 library calls are calls of `hdf5.<name>` taking
the input arguments and returning the output arguments; `call hdf5_abort(...)` raises; scalar output arguments are returned;
`a(i:j)` is `a[i-1:j]`; trailing blanks never matter (`trim` is dropped); prints are dropped."""
import ast, os, re
from . import cshim

TEMPLATES = ("read_dataset", "write_dataset", "read_attribute", "write_attribute")
# output arguments (0-based positions) of library routines
OUT = {
    "h5open_f": [0], "h5close_f": [0], "h5eset_auto_f": [1], "h5fopen_f": [2, 3], "h5fcreate_f": [2, 3], "h5fclose_f": [1],
    "h5fget_obj_count_f": [2, 3], "h5dopen_f": [2, 3], "h5gopen_f": [2, 3], "h5aopen_name_f": [2, 3], "h5aopen_f": [2, 3],
    "h5aopen_idx_f": [2, 3], "h5aget_space_f": [1, 2], "h5dget_space_f": [1, 2], "h5aget_type_f": [1, 2], "h5dget_type_f": [1, 2],
    "h5sget_simple_extent_ndims_f": [1, 2], "h5sget_simple_extent_dims_f": [1, 2, 3], "h5sclose_f": [1], "h5aclose_f": [1],
    "h5gclose_f": [1], "h5dclose_f": [1], "h5tclose_f": [1], "h5pclose_f": [1], "h5tget_class_f": [1, 2], "h5tget_size_f": [1, 2],
    "h5gcreate_f": [2, 3], "h5gn_members_f": [2, 3], "h5gget_obj_info_idx_f": [3, 4, 5], "h5aget_num_attrs_f": [1, 2],
    "h5aget_name_f": [2, 3], "h5tcopy_f": [1, 2], "h5tset_size_f": [2], "h5screate_simple_f": [2, 3], "h5screate_f": [1, 2],
    "h5sselect_hyperslab_f": [4], "h5pcreate_f": [1, 2], "h5pset_chunk_f": [3], "h5pset_shuffle_f": [1], "h5pset_deflate_f": [2],
    "h5pset_szip_f": [3], "h5dcreate_f": [4, 5], "h5dextend_f": [2], "h5dset_extent_f": [2], "h5gunlink_f": [2], "h5ldelete_f": [2],
    "h5adelete_f": [2], "h5acreate_f": [4, 5], "h5lexists_f": [2, 3], "h5aexists_f": [2, 3], "h5aread_f": [2, 4], "h5awrite_f": [4],
    "h5sselect_all_f": [1], "h5sselect_none_f": [1], "h5fflush_f": [2], "h5oopen_f": [2, 3], "h5oclose_f": [1], "h5tequal_f": [2, 3],
    "read_hdf5_dataset": [4, 5], "write_hdf5_dataset": [5], "read_hdf5_attribute": [2, 3], "write_hdf5_attribute": [3],
    "byte_order": [0],
}
# calls whose result depends on the present state of the file
STATE = {"h5dget_space_f", "h5sget_simple_extent_ndims_f", "h5sget_simple_extent_dims_f"}
CHANGE = {"h5dextend_f", "h5dset_extent_f"}
DROP = {"trim"}
INTRINSIC1 = {"int", "real", "dble"}


class FortranError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ preprocessor
class Line(object):
    __slots__ = ("text", "path", "no")

    def __init__(self, text, path, no):
        self.text, self.path, self.no = text, path, no


def preprocess(path, macros, on_include, stack=()):
    """Physical lines after conditionals and includes; macros are recorded but not substituted."""
    out, cond = [], []
    with open(path, errors="replace") as f:
        src = f.read().split("\n")
    for no, text in enumerate(src, 1):
        s = text.strip()
        if s.startswith("#"):
            w = s[1:].strip().split(None, 2)
            d = w[0] if w else ""
            on = all(cond)
            if d == "ifdef":
                cond.append(w[1] in macros)
            elif d == "ifndef":
                cond.append(w[1] not in macros)
            elif d == "if":
                cond.append(condition(s[1:].strip()[2:], macros))
            elif d == "elif":
                raise FortranError("%s:%d #elif" % (path, no))
            elif d == "else":
                cond[-1] = not cond[-1]
            elif d == "endif":
                cond.pop()
            elif on and d == "define":
                macros[w[1]] = w[2].strip() if len(w) > 2 else ""
            elif on and d == "undef":
                macros.pop(w[1], None)
            elif on and d == "include":
                inc = w[1].strip('"<>')
                sub = os.path.join(os.path.dirname(path), inc)
                r = on_include(inc, dict(macros), path, no)
                if r is not None:
                    out.extend(r)
                elif os.path.exists(sub) and inc not in stack:
                    out.extend(preprocess(sub, macros, on_include, stack + (inc,)))
            continue
        if all(cond):
            out.append(Line(text, path, no))
    return out


def condition(text, macros):
    t = re.sub(r"defined\s*\(?\s*(\w+)\s*\)?", lambda m: " 1 " if m.group(1) in macros else " 0 ", text)
    t = re.sub(r"\b[A-Za-z_]\w*\b", lambda m: macros.get(m.group(0)) or "0", t)
    t = t.replace("&&", " and ").replace("||", " or ")
    t = re.sub(r"!(?!=)", " not ", t)
    if not re.match(r"^[\w\s<>=!()+*/-]*$", t):
        raise FortranError("condition " + text)
    return bool(eval(t, {"__builtins__": {}}))


# ------------------------------------------------------------------------------------------------ statements
def statements(lines):
    """Logical statements (text, path, line) without comments, continuations joined."""
    out, cur, where = [], "", None
    for ln in lines:
        t = strip_comment(ln.text).strip()
        if not t:
            continue
        if cur and t.startswith("&"):
            t = t[1:].lstrip()
        if not cur:
            where = (ln.path, ln.no)
        if t.endswith("&"):
            cur += t[:-1]
            continue
        cur += t
        for part in split_top(cur, ";"):
            if part.strip():
                out.append((part.strip(),) + where)
        cur = ""
    return out


def strip_comment(t):
    q = None
    for i, c in enumerate(t):
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == "!":
            return t[:i]
    return t


def split_top(t, sep):
    parts, depth, q, cur = [], 0, None, ""
    for c in t:
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c in "([":
            depth += 1
        elif c in ")]":
            depth -= 1
        elif c == sep and depth == 0:
            parts.append(cur)
            cur = ""
            continue
        cur += c
    parts.append(cur)
    return parts


TOK = re.compile(r"""\s*(?:
    (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[edED][+-]?\d+)?)(?:_\w+)?
  | (?P<dot>\.[a-zA-Z]+\.)
  | (?P<name>[A-Za-z_]\w*)
  | (?P<op>\*\*|//|==|/=|<=|>=|=>|[-+*/()<>,:=%])
)""", re.X)


DOTS = re.compile(r"""('(?:[^']|'')*'|"(?:[^"]|"")*")|(\.(?:or|and|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)""", re.I)


def tokens(t):
    out, i = [], 0
    t = DOTS.sub(lambda m: m.group(0) if m.group(1) else " %s " % m.group(2), t.strip()).strip()
    while i < len(t):
        m = TOK.match(t, i)
        if m is None or m.end() == i:
            raise FortranError("cannot read %r" % t[i:i + 30])
        k = m.lastgroup
        v = m.group(k)
        if k in ("name", "dot"):
            v = v.lower()
        out.append((k, v))
        i = m.end()
        while i < len(t) and t[i].isspace():
            i += 1
    return out


PYKW = {"class", "is", "in", "not", "and", "or", "def", "from", "import", "lambda", "pass", "with", "as", "del", "global", "try", "raise",
        "None", "True", "False", "self", "hdf5", "fortran", "numpy", "max", "min", "range"}


def ident(n):
    return n + "_" if n in PYKW else n


class Expr(object):
    """Expression parser producing Python source."""

    def __init__(self, toks, sc):
        self.t, self.i, self.sc = toks, 0, sc

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("op", "dot"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise FortranError("expected %r, found %r" % (v, self.peek()[1]))

    LEVELS = [((".or.",), "or"), ((".and.",), "and")]

    def expr(self, lvl=0):
        if lvl == 0:
            a = self.expr(1)
            while self.accept(".or."):
                a = "(%s or %s)" % (a, self.expr(1))
            while self.peek()[1] in (".eqv.", ".neqv."):
                op = self.next()[1]
                a = "(%s %s %s)" % (a, "==" if op == ".eqv." else "!=", self.expr(1))
            return a
        if lvl == 1:
            a = self.expr(2)
            while self.accept(".and."):
                a = "(%s and %s)" % (a, self.expr(2))
            return a
        if lvl == 2:
            if self.accept(".not."):
                return "(not %s)" % self.expr(2)
            return self.expr(3)
        if lvl == 3:
            a = self.expr(4)
            ops = {".eq.": "==", "==": "==", ".ne.": "!=", "/=": "!=", ".lt.": "<", "<": "<", ".le.": "<=", "<=": "<=", ".gt.": ">",
                   ">": ">", ".ge.": ">=", ">=": ">="}
            while self.peek()[0] in ("op", "dot") and self.peek()[1] in ops:
                op = ops[self.next()[1]]
                a = "(%s %s %s)" % (a, op, self.expr(4))
            return a
        if lvl == 4:
            a = self.expr(5)
            while self.accept("//"):
                a = "fortran.concat(%s, %s)" % (a, self.expr(5))
            return a
        if lvl == 5:
            if self.accept("-"):
                a = "(-%s)" % self.expr(6)
            elif self.accept("+"):
                a = self.expr(6)
            else:
                a = self.expr(6)
            while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
                op = self.next()[1]
                a = "(%s %s %s)" % (a, op, self.expr(6))
            return a
        if lvl == 6:
            a = self.primary()
            while self.peek()[0] == "op" and self.peek()[1] in ("*", "/"):
                op = self.next()[1]
                a = "(%s %s %s)" % (a, "//" if op == "/" else op, self.primary())
            return a

    def primary(self):
        a = self.atom()
        if self.accept("**"):
            return "(%s ** %s)" % (a, self.primary())
        return a

    def atom(self):
        k, v = self.next()
        if k == "str":
            q = v[0]
            return repr(v[1:-1].replace(q + q, q))
        if k == "num":
            return v.rstrip(".") if v.endswith(".") else v
        if v == ".true.":
            return "True"
        if v == ".false.":
            return "False"
        if k == "op" and v == "(":
            a = self.expr()
            self.expect(")")
            return "(%s)" % a
        if k == "op" and v in ("-", "+"):
            return "(%s%s)" % (v, self.primary())
        if k != "name":
            raise FortranError("unexpected %r" % (v,))
        if self.peek() != ("op", "("):
            return self.sc.ref(v)
        self.next()
        args, kws = [], {}
        while not self.accept(")"):
            if self.peek()[0] == "name" and self.i + 1 < len(self.t) and self.t[self.i + 1] == ("op", "="):
                key = self.next()[1]
                self.next()
                kws[key] = self.expr()
            elif self.accept(":"):
                args.append(("slice", None, None if self.peek()[1] in (",", ")") else self.expr()))
            else:
                a = self.expr()
                if self.accept(":"):
                    b = None if self.peek()[1] in (",", ")") else self.expr()
                    args.append(("slice", a, b))
                else:
                    args.append(a)
            self.accept(",")
        return self.sc.apply(v, args, kws)


def minus1(e):
    if re.match(r"^\d+$", e):
        return str(int(e) - 1)
    m = re.match(r"^\((.*) \+ 1\)$", e)
    if m and balanced(m.group(1)):
        return m.group(1)
    return "(%s - 1)" % e


def balanced(t):
    d = 0
    for c in t:
        d += c == "("
        d -= c == ")"
        if d < 0:
            return False
    return d == 0


def subscript(args):
    out = []
    for a in args:
        if isinstance(a, tuple):
            out.append("%s:%s" % ("" if a[1] is None else minus1(a[1]), a[2] or ""))
        else:
            out.append(minus1(a))
    return ", ".join(out)


# ------------------------------------------------------------------------------------------------ declarations and routines
class Var(object):
    def __init__(self, name, typ, array=False, char=False, const=None, optional=False, dims=""):
        self.name, self.typ, self.array, self.char, self.const, self.optional, self.dims = name, typ, array, char, const, optional, dims


DECL = re.compile(r"^(integer|real|logical|character|double\s+precision|ARR_TYPE|type)\b", re.I)


def declaration(text):
    """Variables declared by a statement (None when it is not a declaration)."""
    if not DECL.match(text):
        return None
    m = DECL.match(text)
    typ = re.sub(r"\s+", " ", m.group(1).lower())
    rest = text[m.end():]
    if re.match(r"^\s*(\([^)]*\))?\s*function\b", rest, re.I):
        return None
    if "::" in rest:
        attrs, names = rest.split("::", 1)
    else:
        # old style: type [*n | (kind)] names
        m2 = re.match(r"^\s*(\*\s*\w+|\([^()]*(?:\([^()]*\))?[^()]*\))?\s*(.*)$", rest)
        attrs, names = m2.group(1) or "", m2.group(2)
        if not re.match(r"^[A-Za-z_]", names) or re.match(r"^\w+\s*=", names) or re.match(r"^%|^\(", names):
            return None
    parts = split_top(attrs, ",")
    kind = parts[0].strip()
    dim = any(re.match(r"^\s*dimension\b", p, re.I) for p in parts)
    dims = next((p.strip()[9:].strip() for p in parts if re.match(r"^\s*dimension\b", p, re.I)), "")
    par = any(p.strip().lower() == "parameter" for p in parts)
    opt = any(p.strip().lower() == "optional" for p in parts)
    intent = next((re.sub(r"\s+", "", p).lower() for p in parts if p.strip().lower().startswith("intent")), "")
    out = []
    for n in split_top(names, ","):
        n = n.strip()
        if not n:
            continue
        val = None
        eq = re.match(r"^([^=]*?)=(?!=)(.*)$", n)
        if eq:
            n, val = eq.group(1).strip(), eq.group(2).strip()
        m3 = re.match(r"^(\w+)\s*(\(.*\))?\s*(\*.*)?$", n)
        if not m3:
            raise FortranError("declaration " + text)
        v = Var(m3.group(1).lower(), typ + kind, dim or bool(m3.group(2)), typ == "character", val if par else None, opt,
                dims or (m3.group(2) or ""))
        v.init, v.intent = (None if par else val), intent
        out.append(v)
    return out


class Scope(object):
    def __init__(self, local, module, routines):
        self.local, self.module, self.routines = local, module, routines

    def var(self, n):
        return self.local.get(n) or self.module.get(n)

    def ref(self, n):
        v = self.local.get(n)
        if v is not None:
            if v.const is not None:
                return Expr(tokens(v.const), self).expr()
            return ident(n)
        v = self.module.get(n)
        if v is not None:
            return "hdf5." + n if v.const is not None else "self." + ident(n)
        return "hdf5." + n

    def apply(self, n, args, kws):
        v = self.var(n)
        if v is not None and n != "len":
            if v.char and not v.array:
                return "%s[%s]" % (self.ref(n), subscript(args)) if isinstance(args[0], tuple) else self.ref(n)
            return "%s[%s]" % (self.ref(n), subscript(args))
        if n in DROP:
            return args[0]
        if n in INTRINSIC1:
            return args[0]
        if n == "present":
            return "(%s is not None)" % args[0]
        if n in ("min", "max") and len(args) == 2:
            return "fortran.%s(%s)" % (n, ", ".join(args))
        if any(isinstance(a, tuple) for a in args):
            raise FortranError("section of unknown %s" % n)
        a = list(args) + ["%s=%s" % (k, kws[k]) for k in sorted(kws) if k != "kind"]
        if n in self.routines:
            return "self.%s(%s)" % (n, ", ".join(a))
        return "fortran.%s(%s)" % (n, ", ".join(a))


class Routine(object):
    def __init__(self, name, args, body, path, line, function=False):
        self.name, self.args, self.body, self.path, self.line, self.function = name, args, body, path, line, function


def routines(stmts):
    """Subroutines and functions among statements; the remaining statements."""
    out, rest, i = [], [], 0
    while i < len(stmts):
        t, p, n = stmts[i]
        m = re.match(r"^(?:(?:integer|real|logical|character|double\s+precision)\s*(?:\([^)]*\))?\s+)?(?:recursive\s+|pure\s+)*"
                     r"(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*(?:result\s*\(\s*(\w+)\s*\))?\s*$", t, re.I)
        if m and not t.lower().startswith("end"):
            j = i + 1
            while not re.match(r"^end\s*(subroutine|function|program)?\b(\s+\w+)?\s*$", stmts[j][0], re.I) or \
                    re.match(r"^end\s*(if|do|select|where|interface|type)\b", stmts[j][0], re.I):
                j += 1
            args = [a.strip().lower() for a in (m.group(3) or "").split(",") if a.strip()]
            r = Routine(m.group(2), args, stmts[i + 1:j], p, n, m.group(1).lower() == "function")
            r.result = (m.group(4) or m.group(2)).lower()
            out.append(r)
            i = j + 1
        else:
            rest.append(stmts[i])
            i += 1
    return out, rest


def assigned(n, var, body):
    return any(re.match(r"^%s\s*=[^=]" % re.escape(n), t, re.I) or re.search(r"(?i)\)\s*%s\s*=[^=]" % re.escape(n), t) for t, _, _ in body)


class Translator(object):
    def __init__(self, r, module, table, shims, busy=frozenset()):
        self.r, self.table, self.shims, self.busy = r, table, shims, busy
        names = set(table)
        self.local, self.body = {}, []
        for t, p, n in r.body:
            if re.match(r"^(implicit|use|save|external|intrinsic|private|public)\b", t, re.I):
                continue
            d = declaration(t)
            if d is not None:
                for v in d:
                    self.local[v.name] = v
            else:
                self.body.append((t, p, n))
        self.sc = Scope(self.local, module, names)
        if r.function:
            self.local.setdefault(r.result, Var(r.result, "result"))
        self.lines, self.where, self.ind = [], [], 1
        self.outs = []
        for a in r.args:
            v = self.local.get(a)
            if v is not None and not v.array and getattr(v, "intent", "") != "intent(in)" and self.is_out(a):
                self.outs.append(a)
        if r.function:
            self.outs = [r.result]

    def is_out(self, a):
        if assigned(a, None, self.body):
            return True
        for t, p, n in self.body:
            m = re.search(r"(?i)\bcall\s+(\w+)\s*\((.*)\)\s*$", t)
            if m and m.group(1).lower() in OUT:
                xs = [x.strip().lower() for x in split_top(m.group(2), ",")]
                for k in OUT[m.group(1).lower()]:
                    if k < len(xs) and xs[k] == a:
                        return True
            elif m and m.group(1).lower() in self.table and m.group(1).lower() not in self.busy:
                n = m.group(1).lower()
                xs = [x.strip().lower() for x in split_top(m.group(2), ",")]
                args = self.table[n].args
                for b in self.outs_of(n):
                    if args.index(b) < len(xs) and xs[args.index(b)] == a:
                        return True
        return False

    def outs_of(self, n):
        """Output arguments of another routine of the module."""
        if n not in self.table or n in self.busy:
            return []
        t = Translator(self.table[n], self.sc.module, self.table, self.shims, self.busy | {n})
        return t.outs

    def emit(self, s, w):
        self.lines.append("    " * self.ind + s)
        self.where.append(w[1])

    def source(self):
        head = ["self"] + [ident(a) for a in self.r.args]
        opt = False
        sig = []
        for a, h in zip([None] + self.r.args, head):
            v = self.local.get(a) if a else None
            opt = opt or bool(v is not None and v.optional)
            sig.append(h + ("=None" if opt else ""))
        out = ["def %s(%s):" % (self.pyname, ", ".join(sig))]
        w0 = (self.r.path, self.r.line)
        for n, v in self.local.items():
            if n in self.r.args or v.const is not None:
                continue
            if v.array:
                self.emit("%s = numpy.empty(%s)" % (ident(n), self.size(v)), w0)
            elif n == self.r.result and self.r.function:
                self.emit("%s = None" % ident(n), w0)
        for t, p, n in self.body:
            try:
                self.stmt(t, (p, n))
            except (FortranError, IndexError, TypeError) as e:
                raise FortranError("%s:%d: %s [%s]" % (p, n, e, t[:80]))
        self.emit(self.ret(), self.last(w0))
        return out[0] + "\n" + "\n".join(self.lines) + "\n", [self.r.line] + self.where

    def last(self, w0):
        return (self.body[-1][1], self.body[-1][2]) if self.body else w0

    def size(self, v):
        d = v.dims.strip()
        d = d[1:-1] if d.startswith("(") else d
        try:
            return ", ".join(Expr(tokens(x), self.sc).expr() for x in split_top(d, ",")) or "0"
        except FortranError:
            return "0"

    def ret(self):
        return "return (%s,)" % ", ".join(ident(a) for a in self.outs) if self.outs and not self.r.function else \
            "return %s" % ident(self.outs[0]) if self.outs else "return None"

    def ex(self, t):
        p = Expr(tokens(t), self.sc)
        r = p.expr()
        if p.i != len(p.t):
            raise FortranError("trailing %r" % (p.t[p.i:],))
        return r

    def stmt(self, t, w):
        low = t.lower()
        m = re.match(r"^\d+\s+(continue)$", low)
        if m or low in ("continue", "contains"):
            return
        m = re.match(r"^\w+\s*:\s*(do|if)\b", low)
        if m:
            t = t[m.start(1):]
            low = t.lower()
        if re.match(r"^if\s*\(", low):
            c, rest = self.paren(t[t.index("("):])
            if rest.strip().lower() == "then":
                self.emit("if %s:" % self.ex(c), w)
                self.ind += 1
                self.emit("pass", w)
            else:
                self.emit("if %s:" % self.ex(c), w)
                self.ind += 1
                self.emit("pass", w)
                self.stmt(rest.strip(), w)
                self.ind -= 1
            return
        if re.match(r"^else\s*if\s*\(", low):
            c, rest = self.paren(t[t.index("("):])
            self.ind -= 1
            self.emit("elif %s:" % self.ex(c), w)
            self.ind += 1
            self.emit("pass", w)
            return
        if re.match(r"^else(\s+\w+)?$", low):
            self.ind -= 1
            self.emit("else:", w)
            self.ind += 1
            self.emit("pass", w)
            return
        if re.match(r"^end\s*(if|do|select)\b", low):
            self.ind -= 1
            if low.replace(" ", "").startswith("endselect"):
                self.ind -= 0
            return
        m = re.match(r"^do\s+while\s*\(", low)
        if m:
            c, rest = self.paren(t[t.index("("):])
            self.emit("while %s:" % self.ex(c), w)
            self.ind += 1
            self.emit("pass", w)
            return
        m = re.match(r"^do\s+(\w+)\s*=\s*(.*)$", t, re.I)
        if m:
            p = [self.ex(x) for x in split_top(m.group(2), ",")]
            step = p[2] if len(p) > 2 else "1"
            stop = "%s + 1" % p[1] if not step.startswith("(-") else minus1(p[1])
            step = step[1:-1] if re.match(r"^\(-\d+\)$", step) else step
            self.emit("for %s in range(%s, %s%s):" % (ident(m.group(1).lower()), p[0], stop, "" if step == "1" else ", " + step), w)
            self.ind += 1
            self.emit("pass", w)
            return
        if low == "do":
            self.emit("while True:", w)
            self.ind += 1
            self.emit("pass", w)
            return
        if low in ("exit", "cycle"):
            return self.emit("break" if low == "exit" else "continue", w)
        if low == "return":
            return self.emit(self.ret(), w)
        m = re.match(r"^(?:error\s+)?stop\b\s*(.*)$", low)
        if m:
            return self.emit("raise SystemExit(%s)" % (m.group(1) or "0"), w)
        if re.match(r"^(write|print)\b", low):
            return
        m = re.match(r"^call\s+(\w+)\s*(?:\((.*)\))?$", t, re.I | re.S)
        if m:
            return self.call(m.group(1).lower(), m.group(2) or "", w)
        # assignment
        p = Expr(tokens(t), self.sc)
        k, n = p.next()
        if k != "name":
            raise FortranError("statement not understood")
        v = self.sc.var(n)
        if p.peek() == ("op", "("):
            p.i = 0
            lhs = p.atom()
            p.expect("=")
            rhs = p.expr()
            if v is not None and v.char and not v.array:
                toks = Expr(tokens(t), self.sc)
                raw = self.section(t)
                self.emit("%s = fortran.setstr(%s, %s, %s)" % (self.sc.ref(n), self.sc.ref(n), raw, rhs), w)
            else:
                self.emit("%s = %s" % (lhs, rhs), w)
        else:
            p.expect("=")
            rhs = p.expr()
            if v is None:
                raise FortranError("assignment to unknown %s" % n)
            self.emit("%s%s = %s" % (self.sc.ref(n), "[:]" if v.array else "", rhs), w)
        if p.i != len(p.t):
            raise FortranError("trailing %r" % (p.t[p.i:],))

    def section(self, t):
        c, rest = self.paren(t[t.index("("):])
        a, b = split_top(c, ":")
        return "%s, %s" % (self.ex(a) if a.strip() else "1", self.ex(b) if b.strip() else "None")

    def paren(self, t):
        """Contents of the leading parentheses, and what follows."""
        d, q = 0, None
        for i, c in enumerate(t):
            if q:
                q = None if c == q else q
            elif c in "'\"":
                q = c
            elif c == "(":
                d += 1
            elif c == ")":
                d -= 1
                if d == 0:
                    return t[1:i], t[i + 1:]
        raise FortranError("parentheses")

    def call(self, n, argtext, w):
        raw = [x.strip() for x in split_top(argtext, ",") if x.strip()]
        if n == "hdf5_abort":
            return self.emit("raise SystemExit('abort')", w)
        if n == "write_wrapped_text":
            return
        pos = [(x, None) if not re.match(r"^\w+\s*=[^=]", x) else (x.split("=", 1)[1].strip(), x.split("=", 1)[0].strip().lower())
               for x in raw]
        sh = self.shims.get(n)
        if sh is not None and sh.api is not None:
            if sh.why:
                raise FortranError("C routine %s: %s" % (n, sh.why))
            buf = next((i for k, i in sh.args if k == "buf"), None)
            if len(pos) <= max([i for k, i in sh.args if k != "const"] + [sh.status or 0]):
                raise FortranError("C routine %s: arguments" % n)
            ins, outs = [], []
            for k, i in sh.args:
                if k == "const":
                    ins.append(str(i))
                elif k == "buf" and "read" in sh.api.lower():
                    outs.append(pos[i][0])
                else:
                    e = self.ex(pos[i][0])
                    ins.append("hdf5.low_bits(%s)" % e if k == "low" else e)
            outs = [self.target(x) for x in outs]
            if sh.status is not None:
                outs.append(self.target(pos[sh.status][0]))
            elif outs:
                outs.append("unused_status")
            f = "hdf5.%s(%s)" % (sh.api.lower(), ", ".join(ins))
            return self.emit("%s = %s" % (", ".join(outs), f) if outs else f, w)
        if n in OUT:
            outs, ins = [], []
            for i, (x, k) in enumerate(pos):
                if i in OUT[n] and k is None or k in ("hdferr", "error"):
                    outs.append(x)
                else:
                    e = self.ex(x)
                    ins.append(e if k is None else "%s=%s" % (k, e))
            if n in STATE:
                ins.append("version=self.h5version")
            f = "hdf5.%s(%s)" % (n, ", ".join(ins))
            targets = [self.target(x) for x in outs]
            if len(targets) == 1:
                self.emit("%s = %s" % (targets[0], f), w)
            else:
                self.emit("%s = %s" % (", ".join(targets), f), w)
            if n in CHANGE:
                self.emit("self.h5version = hdf5.changed(self.h5version)", w)
            return
        args = [self.ex(x) if k is None else "%s=%s" % (k, self.ex(x)) for x, k in pos]
        if n in self.sc.routines:
            f = "self.%s(%s)" % (n, ", ".join(args))
            outs = self.outs_of(n)
            if outs:
                r, ts = self.table[n], []
                named = {k: x for x, k in pos if k is not None}
                for a in outs:
                    i = r.args.index(a)
                    x = pos[i][0] if i < len(pos) and pos[i][1] is None else named.get(a)
                    ts.append(self.target(x) if x is not None else "unused_out")
                f = "%s, = %s" % (", ".join(ts), f)
            return self.emit(f, w)
        self.emit("hdf5.%s(%s)" % (n, ", ".join(args)), w)

    def target(self, x):
        n = x.lower()
        v = self.sc.var(n)
        if re.match(r"^\w+$", x):
            if v is not None and v.array:
                return self.sc.ref(n) + "[:]"
            return self.sc.ref(n)
        return self.ex(x)


# ------------------------------------------------------------------------------------------------ the whole wrapper
class Wrapper(object):
    """Parsed wrapper: module variables, interfaces, routines, and the expansions of the four templates."""

    def __init__(self, root):
        self.dir = os.path.join(root, "fortran", "hdf5_wrapper", "src")
        self.main = os.path.join(self.dir, "hdf5_wrapper.F90")
        self.expansions = []        # (template, macros, path, line)
        self.texts = {}             # (template, text) -> key
        self.variants = {}          # key -> list of expansion indices
        lines = preprocess(self.main, {}, self.included)
        st = statements(lines)
        rs, rest = routines(st)
        self.routines = {r.name.lower(): r for r in rs}
        self.module, self.interfaces, self.public = {}, {}, set()
        i = 0
        while i < len(rest):
            t = rest[i][0]
            m = re.match(r"^interface\s+(\w+)$", t, re.I)
            if m:
                lst = self.interfaces.setdefault(m.group(1).lower(), [])
                i += 1
                while not re.match(r"^end\s*interface\b", rest[i][0], re.I):
                    m2 = re.match(r"^(?:module\s+)?procedure\s*(?:::)?\s*(.*)$", rest[i][0], re.I)
                    if m2:
                        lst.extend((x.strip().lower(), rest[i][2]) for x in m2.group(1).split(",") if x.strip())
                    i += 1
            elif re.match(r"^public\b", t, re.I):
                self.public |= {x.strip().lower() for x in re.sub(r"(?i)^public\s*(::)?", "", t).split(",")}
            else:
                d = declaration(t)
                for v in d or ():
                    self.module[v.name] = v
            i += 1

    def included(self, inc, macros, path, no):
        base = inc[:-4] if inc.endswith(".inc") else inc
        if "SUB_NAME" not in macros:
            return None
        sub = os.path.join(self.dir, inc)
        text = preprocess(sub, dict(macros), lambda *a: None)
        kind = ("string" if "STRING" in macros else "number") + "_" + ("scalar" if "SCALAR" in macros else "array")
        e = {"template": base, "macros": macros, "path": path, "line": no, "lines": text, "kind": kind}
        e["text"] = "\n".join(t for t, p, n in statements(text))
        self.expansions.append(e)
        return []

    def groups(self):
        """Distinct texts: (template, kind, number) -> expansion."""
        out, seen = {}, {}
        for e in self.expansions:
            k = (e["template"], e["kind"], e["text"])
            if k not in seen:
                n = sum(1 for q in seen if q[:2] == k[:2])
                seen[k] = "%s_%s%s" % (e["template"], e["kind"], "" if n == 0 else "_%d" % n)
                out[seen[k]] = e
            e["group"] = seen[k]
        return out

    MACROS = ("NDIMS", "NATIVE_TYPE", "DATA_CLASS")

    def translate(self):
        """Python functions: name -> (source, original line numbers, path)."""
        out, self.failed = {}, {}
        self.shims = cshim.shims(self.dir)
        for n, r in self.routines.items():
            if n in ("write_wrapped_text",):
                continue
            self.one(out, n, r, self.module)
        for g, e in self.groups().items():
            rs, rest = routines(statements(e["lines"]))
            if len(rs) != 1 or rest:
                self.failed[g] = "template is not one routine"
                continue
            mod = dict(self.module)
            self.one(out, g, rs[0], mod)
        return out

    def one(self, out, n, r, mod):
        try:
            t = Translator(r, mod, self.routines, self.shims)
            t.pyname = n
            src, lines = t.source()
            ast.parse(src)
            out[n] = (src, lines, r.path)
        except (FortranError, SyntaxError) as e:
            self.failed[n] = str(e)


def attach(prog, root):
    """Adds the wrapper to a program as class fortran.Wrapper."""
    from .model import Module, ClassInfo, FuncInfo
    w = Wrapper(root)
    funcs = w.translate()
    mods = {}
    head = "import hdf5, fortran, numpy\nclass Wrapper:\n    pass\n"
    main = Module("fortran", w.main, head)
    prog.modules["fortran"] = main
    cls = main.classes["Wrapper"]
    for n, (src, lines, path) in funcs.items():
        tree = ast.parse(src)
        for node in ast.walk(tree):
            if hasattr(node, "lineno"):
                k = node.lineno - 1
                node.lineno = node.end_lineno = lines[min(k, len(lines) - 1)]
        m = main
        if path != w.main:
            m = mods.get(path)
            if m is None:
                m = mods[path] = Module("fortran." + os.path.basename(path)[:-4], path, "import hdf5, fortran, numpy\n")
                prog.modules[m.name] = m
        cls.methods[n] = FuncInfo("fortran.Wrapper." + n, tree.body[0], m, cls=cls)
    return w
