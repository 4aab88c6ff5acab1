"""K01: every type and rank variant of the Fortran interfaces."""
import re
from .common import *
from vsa import cshim

COMPLETE, MATCH, FLAG = "variants-complete", "variant-consistent", "byte-order-flag"
TEMPLATE = {"hdf5_read_data": "read_dataset", "hdf5_write_data": "write_dataset", "hdf5_read_attribute": "read_attribute",
            "hdf5_write_attribute": "write_attribute"}
KINDS = {"REAL4": ("NATIVE_REAL4", "H5T_FLOAT_F"), "REAL8": ("NATIVE_REAL8", "H5T_FLOAT_F"), "INTEGER4": ("NATIVE_INTEGER4", "H5T_INTEGER_F"),
         "INTEGER8": ("NATIVE_INTEGER8", "H5T_INTEGER_F"), "CHARACTER": (None, "H5T_STRING_F")}
RANKS = range(8)


def kind(t):
    """The type a declaration names."""
    t = re.sub(r"\s+", "", t or "").upper()
    if t in ("REAL", "REAL*4", "REAL(4)", "REAL(KIND=4)"):
        return "REAL4"
    if t in ("REAL*8", "DOUBLEPRECISION", "REAL(8)", "REAL(KIND=8)"):
        return "REAL8"
    if t in ("INTEGER", "INTEGER*4", "INTEGER(4)", "INTEGER(KIND=4)"):
        return "INTEGER4"
    if t in ("INTEGER*8", "INTEGER(8)", "INTEGER(KIND=8)"):
        return "INTEGER8"
    if re.match(r"^CHARACTER(\(LEN=\*\)|\(\*\)|\*\(\*\))$", t):
        return "CHARACTER"
    return None


def rank(dims):
    d = re.sub(r"\s+", "", dims or "")
    if d == "":
        return 0
    return d.count(":") if re.match(r"^\(:(,:)*\)$", d) else None


def run(c):
    c.rule(COMPLETE, "each generic interface is public and has exactly one variant for each of the five types and each rank 0 to 7")
    c.rule(MATCH, "a variant's declared rank, number of dimensions, memory type and data class are those of the array it is declared for, and "
                  "it is an instance of the template of its interface")
    c.rule(FLAG, "the byte order routine tells little from big endian machines, and the types defined for each are those of that byte order")
    try:
        prog = c.prog
        from vsa.fortran import attach
        w = prog.fortran = attach(prog, prog.root) if "fortran" not in prog.modules else prog.fortran
    except Exception as e:
        c.undecided(COMPLETE, "fortran wrapper", "not parsed: %s" % e)
        return
    byname = {}
    for e in w.expansions:
        byname.setdefault(e["macros"]["SUB_NAME"].lower(), []).append(e)
    c.count("variants", len(w.expansions))
    for iface, template in TEMPLATE.items():
        members = w.interfaces.get(iface)
        at = "%s interface %s" % (w.main, iface)
        if members is None:
            c.violation(COMPLETE, at, "the interface is missing")
            continue
        c.require(iface in w.public, COMPLETE, at, "the interface is not public")
        got = {}
        for name, line in members:
            es = byname.get(name)
            if not es:
                if name in w.routines:
                    c.undecided(COMPLETE, at + " " + name, "not made from a template")
                else:
                    c.violation(COMPLETE, at, "%s is not defined" % name)
                continue
            e = es[0]
            m = e["macros"]
            where = "%s:%d %s" % (e["path"], e["line"], name)
            k, r = kind(m.get("ARR_TYPE")), rank(m.get("ARRAY_DIM")) if "SCALAR" not in m else 0
            if k is None or r is None:
                c.undecided(MATCH, where, "declaration %s %s" % (m.get("ARR_TYPE"), m.get("ARRAY_DIM")))
                continue
            got.setdefault((k, r), []).append(name)
            c.require(len(es) == 1, MATCH, where, "defined %d times" % len(es))
            c.require(e["template"] == template, MATCH, where, "made from %s, not %s" % (e["template"], template))
            c.require(m.get("NDIMS", "").strip() == str(r), MATCH, where, "handles %s dimensions of an array of rank %d" % (m.get("NDIMS"), r))
            native, cls = KINDS[k]
            c.require((k == "CHARACTER") == ("STRING" in m), MATCH, where, "%s handled as %s" % (k, "a string" if "STRING" in m else "a number"))
            if native:
                c.require(m.get("NATIVE_TYPE", "").upper() == native, MATCH, where, "memory type %s for an array of %s" % (m.get("NATIVE_TYPE"), k))
            if uses(e, "DATA_CLASS"):
                c.require(m.get("DATA_CLASS", "").upper() == cls, MATCH, where, "data class %s for an array of %s" % (m.get("DATA_CLASS"), k))
        for k in KINDS:
            for r in RANKS:
                n = got.get((k, r), [])
                c.require(len(n) == 1, COMPLETE, "%s %s rank %d" % (at, k, r), "variants: %s" % (", ".join(n) or "none"))
    order(c, w)
    for g, e in w.groups().items():
        if g in w.failed:
            c.undecided("conforms", g, w.failed[g])
        elif "fortran." + g not in UNITS:
            c.undecided("conforms", g, "a new version of the template")
    T_ = [u for u in UNITS if re.match(r"^fortran\.(read|write)_", u)]
    conform(c, T_, ("ret", "mem", "attrs"))
    conform(c, T_, ("effects",), select=lambda r: any(n in r.name for n in (
        "read", "write", "h5screate", "h5sselect", "h5dcreate", "h5acreate", "h5tcopy", "h5tset", "h5dextend", "h5pset_chunk")))
    conform(c, "fortran.define_types")


def uses(e, macro):
    return any(macro in re.findall(r"\w+", t) for t in e["text"].split("\n"))


def order(c, w):
    little, big = cshim.order_flag(w.dir)
    at = "byte_order and define_types"
    if little is None or big is None:
        return c.undecided(FLAG, at, "the flag is not a constant of the machine")
    if not c.require(little != big, FLAG, at, "the flag is %s on every machine" % little):
        return
    from vsa.terms import rebuild
    for u, s in summaries(c, ["fortran.define_types"], FLAG):
        for k in ("native_integer4", "native_integer8", "native_real4", "native_real8"):
            v = s.attrs.get(k)
            if v is None:
                c.violation(FLAG, at, "%s is not set" % k)
                continue
            for flag, suffix in ((little, "le"), (big, "be")):
                def f(x, cache):
                    return C(flag) if x.op == "call" and "byte_order" in str(x.args[0]) else None
                t = rebuild(v, f)
                want = "h5t_%s%s%s" % ("std_i" if "integer" in k else "ieee_f", "32" if k.endswith("4") else "64", suffix)
                name = str(t.args[0]).split(".")[-1].lower() if t.op in ("ext", "sym") else None
                if name is None:
                    c.undecided(FLAG, at + " " + k)
                else:
                    c.require(name == want, FLAG, "%s %s on a %s endian machine" % (at, k, "little" if suffix == "le" else "big"), "is %s" % name)
