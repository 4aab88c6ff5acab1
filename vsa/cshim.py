"""What the C routines called from Fortran do, read from the compiler's intermediate representation: which library routine each
one calls, with which of its parameters, and where the status goes."""
import os, re, shutil, subprocess, tempfile

FC = "#define FC_GLOBAL(name,NAME) name##_\n#define FC_GLOBAL_(name,NAME) name##_\n"
HDF5 = """typedef long long hid_t; typedef int herr_t; typedef unsigned long long hsize_t; typedef int hbool_t;
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
herr_t H5Dread(hid_t,hid_t,hid_t,hid_t,hid_t,void*); herr_t H5Dwrite(hid_t,hid_t,hid_t,hid_t,hid_t,const void*);
herr_t H5Aread(hid_t,hid_t,void*); herr_t H5Awrite(hid_t,hid_t,const void*);
"""
CLANG = ("/usr/bin/clang-18", "clang-18", "clang")


class Shim(object):
    """name, api, args (("in", parameter) | ("low", parameter: only 4 bytes of it) | ("buf", parameter) | ("const", value)), status parameter, or why it is unknown."""

    def __init__(self, name, path, line):
        self.name, self.path, self.line = name, path, line
        self.api = self.status = self.why = self.stores = None
        self.args = []


def ir(path, target=None):
    cc = next((c for c in CLANG if shutil.which(c)), None)
    if cc is None:
        return None
    d = tempfile.mkdtemp(prefix="vsa_c_")
    try:
        for n, t in (("FC.h", FC), ("hdf5.h", HDF5)):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        cmd = [cc, "-O2", "-w", "-S", "-emit-llvm", "-I" + d, "-o", "-", path] + (["--target=" + target] if target else [])
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
        return r.stdout if r.returncode == 0 else None
    except (OSError, subprocess.SubprocessError):
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def functions(text):
    out = []
    for m in re.finditer(r"^define [^\n]*?@(\w+)\(([^\n]*)\)[^\n]*\{\n(.*?)^\}", text, re.S | re.M):
        params = re.findall(r"%([\w.]+)(?=,|$)", m.group(2))
        out.append((m.group(1), params, m.group(3)))
    return out


def shims(d):
    out = {}
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".c"):
            continue
        path = os.path.join(d, fn)
        with open(path, errors="replace") as f:
            src = f.read()
        text = ir(path)
        names = {m.group(1).lower(): src.count("\n", 0, m.start()) + 1 for m in re.finditer(r"FC_GLOBAL_?\s*\(\s*(\w+)", src)}
        done = set()
        for name, params, body in functions(text or ""):
            n = name[:-1] if name.endswith("_") else name
            if n not in names:
                continue
            done.add(n)
            s = out[n] = Shim(n, path, names[n])
            read(s, params, body)
        for n in names:
            if n not in done:
                s = out[n] = Shim(n, path, names[n])
                s.why = "not compiled"
    return out


def read(s, params, body):
    val = {p: ("ptr", i) for i, p in enumerate(params)}
    stores = []
    for ln in body.split("\n"):
        t = ln.split(";")[0].strip()
        t = re.sub(r",\s*!.*$", "", t)
        if not t or re.match(r"^[\w.]+:$", t) or t.startswith("ret void") or "@llvm.lifetime" in t or t.startswith("#dbg") or "@llvm.dbg" in t:
            continue
        m = re.match(r"^%([\w.]+) = load (\w+), ptr %([\w.]+)", t)
        if m and val.get(m.group(3), ("",))[0] == "ptr":
            val[m.group(1)] = ("in" if m.group(2) == "i64" else "low", val[m.group(3)][1])
            continue
        m = re.match(r"^%([\w.]+) = [sz]ext (?:nneg )?\w+ %([\w.]+) to i64", t)
        if m and val.get(m.group(2), ("",))[0] == "low":
            val[m.group(1)] = val[m.group(2)]
            continue
        m = re.match(r"^%([\w.]+) = (?:tail |musttail |notail )?call [^@]*@(\w+)\((.*)\)", t)
        if m:
            if s.api is not None:
                s.why = "calls more than one routine"
                return
            s.api = m.group(2)
            for a in split(m.group(3)):
                v = a.split()[-1]
                if v.startswith("%") and v[1:] in val and val[v[1:]][0] in ("in", "low", "ptr"):
                    k = val[v[1:]]
                    s.args.append(("buf" if k[0] == "ptr" else k[0], k[1]))
                elif re.match(r"^-?\d+$|^null$", v):
                    s.args.append(("const", 0 if v == "null" else int(v)))
                else:
                    s.why = "argument " + v
                    return
            val[m.group(1)] = ("result", None)
            continue
        m = re.match(r"^store \w+ (%[\w.]+|-?\d+), ptr %([\w.]+)", t)
        if m and val.get(m.group(2), ("",))[0] == "ptr":
            v = m.group(1)
            stores.append((val[m.group(2)][1], val.get(v[1:], ("?",)) if v.startswith("%") else ("const", int(v))))
            continue
        s.why = "statement " + t[:60]
        return
    s.stores = stores
    if s.api is not None:
        if len(stores) == 1 and stores[0][1][0] == "result":
            s.status = stores[0][0]
        elif not any(v[0] == "result" for i, v in stores):
            s.status = None
        else:
            s.why = "status"


def split(t):
    out, d, cur = [], 0, ""
    for ch in t:
        d += ch in "(<" and 1 or ch in ")>" and -1 or 0
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def order_flag(d, name="byte_order"):
    """The value the byte order routine stores on a little and on a big endian machine (None: not constant)."""
    out = []
    for target in (None, "powerpc64-linux-gnu"):
        v = None
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".c"):
                with open(os.path.join(d, fn), errors="replace") as f:
                    if not re.search(r"FC_GLOBAL_?\s*\(\s*%s\b" % name, f.read()):
                        continue
                for n, params, body in functions(ir(os.path.join(d, fn), target) or ""):
                    if n.rstrip("_") == name:
                        s = Shim(n, fn, 0)
                        read(s, params, body)
                        if s.why is None and s.api is None and s.stores and len(s.stores) == 1 and s.stores[0][1][0] == "const":
                            v = s.stores[0][1][1]
        out.append(v)
    return tuple(out)
