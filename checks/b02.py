"""B02: one byte order for every part of a file."""
from .common import *


def run(c):
    conform(c, """util.read_binary.BinaryFile.set_endian util.read_binary.BinaryFile.enable_byteswap util.read_binary.BinaryFile.toggle_byteswap util.read_binary.BinaryFile._add_block util.read_binary.BinaryFile.__init__ util.read_binary.BinaryGroup._add_block util.read_binary.BinaryFile.start_fortran_record util.read_binary.BinaryFile.end_fortran_record util.read_binary.BinaryFile.read_and_skip
        util.read_binary.BinaryDataset.__getitem__ util.read_binary.BinaryDataset.__init__ util.read_binary.big_or_little util.read_binary.need_byteswap util.read_binary.BinaryAttrs.__getitem__""")
    order(c)


ORDER = "read-in-decided-order"
DECIDE = ("enable_byteswap", "set_endian", "toggle_byteswap")
LAYOUT = ("add_dataset", "add_attribute", "skip_bytes", "read_and_skip", "_add_block", "start_fortran_record", "end_fortran_record")


def order(c):
    c.rule(ORDER, "in a constructor of a binary format, every value from the file that determines the layout or an attribute is read after "
                  "the byte order has been decided (a read that comes earlier serves the decision only)")
    for uid, s in summaries(c, [u for u in UNITS if u.startswith(("formats.", "sims.")) and u.endswith(".__init__")], ORDER, epochs=True):
        decisions = [(e, and_(*[g.cond for g in e.guards])) for e in s.events if e.op == "prim" and cval(e.data["name"]).endswith(DECIDE)]
        if not decisions:
            continue
        n = 0
        for e in s.events:
            if e.op == "prim" and cval(e.data["name"]).endswith(DECIDE):
                n += 1
            if e.op == "prim" and cval(e.data["name"]).split(".")[-1] in LAYOUT:
                what = cval(e.data["name"]).split(".")[-1]
                nm = e.data["bound"].get("name")
                at = "%s:%s %s %s(%s)" % (e.path, e.line, uid, what, show(nm, 2) if nm is not None else "")
                early = [x for k, v in e.data["bound"].items() if k != "self"
                         for x in stale(v, n, decisions, and_(*[g.cond for g in e.guards if g.kind == "if"]))]
                c.count("layout operations")
                c.require(not early, ORDER, at, "depends on %s, read before line %s sets the byte order" % (
                    show(early[0][0], 4), early[0][1].line) if early else "")
        for k, v in s.attrs.items():
            early = stale(v, n, decisions, TRUE)
            c.count("attributes")
            c.require(not early, ORDER, "%s:%s %s self.%s" % (s.fi.mod.path, s.fi.node.lineno, uid, k),
                      "holds %s, read before line %s sets the byte order" % (show(early[0][0], 4), early[0][1].line) if early else "")


def stale(t, n, decisions, given):
    """Values in a term read before one of the first n byte order decisions, with that decision."""
    out, seen, todo = [], set(), [(t, given)]
    while todo:
        x, g = todo.pop()
        if not isinstance(x, Term) or (x, g) in seen or g is FALSE:
            continue
        seen.add((x, g))
        if x.op == "fread":
            for d, cond in decisions[x.args[0]:n]:
                if unmark(and_(g, cond)) is not FALSE:
                    out.append((x.args[1], d))
                    break
        if x.op == "ite":
            todo += [(x.args[1], and_(g, x.args[0])), (x.args[2], and_(g, not_(x.args[0])))]
        else:
            todo += [(y, g) for y in x.args]
    return out


def unmark(t, memo=None):
    """A condition without the marks of when its values were read."""
    if t.op in ("and", "or", "not"):
        a = [unmark(x) for x in t.args]
        return not_(a[0]) if t.op == "not" else and_(*a) if t.op == "and" else or_(*a)
    return t
