"""B03: data handed out is independent of the file."""
from .common import *
from vsa.alias import sources

FRESH = "fresh-result"


def run(c):
    conform(c, """util.read_binary.BinaryDataset.__getitem__ util.read_binary.BinaryDataset.__array__ util.read_binary.BinaryDataset._mmap_file util.read_binary.BinaryDataset.close util.read_binary.MemoryMappedFile.* util.read_binary.BinaryAttrs.* util.read_binary.BinaryGroup.close util.read_binary.BinaryGroup.write_hdf5 util.read_binary.BinaryFile.__enter__ util.read_binary.BinaryFile.__exit__ util.read_binary.BinaryFile.write_binary util.read_binary.BinaryFile.hash""")

    c.rule(FRESH, "what a read returns never shares memory with the mapped file: every alternative of the result passes through a copy, "
                  "a byte swap, a conversion or advanced indexing")
    for uid, s in summaries(c, ["util.read_binary.BinaryDataset.__getitem__", "util.read_binary.BinaryDataset.__array__",
                                "util.read_binary.BinaryAttrs.__getitem__"], FRESH):
        where = "%s:%d %s" % (s.fi.mod.path, s.fi.node.lineno, uid)
        maps = [x for x in sources(s.rawret, s.born) if x.op == "call"]
        c.count("results")
        c.require(not maps, FRESH, where, "a result may be a view of %s" % (show(maps[0], 4) if maps else ""))
