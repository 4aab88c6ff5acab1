"""B01: reads stay inside the bytes they were declared for."""
from .common import *


def run(c):
    conform(c, """util.read_binary.BinaryDataset.__init__ util.read_binary.BinaryDataset.__getitem__ util.read_binary.BinaryDataset.__array__ util.read_binary.BinaryDataset.__len__ util.read_binary.BinaryDataset.len util.read_binary.BinaryDataset.__iter__ util.read_binary.BinaryDataset.__getattr__
        util.read_binary.BinaryFile.__init__ util.read_binary.BinaryFile._add_block util.read_binary.BinaryFile.add_dataset util.read_binary.BinaryFile.add_attribute util.read_binary.BinaryFile.skip_bytes util.read_binary.BinaryFile.read_and_skip util.read_binary.BinaryFile.start_fortran_record util.read_binary.BinaryFile.end_fortran_record util.read_binary.BinaryFile.all_bytes_used
        util.read_binary.BinaryGroup.__init__ util.read_binary.BinaryGroup._add_block util.read_binary.BinaryGroup.__getitem__ util.read_binary.BinaryGroup.__iter__ util.read_binary.BinaryGroup.__len__ util.read_binary.BinaryGroup._create_group util.read_binary._split_path util.read_binary.MemoryMappedFile.__init__""")
