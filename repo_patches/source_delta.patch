From 28eac94439f60c931fb88b25ec2377513f4c8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 01/29] fix: Millennium group_ids reader used a field it never
 declared

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From aad7807241c5f36c8083944989e38fe4d479889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 02/29] fix: np.int no longer exists in numpy

---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..965f382 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    int)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From 23f5a1c75fdcd32a6e7065a27f75848661c5a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 03/29] fix: MXXL sub_tab reader passed options L-Gadget3 files
 do not have

---
 python/virgo/sims/mxxl.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..cefe910 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -32,13 +32,9 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
     """
     def __init__(self, fname, 
                  SO_VEL_DISPERSIONS=True,
-                 SO_BAR_INFO=False,
-                 WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From 9dbf747eae4bc7989c4688976fa995769b49bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 04/29] fix: missing import of re in numpy_type

---
 python/virgo/database/make_dtrees_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..74798d0 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
@@ -37,7 +38,7 @@ def sql_type(dtype):
 
 def numpy_type(sqltype):
     """Given an SQL data type, return the corresponding numpy type"""
-    m = re.match("char\(([0-9]+)\)", sqltype.strip())
+    m = re.match(r"char\(([0-9]+)\)", sqltype.strip())
     if m is not None:
         # It's a string
         return np.dtype("|S"+m.group(1))
-- 
2.43.0


From 313ef6bca240079dc8ef3dc4c376314f8ef13cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 05/29] fix: P-Gadget3 sub_ids reader did not reject
 unsupported id_bytes

---
 python/virgo/formats/subfind_pgadget3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 93734cc..acc9708 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -318,6 +318,8 @@ class SubIDsFile(BinaryFile):
             self.id_type = np.uint32
         elif id_bytes == 8:
             self.id_type = np.uint64
+        else:
+            raise ValueError("id_bytes must be 4 or 8")
         
         # Define data blocks in the subhalo_tab file
         # Header
-- 
2.43.0


From 95ab46a4ccdb269835f83bd0d03e75be90889f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 06/29] fix: L-Gadget3 sub_ids reader did not reject
 unsupported id_bytes

---
 python/virgo/formats/subfind_lgadget3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/virgo/formats/subfind_lgadget3.py b/python/virgo/formats/subfind_lgadget3.py
index 38bd9fc..17cccb7 100644
--- a/python/virgo/formats/subfind_lgadget3.py
+++ b/python/virgo/formats/subfind_lgadget3.py
@@ -183,6 +183,8 @@ class SubIDsFile(BinaryFile):
             self.id_type = np.uint32
         elif id_bytes == 8:
             self.id_type = np.uint64
+        else:
+            raise ValueError("id_bytes must be 4 or 8")
  
         # Define data blocks in the subhalo_tab file
         # Header
-- 
2.43.0


From 94b1c81f4583ec2dd202174ff496d9645a760adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 07/29] fix: attributes of datasets ignored the byte order of
 the file

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..a9defee 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -176,6 +176,7 @@ class BinaryGroup(Mapping):
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
                 self.datasets[head].attrs._items[tail] = new_block
+                new_block.endian = endian
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
                 if head not in self.groups:
-- 
2.43.0


From 47bdef55a72c68347d967d5582bb582c73229fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 08/29] fix: toggle_byteswap left existing blocks in the old
 byte order

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index a9defee..68523c6 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -494,9 +494,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From a97f74ce017d1a3f54ef8d0ba199cef315f9e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 09/29] fix: default mode of write_binary is not a valid file
 mode

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 68523c6..e3d0ea4 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -503,7 +503,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From 2ecf010956ae37874e798b8d100dbf4632cea35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 10/29] fix: Millennium snapshot sanity check computed a
 fractional number of hash bits

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..3920804 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 04720fe809b620882b5e73a8160549a8d82d1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 11/29] fix: Millennium read_region passed floating point cell
 indexes

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 3920804..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From afdbca371577c4f7d100aa87138d33da3ed1b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 12/29] fix: Gadget-4 group reader could stop one particle too
 early

---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..ba4ef14 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -274,7 +274,7 @@ class GroupOrderedSnapshot():
                 self.npart_file[ifile,:] = snap["Header"].attrs["NumPart_ThisFile"][:]
 
             # Check if any particles we need are in this file
-            last_in_snap = first_in_snap + self.npart_file[ifile,:]
+            last_in_snap = first_in_snap + self.npart_file[ifile,:] - 1
 
             # Loop over quantities to read
             for dataset in ("Coordinates","Velocities","ParticleIDs"):
-- 
2.43.0


From e9be27591e6752390d58b9506176b79998f48d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 13/29] fix: repartition lost the data of Fortran ordered
 arrays

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..e6a0a6e 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -244,7 +244,7 @@ def repartition(arr, ndesired, comm=None):
 
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
-    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype)
+    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
     my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 36deb1ff3bb83fe848651624e94bc77844a199cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 14/29] fix: fetch_elements lost the data of Fortran ordered or
 non-contiguous arrays

---
 python/virgo/mpi/parallel_sort.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index e6a0a6e..5e7a2d6 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -326,14 +326,9 @@ def fetch_elements(arr, index, result=None, comm=None):
     del index_find
 
     # Send values back
-    if result is None:
-        # Will return result, so allocate storage
-        shape = list(arr.shape)
-        shape[0] = index.shape[0]
-        values_recv = np.empty_like(arr, shape=shape)
-    else:
-        # Will put result in supplied array
-        values_recv = result
+    shape = list(arr.shape)
+    shape[0] = index.shape[0]
+    values_recv = np.empty_like(arr, shape=shape, order="C")
 
     my_alltoallv(values.reshape((-1,)),      nvalues*recv_count, nvalues*recv_displ,
                  values_recv.reshape((-1,)), nvalues*send_count, nvalues*send_displ,
@@ -341,10 +336,11 @@ def fetch_elements(arr, index, result=None, comm=None):
     del values
 
     # Restore original order using index array
-    values_recv[idx,...] = values_recv.copy()
-
     if result is None:
+        values_recv[idx,...] = values_recv.copy()
         return values_recv
+    else:
+        result[idx,...] = values_recv
 
 
 
-- 
2.43.0


From 3c936d57a2b5c930f17b4236e334a683b8137537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 15/29] fix: reduce_elements applied the wrong values for
 Fortran ordered updates

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 5e7a2d6..5c9d7ec 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1065,7 +1065,7 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Exchange updates
     recv_shape = (sum(recv_count),) + updates.shape[1:]
-    updates_recv = np.empty_like(updates, shape=recv_shape)
+    updates_recv = np.empty_like(updates, shape=recv_shape, order="C")
     my_alltoallv(updates.reshape((-1,)),      nvalues*send_count, nvalues*send_displ,
                  updates_recv.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From b2a352de4ab0f57bb7fd8b42fdbc13d35f04c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 16/29] fix: collective_read returned uninitialised data if a
 row is larger than the buffer

---
 python/virgo/mpi/parallel_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..5c582fb 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -139,7 +139,7 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        buffer_size_elements = max(buffer_size // element_size, 1)
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
-- 
2.43.0


From 1cec711dea28c2cc702865633b0677f6b2b9973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 17/29] fix: collective_write never finished if a row is larger
 than the buffer

---
 python/virgo/mpi/parallel_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 5c582fb..6919d7b 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -235,7 +235,7 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    max_elements = max(buffer_size // element_size, 1)
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From ce75c7b2b97b1c7c2c4a2ebb1b4f2330fe356142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 18/29] fix: exchange of elements larger than 100MB never
 finished

---
 python/virgo/mpi/parallel_sort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 5c9d7ec..f81ac31 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -49,7 +49,7 @@ def my_alltoallv(sendbuf, send_count, send_offset,
     
     # Maximum number of elements per message: avoid messages > 2GB
     assert sendbuf.dtype == recvbuf.dtype
-    nchunk = (100*1024*1024) // sendbuf.dtype.itemsize
+    nchunk = max((100*1024*1024) // sendbuf.dtype.itemsize, 1)
 
     # Get communicator to use
     from mpi4py import MPI
@@ -167,7 +167,7 @@ def sendrecv(dest, sendbuf, recvbuf, comm=None, nchunk=None):
     assert len(sendbuf.shape) == 1
     assert len(recvbuf.shape) == 1
     if nchunk is None:
-        nchunk = (100*1024*1024) // sendbuf.dtype.itemsize
+        nchunk = max((100*1024*1024) // sendbuf.dtype.itemsize, 1)
     
     # Determine number of elements to send and receive
     nr_send_left = sendbuf.shape[0]
-- 
2.43.0


From d34452ecaee3221246e765a239f288623823d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 19/29] fix: 7 dimensional integer datasets were written as 2
 dimensional

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..41f8502 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From 58427224d7cc136d6a70eea820221a4d13338c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 20/29] fix: extensible=.false. made the dataset extensible

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..7d9b9af 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -77,7 +77,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From 4969f508bf51cb047c0fdb775f87ef376d40dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 21/29] fix: hdf5_create_file inverted the HDF_ERROR_SUPPRESS
 setting

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..0011733 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -396,7 +396,7 @@ contains
        needInit=.false.
        fname_table(1:nfilemax) = '*'
        if(do_open)call h5open_f(hdf_err)
-       if (HDF_ERROR_SUPPRESS .gt. 0) then
+       if (HDF_ERROR_SUPPRESS .eq. 0) then
           call h5eset_auto_f(1, hdf_err2)
        else
           !Verbosity = 0, supress HDF5 error messages
-- 
2.43.0


From 4d462677f0c3ff0cfaea55544742e9c36b10e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 22/29] fix: hdf5_create_group did not reject handles which are
 not open

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 0011733..3bb76c6 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -737,6 +737,10 @@ contains
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
          'Invalid file handle in create_group',name=name)
 
+    if(file_id(ifile).lt.0) call hdf5_abort( &
+         'File is not open in create_group()!', &
+         name=name)
+
     if(read_only(ifile))call hdf5_abort( &
          "Attempt to create group in read only file!", &
          name=name,fname=fname_table(ifile));
-- 
2.43.0


From e756d25246f6859bb9244700457b73919ee6d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 23/29] fix: hdf5_read_attribute left its memory datatype open

---
 fortran/hdf5_wrapper/src/read_attribute.inc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortran/hdf5_wrapper/src/read_attribute.inc b/fortran/hdf5_wrapper/src/read_attribute.inc
index 5a69943..6cfcbe1 100644
--- a/fortran/hdf5_wrapper/src/read_attribute.inc
+++ b/fortran/hdf5_wrapper/src/read_attribute.inc
@@ -89,6 +89,7 @@ subroutine SUB_NAME (ifile,name,arr)
               name=name,fname=fname_table(ifile))
       endif
 
+      call h5tclose_f(memtype_id,hdf_err)
       call h5aclose_f(attr_id,hdf_err)
       if(hdf_err.lt.0) then
          call hdf5_abort &
-- 
2.43.0


From 6d58a1e98194486b6ff8af2bb757e7313fb9b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 24/29] fix: reading a dataset after overwriting it returned
 the old data

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 7d9b9af..5c9b30a 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -126,7 +126,12 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
      if(overwrite)then
         ! If the dataset exists but we have overwrite = .true.,
         ! delete the dataset
+        ! (and close it if it was left open by an earlier read)
         call h5dclose_f(dset_id, hdf_err)
+        if(open_dset)then
+           open_dset = .false.
+           call h5dclose_f(open_dset_id, hdf_err)
+        endif
         call h5gunlink_f(file_id(ifile),name,hdf_err)
         dset_opened = .false.
      endif
-- 
2.43.0


From 2ef92e17bf3ffc6fe75ac387ff37369fd1fe0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 25/29] fix: hdf5_abort reported success to the shell

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 3bb76c6..adb7623 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -714,7 +714,7 @@ contains
             ncol)
     end if
     write(*,*)' '
-    stop
+    stop 1
   end subroutine hdf5_abort
 
 
-- 
2.43.0


From 90ca54ba0fbaf7bcc4e62d0cc4ea2a475a074a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 26/29] fix: hdf5_list_attributes lost the error from opening
 the object

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index adb7623..21cefcf 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -938,7 +938,7 @@ contains
     character(len=*), dimension(:), intent(out), optional :: attrib_names
     ! Internal
     integer(hid_t) :: loc_id, attr_id
-    integer :: hdf_err
+    integer :: hdf_err, hdf_err2
     integer :: i
     logical :: is_group
 
@@ -958,7 +958,7 @@ contains
        call h5dopen_f(file_id(ifile), name, loc_id, hdf_err)
        is_group = .false.
     endif
-    if(HDF_ERROR_SUPPRESS .eq. 0)call h5eset_auto_f(1, hdf_err)
+    if(HDF_ERROR_SUPPRESS .eq. 0)call h5eset_auto_f(1, hdf_err2)
     if(hdf_err .lt. 0) call hdf5_abort( &
          'Unable to open parent object in list_attributes()!', &
          name=name,fname=fname_table(ifile))
-- 
2.43.0


From 6f52e308571265e074feaa4a0617742df105b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 27/29] fix: size of a binary dataset must not overflow or
 become a float

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index e3d0ea4..f996597 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -289,7 +289,7 @@ class BinaryDataset:
         self.size  = 1
         self.endian = "="
         self.attrs  = BinaryAttrs()
-        for s in shape:
+        for s in self.shape: # Python ints, so that the product can't overflow
             self.size *= s
         self.nbytes = self.dtype.itemsize * self.size
 
-- 
2.43.0


From 4a72c9dd75d8ebc9780de80cd79c74256e20ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 28/29] fix: compound types in files of foreign byte order were
 not byte swapped

---
 python/virgo/util/read_binary.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index f996597..55d7da6 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -37,6 +37,9 @@ def need_byteswap(data_endian, dtype):
 
     Some types don't have byte order, in which case we return False.
     """
+    if dtype.fields is not None:
+        # Compound type: byte order is a property of the fields
+        return any(need_byteswap(data_endian, field[0].base) for field in dtype.fields.values())
     if dtype.byteorder == "|":
         return False # Byte order not applicable for this type
     if data_endian not in ("<",">","="):
@@ -346,7 +349,12 @@ class BinaryDataset:
         # sure we don't return a view of the memory map because
         # we might need to close the file.
         if need_byteswap(self.endian, self.dtype):
-            array = array[key].byteswap()
+            array = array[key]
+            if isinstance(array, np.void):
+                # A single record can only be byte swapped as an array
+                array = np.asarray(array).byteswap()[()]
+            else:
+                array = array.byteswap()
         else:
             array = array[key].copy()
         # Return the result
-- 
2.43.0


From 492a33046bfd5ac75d31896c706546bca417e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 29/29] fix: 7 dimensional long integer datasets were written
 as 2 dimensional

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index 41f8502..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0

