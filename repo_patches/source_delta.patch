From a9250b62db0312e89ad56fafe87d85a24eb96e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 01/41] fix: write all scalars of a DMap record before its
 arrays

A record whose fields are ordered array first was written in that order,
which no DMap reader (including DmapRead) can read back.
---
 pydarnio/dmap/dmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8cb06bd..b606314 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1041,18 +1041,22 @@ class DmapWrite(object):
         num_scalars = 0
         num_arrays = 0
         data_bytearray = bytearray()
+        array_bytearray = bytearray()
         for name, data_info in record.items():
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
             elif isinstance(data_info, DmapArray):
-                data_bytearray.extend(self.dmap_array_to_bytes(data_info))
+                array_bytearray.extend(self.dmap_array_to_bytes(data_info))
                 num_arrays += 1
             else:
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
 
+        # in a DMap record all the scalars come before the arrays
+        data_bytearray.extend(array_bytearray)
+
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
         #      num_arrays (int - 4) + size of the block (int - 4)
         block_size = len(data_bytearray) + 16
-- 
2.43.0


From 896df7585ad4b05fa5b1271a2fd8854d30e45f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 02/41] fix: write DMap char scalars as exactly one byte

chr(value).encode('utf-8') fails for negative int8 values and produces two
bytes for values above 127, which corrupts the record.
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index b606314..1e2e282 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1102,7 +1102,8 @@ class DmapWrite(object):
             if isinstance(scalar.value, str):
                 raise dmap_exceptions.DmapCharError(scalar.name, self.rec_num)
             # scalar_data_bytes = scalar.value
-            scalar_data_bytes = chr(scalar.value).encode('utf-8')
+            scalar_data_bytes = struct.pack('b' if scalar.value < 0 else 'B',
+                                            scalar.value)
         elif scalar.data_type_fmt == 'f':
             scalar_data_value = np.float32(scalar.value)
             scalar_data_bytes = struct.pack(scalar.data_type_fmt,
-- 
2.43.0


From 764a4b8932736936df85b4eb3dc7adcd4e2928e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 03/41] fix: size DMap names and strings by their encoded
 length

The number of characters was used as the number of bytes, so a non-ASCII
name or string was cut short and lost its terminator.
---
 pydarnio/dmap/dmap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 1e2e282..a469fec 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1084,19 +1084,19 @@ class DmapWrite(object):
             Bytes of the scalar
         """
 
-        scalar_name = "{0}\0".format(scalar.name)
+        scalar_name = "{0}\0".format(scalar.name).encode('utf-8')
         scalar_name_format = '{0}s'.format(len(scalar_name))
         scalar_name_bytes = struct.pack(scalar_name_format,
-                                        scalar_name.encode('utf-8'))
+                                        scalar_name)
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
-            scalar_data = "{0}\0".format(scalar.value)
+            scalar_data = "{0}\0".format(scalar.value).encode('utf-8')
             scalar_data_format = '{0}s'.format(len(scalar_data))
             scalar_data_bytes = struct.pack(scalar_data_format,
-                                            scalar_data.encode('utf-8'))
+                                            scalar_data)
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1142,10 +1142,10 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
         array_value = array.value.flatten()
-        array_name = "{0}\0".format(array.name)
+        array_name = "{0}\0".format(array.name).encode('utf-8')
         array_name_format = '{0}s'.format(len(array_name))
         array_name_bytes = struct.pack(array_name_format,
-                                       array_name.encode('utf-8'))
+                                       array_name)
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From debb98d5785a2299efbc0566214deab99eb6760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 04/41] fix: do not reverse the shape of the caller's DmapArray
 when writing

The list belongs to the caller's record, so writing the same records twice
swapped the dimensions of every multi-dimensional array.
---
 pydarnio/dmap/dmap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index a469fec..44681e7 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1152,9 +1152,7 @@ class DmapWrite(object):
 
         array_dim_bytes = struct.pack('i', array.dimension)
         array_shape_bytes = bytes()
-        if array.dimension > 1:
-            array.shape.reverse()
-        for size in array.shape:
+        for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
         array_data_bytes = array_value.tostring()
-- 
2.43.0


From 995dba5dd03566fe7c55e0ce88164b9d0aa3a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 05/41] fix: start each DMap write from an empty buffer

The buffer kept the bytes of earlier (also failed) writes, so a second write
from the same writer repeated the records.
---
 pydarnio/dmap/dmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 44681e7..527253d 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1017,6 +1017,7 @@ class DmapWrite(object):
         # For performance increase len of the records can be
         # attribute value initialized in the class
         pyDARNio_log.debug("Converting DMap records to bytes")
+        self.dmap_bytearr = bytearray()
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
             self._dmap_record_to_bytes(record)
-- 
2.43.0


From 2450bc5e92ef1a5873192f17b2ab9bce7b6a33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 06/41] fix: start each SuperDARN write from an empty buffer

Same as for DmapWrite: bytes of an earlier or refused write were written
again by the next one.
---
 pydarnio/dmap/superdarn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 017fda7..9388f62 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -886,6 +886,7 @@ class SDarnWrite(DmapWrite):
         """
         self.rec_num = 0
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
+        self.dmap_bytearr = bytearray()
 
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
-- 
2.43.0


From 93dda58b911e3ed1c5aba1fe1a187f4e05b2663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 07/41] fix: write arrays of non-native byte order with the
 right values

---
 pydarnio/dmap/dmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 527253d..43dfbc1 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1156,7 +1156,9 @@ class DmapWrite(object):
         for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
-        array_data_bytes = array_value.tostring()
+        # DMap data is in native byte order
+        array_value = array_value.astype(array_value.dtype.newbyteorder('='))
+        array_data_bytes = array_value.tobytes()
 
         array_total_bytes = array_name_bytes + array_type_bytes + \
             array_dim_bytes + array_shape_bytes + array_data_bytes
-- 
2.43.0


From 7b99980e3f99b95a70bfa72d2905452670ae0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 08/41] fix: report an unterminated DMap string as a
 MismatchByteError

A string cut off by the end of the data raised a bare IndexError.
---
 pydarnio/dmap/dmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 43dfbc1..da45cae 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -696,13 +696,14 @@ class DmapRead():
             return data
         elif data_type_fmt == 's':
             byte_counter = 0
-            while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
-                    self.cursor + byte_counter >= self.dmap_end_bytes:
+            while self.cursor + byte_counter < self.dmap_end_bytes and \
+                    self.dmap_bytearr[self.cursor + byte_counter] != 0:
                 # add 1 byte to byte_counter because
                 # a string is a list of chars
                 byte_counter += 1  # 1 is the number of bytes of a char
 
-            self.bytes_check(self.cursor + byte_counter, 'cursor',
+            # the terminating zero has to be in the buffer as well
+            self.bytes_check(self.cursor + byte_counter + 1, 'cursor',
                              self.dmap_end_bytes, 'Total number of Bytes')
 
             # format byte counter to a string format for unpacking
-- 
2.43.0


From 5a5de9405065ff87a4ce08b4cacadcde79bce37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 09/41] fix: reject negative dimensions of slist

They made the reader consume the rest of the buffer and move backwards.
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index da45cae..37326b0 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -567,7 +567,8 @@ class DmapRead():
 
         # slist is the array that holds the range gates that have valid data
         # when qflg is 1
-        if any(x <= 0 for x in array_shape) and array_name != "slist":
+        if any(x < 0 or (x == 0 and array_name != "slist")
+               for x in array_shape):
             message = "Error: Array shape {shape} contains "\
                 "dimension size <= 0."\
                 " Failed at record {rec}".format(shape=array_shape,
-- 
2.43.0


From d2cbd0e56dd06d5540142a6f26d81168b918a041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 10/41] fix: give the Borealis rawrf format its fields

The site fields of rawrf were taken from its (empty) shared and unshared
fields, so no rawrf file could be read or written; in v0.7 the class also
used a method that does not exist.
---
 pydarnio/borealis/borealis_formats.py | 45 ++++++++-------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c9ba76c..0894596 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -1685,6 +1685,19 @@ class BorealisRawrfv0_4(BaseFormat):
         """
         return cls.fields.array_types('rawrf')
 
+    @classmethod
+    def site_fields(cls):
+        """
+        All rawrf fields are in the site file, as rawrf files are not
+        restructured and so have no shared or unshared fields.
+
+        See Also
+        --------
+        BaseFormat
+        """
+        return list(cls.single_element_types().keys()) + \
+            list(cls.array_dtypes().keys())
+
 
 class BorealisRawacfv0_5(BorealisRawacfv0_4):
     """
@@ -2588,38 +2601,6 @@ class BorealisRawrf(BorealisRawrfv0_6):
     """
     fields = BorealisFields
 
-    @classmethod
-    def unshared_fields_dims_array(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_array()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
-            })
-        return unshared_fields_dims
-
-    @classmethod
-    def unshared_fields_dims_site(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_site()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
-            })
-        return unshared_fields_dims
-
 
 # borealis versions
 borealis_version_dict = {
-- 
2.43.0


From 660f18dd2d554281bea29e679800f4da7ca6acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 11/41] fix: use a compression h5py has as the default of array
 writes

'zlib' is the name other HDF5 libraries use; h5py calls it 'gzip' and refused
every array write that did not name a compression.
---
 pydarnio/borealis/borealis.py       | 8 ++++----
 pydarnio/borealis/borealis_array.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 331f9ca..10e9714 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -302,11 +302,11 @@ class BorealisWrite():
         the data.
     compression: Union[str, None]
         The type of compression the file is written with. Default is
-        None for site structure, and 'zlib' for array structure.
+        None for site structure, and 'gzip' for array structure.
         Site structured files will have no compression to match
         files actually written on-site, where records are constantly
         appended so there is no compression. Array structured files
-        will have 'zlib' compression to enable a faster read time
+        will have 'gzip' compression to enable a faster read time
         for downstream users.
     arrays: dict
         The Borealis data in a dictionary of arrays, according to the
@@ -391,11 +391,11 @@ class BorealisWrite():
     def compression(self):
         """
         The type of compression the file is written with. Default is
-        None for site structure, and 'zlib' for array structure.
+        None for site structure, and 'gzip' for array structure.
         Site structured files will have no compression to match
         files actually written on-site, where records are constantly
         appended so there is no compression. Array structured files
-        will have 'zlib' compression to enable a faster read time
+        will have 'gzip' compression to enable a faster read time
         for downstream users.
         """
         return self._writer.compression
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 0b15680..372cb24 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -273,8 +273,8 @@ class BorealisArrayWrite():
     software_version: str
     format: subclass of borealis_formats.BaseFormat
     compression: str
-        The type of compression to write the file as. Default zlib.
-        zlib is hdf5 default compression for fast reading. We want
+        The type of compression to write the file as. Default gzip.
+        gzip is hdf5 default compression for fast reading. We want
         the fastest read possible for downstream users with this
         structure style.
 
@@ -288,7 +288,7 @@ class BorealisArrayWrite():
     """
 
     def __init__(self, filename: str, borealis_arrays: dict,
-                 borealis_filetype: str, hdf5_compression: str = 'zlib'):
+                 borealis_filetype: str, hdf5_compression: str = 'gzip'):
         """
         Write Borealis arrays to an array restructured file.
 
@@ -306,7 +306,7 @@ class BorealisArrayWrite():
             'antennas_iq'
             'rawacf'
         hdf5_compression: str
-            String representing hdf5 compression type. Default zlib.
+            String representing hdf5 compression type. Default gzip.
 
         Raises
         ------
-- 
2.43.0


From 4c34bdd990279ea22a7b598e7a749b34376558cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 12/41] fix: restructure records that have no blanked samples
 to arrays

A dimension of size zero was left out of the index, so a record with an empty
field could not be placed beside records in which the field is not empty.
---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8519dfa..7fab86b 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1128,7 +1128,7 @@ class BaseFormat():
                     # dims with a determined max value
                     data_buffer = data_dict[k][field]
                     buffer_shape = data_buffer.shape
-                    index_slice = [slice(0, i) for i in buffer_shape if i != 0]
+                    index_slice = [slice(0, i) for i in buffer_shape]
                     # insert record index at start of array's slice list
                     index_slice.insert(0, rec_idx)
                     index_slice = tuple(index_slice)
-- 
2.43.0


From 610c3538d6b34e37a92fa2675f538979d08b1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 13/41] fix: size restructured arrays for the record with the
 most beams

Only the first record's number of beams was considered when a site file was
restructured, which failed when a later record has more beams.
---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 7fab86b..4d8e216 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -612,11 +612,11 @@ class BaseFormat():
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
                             continue
+                        if field == 'beam_nums':
+                            max_num_beams = max(field_shape[0], max_num_beams)
                         # Initialize shape to first record's field dimensions
                         if rec_idx == 0:
                             fields_max_dims[field] = field_shape
-                            if field == 'beam_nums':
-                                max_num_beams = max(field_shape[0], max_num_beams)
                         else:
                             # Update dims to keep largest for all records
                             new_shape = map(lambda dima, dimb: max(dima, dimb),
-- 
2.43.0


From 20aa97340a16108e85974979aedf6962f43149d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 14/41] fix: generate v0.7 data_descriptors as bytes for bfiq
 and antennas_iq

v0.7 stores data_descriptors as bytes; the generators of the older formats made
strings, so v0.7 bfiq arrays could not be turned into site records at all.
---
 pydarnio/borealis/borealis_formats.py | 32 +++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 0894596..ea844b4 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2503,6 +2503,27 @@ class BorealisBfiq(BorealisBfiqv0_6):
             })
         return unshared_fields_dims
 
+    @classmethod
+    def site_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().site_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda arrays, record_num: np.bytes_(
+            ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'])
+        return fields_generate
+
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antenna_arrays', 'max_num_sequences',
+             'max_num_beams', 'num_samps'])
+        return fields_generate
+
 
 class BorealisAntennasIq(BorealisAntennasIqv0_6):
     """
@@ -2581,6 +2602,17 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
                  arrays['data'].shape[3]], dtype=np.uint32)
         }
 
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps'])
+        return fields_generate
+
+
 class BorealisRawrf(BorealisRawrfv0_6):
     """
     Class containing Borealis Rawrf data fields and their types for current
-- 
2.43.0


From 7652e6ef13dc7a3d1fe247992e0a9f0639940833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 15/41] fix: restructure tx_antenna_phases of antennas_iq by
 its own size

Its size is the number of transmit antennas, not the number of antennas whose
samples are in the file: records came back with extra NaN phases or could not
be restructured.
---
 pydarnio/borealis/borealis_formats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index ea844b4..7a99ee2 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2569,7 +2569,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_array()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
+            'tx_antenna_phases': [cls.fields.find_num_antennas_site],
             })
         return unshared_fields_dims
 
@@ -2585,7 +2585,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_site()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
+            'tx_antenna_phases': [lambda arrays, record_num: arrays['tx_antenna_phases'].shape[1]],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From 7ace9818f0df7799c7119018579fa7e29cab558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 16/41] fix: keep phase offsets that are not broken when
 reading

Phase offsets given per sequence and pulse were replaced with zeros when a site
file was read or restructured, and two offsets shared by all records were
replaced when an array file was read. Only the remains of an empty field are.
---
 pydarnio/borealis/borealis_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e00fefe..bcc6d25 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -624,7 +624,7 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
-        if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
+        if ppo.shape == (2,) and ppo.dtype.type == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
@@ -636,5 +636,8 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
-            if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
+            if 'pulses' not in rec:
+                continue    # the missing field is reported by the record checks
+            # One offset per pulse, or (v0.6 on) one per sequence and pulse, is not broken
+            if ppo.shape[-1:] != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From 1a0d7eee61aea07bc710794390ebfec8f9c36c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 17/41] fix: restructure phase offsets given per pulse

In v0.6 on, pulse_phase_offset with one offset per pulse (which is also what the
reader makes of an empty field) was cut to the number of sequences, or lost its
last offset, in the records of an array file, and was refused when a site file
was restructured.
---
 pydarnio/borealis/base_format.py      |  2 +-
 pydarnio/borealis/borealis_formats.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 4d8e216..6ae1599 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -605,7 +605,7 @@ class BaseFormat():
                                 actual_size = site_file[record_name][field].size
                                 num_sequences = site_file[record_name]['data_dimensions'][1]
                                 num_pulses = site_file[record_name]['pulses'].size
-                                if actual_size != num_sequences * num_pulses and actual_size != 0:
+                                if actual_size not in [0, num_pulses, num_sequences * num_pulses]:
                                     if actual_size == 1:    # This is the special case
                                         field_shape = (0,)
                                     else:
diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 7a99ee2..5149692 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2113,11 +2113,11 @@ class BorealisBfiqv0_6(BorealisBfiqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if len(arrays['pulse_phase_offset'].shape) < 3
                                    else
                                    list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+                                        + arrays['pulse_phase_offset'].shape[2:])],
             })
         return unshared_fields_dims
 
@@ -2186,11 +2186,11 @@ class BorealisAntennasIqv0_6(BorealisAntennasIqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if len(arrays['pulse_phase_offset'].shape) < 3
                                    else
                                    list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+                                        + arrays['pulse_phase_offset'].shape[2:])],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From 68ab33e44ac76b47d7af073cfab53e8099a911f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 18/41] fix: restructure long and empty slice_interfacing
 strings unchanged

Strings of more than 256 characters were cut when site records were turned into
arrays, and the file restructuring stored the text of h5py's placeholder for an
empty string.
---
 pydarnio/borealis/base_format.py          |  4 ++--
 pydarnio/borealis/borealis_restructure.py | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 6ae1599..110ea6b 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1104,8 +1104,8 @@ class BaseFormat():
                 datatype = cls.array_dtypes()[field]
             if datatype == str:
                 # unicode type needs to be explicitly set to have
-                # multiple chars (256)
-                datatype='|U256'
+                # multiple chars (256, or more if any record needs them)
+                datatype = '|U{}'.format(max([256] + [len(rec[field]) for rec in data_dict.values()]))
             empty_array = np.empty(array_dims, dtype=datatype)
             # Some indices may not be filled due to dimensions that are maximum values (num_sequences, etc. can change
             # between records), so they are initialized with a known value first.
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2846901..6a0d468 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -436,7 +436,16 @@ class BorealisRestructure(object):
                             # place data buffer in the correct place
                             empty_array[index_slice] = data_buffer
                         else:  # not an array, num_records is the only dimension
-                            empty_array[rec_idx] = data_dict[field]
+                            value = data_dict[field]
+                            if isinstance(value, h5py.Empty):   # How h5py reads an empty string
+                                value = ''
+                            elif isinstance(value, bytes):
+                                value = value.decode('utf-8')
+                            if isinstance(value, str) and len(value) > empty_array.dtype.itemsize // 4:
+                                # make room for the longer string
+                                empty_array = empty_array.astype('|U{}'.format(len(value)))
+                                new_data_dict[field] = empty_array
+                            empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
             dataset_types = self.format.array_array_dtypes()
-- 
2.43.0


From 41d4248670a98dd5853eadac2b51a9d5134c1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 19/41] fix: convert sequence times of iqdat from seconds

sqn_timestamps are seconds since the epoch; tsc and tus treated them as
milliseconds, so every sequence of a converted file began in January 1970.
---
 pydarnio/borealis/borealis_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 77fae9a..f746c27 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -731,11 +731,11 @@ class BorealisConvert(BorealisRead):
                                    record_dict['range_sep']),
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
-                # timestamps in ms, convert to seconds and us.
-                'tsc': np.array([np.floor(x/1e3) for x in
+                # timestamps in seconds since epoch, split into seconds and us.
+                'tsc': np.array([np.floor(x) for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
-                'tus': np.array([np.fmod(x, 1000.0) * 1e3 for x in
+                'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tatten': np.array([0] * record_dict['num_sequences'],
-- 
2.43.0


From fe9b26a5a6008a9755615b49859effdd606726d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 20/41] fix: refuse iqdat conversion of phase offsets per
 sequence as documented

Offsets given per sequence and pulse raised a bare ValueError
whether zero or not,  instead of BorealisConvert2IqdatError.
---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index f746c27..85bfaea 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -398,7 +398,7 @@ class BorealisConvert(BorealisRead):
                                                   record['pulses'],
                                                   int(record['tau_spacing'] /
                                                       record['tx_pulse_len'])))
-                if not all([x == 0 for x in record['pulse_phase_offset']]):
+                if np.any(record['pulse_phase_offset'] != 0):
                     raise borealis_exceptions.\
                             BorealisConvert2IqdatError(
                                 'Increased complexity: Borealis bfiq file '
-- 
2.43.0


From 3b69750c88ed2c30a48ce2312567e2b8300850e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 21/41] fix: set xcf of iqdat records converted from v0.7 files

antenna_arrays_order holds byte strings since v0.7, so the interferometer array
was not found and xcf was always 0.
---
 pydarnio/borealis/borealis_convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 85bfaea..4f2af74 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -697,7 +697,8 @@ class BorealisConvert(BorealisRead):
                 'nrang': np.int16(record_dict['num_ranges']),
                 'frang': np.int16(round(record_dict['first_range'])),
                 'rsep': np.int16(round(record_dict['range_sep'])),
-                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']),
+                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']
+                                .astype(np.str_)),
                 'tfreq': np.int16(record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
-- 
2.43.0


From a8203441977625afdeee4b34c3709ed840460374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 22/41] fix: hold files of Borealis v0.5 and older to their
 blanked samples

The version numbers were compared as text with integers, so the blanked samples
of v0.6 were accepted in the conversion of files of every version.
---
 pydarnio/borealis/borealis_convert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 4f2af74..38766ab 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -372,7 +372,8 @@ class BorealisConvert(BorealisRead):
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
 
-                if borealis_major_revision == 0 and borealis_minor_revision <= 5:
+                if int(borealis_major_revision) == 0 and \
+                        int(borealis_minor_revision) <= 5:
                     # Bfiq generated with borealis v0.5 or older
                     blanked = record['pulses'] * sample_spacing
                 else:
@@ -448,7 +449,8 @@ class BorealisConvert(BorealisRead):
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
 
-                if borealis_major_revision == 0 and borealis_minor_revision <= 5:
+                if int(borealis_major_revision) == 0 and \
+                        int(borealis_minor_revision) <= 5:
                     # Rawacf generated with borealis v0.5 or older
                     blanked = record['pulses'] * sample_spacing
                 else:
-- 
2.43.0


From 5910f9155d8dfe83456ce457a6550ebf8c73e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 23/41] fix: refuse conversion of unsupported types before
 asking for a slice id

antennas_iq and rawrf files without a slice id raised BorealisStructureError
instead of the documented BorealisConversionTypesError.
---
 pydarnio/borealis/borealis_convert.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 38766ab..03881b4 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -212,6 +212,14 @@ class BorealisConvert(BorealisRead):
         self.sdarn_filename = sdarn_filename
         self.borealis_filename = self.filename
 
+        try:
+            self._sdarn_filetype = self.__allowed_conversions[
+                    self.borealis_filetype]
+        except KeyError:
+            raise borealis_exceptions.BorealisConversionTypesError(
+                self.sdarn_filename, self.borealis_filetype,
+                self.__allowed_conversions)
+
         try:
             first_key = list(self.records.keys())[0]
             self._borealis_slice_id = self.records[first_key]['slice_id']
@@ -227,14 +235,6 @@ class BorealisConvert(BorealisRead):
         self._sdarn_dmap_records = {}
         self._sdarn_dict = {}
         self._scaling_factor = scaling_factor
-        try:
-            self._sdarn_filetype = self.__allowed_conversions[
-                    self.borealis_filetype]
-        except KeyError:
-            raise borealis_exceptions.BorealisConversionTypesError(
-                self.sdarn_filename, self.borealis_filetype,
-                self.__allowed_conversions)
-
         if self.borealis_filename == self.sdarn_filename:
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
-- 
2.43.0


From 036186e4020f7141295627ae7654270dcc059abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 24/41] fix: report plain Python values in Borealis fields as
 wrong types

The type checks raised AttributeError for values without a shape or dtype, and
took a single number for an array in records, which then could not be read back.
---
 pydarnio/borealis/borealis_utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index bcc6d25..b78720c 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -263,12 +263,15 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(record[param]) !=
                                  attributes_type_dict[param] and
-                                 record[param].shape is not None}
+                                 getattr(record[param], 'shape', ())
+                                 is not None}
 
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if record[param].dtype.type !=
+                                      if not isinstance(record[param],
+                                                        np.ndarray) or
+                                      record[param].dtype.type !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
@@ -323,7 +326,8 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(file_data[param]) !=
                                  attributes_type_dict[param] and
-                                 file_data[param].shape is not None}
+                                 getattr(file_data[param], 'shape', ())
+                                 is not None}
 
         datasets_type_dict_keys = sorted(list(datasets_type_dict.keys()))
         np_array_types = [isinstance(file_data[param], np.ndarray) for param in
-- 
2.43.0


From 0b19dc0bacc28eb437f80be6b2b9810e4212041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 25/41] fix: refuse unknown file types in BorealisSiteWrite as
 documented

The error was raised with an attribute not yet set, so AttributeError was raised
instead of BorealisFileTypeError.
---
 pydarnio/borealis/borealis_site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 833b064..f30320e 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -343,12 +343,12 @@ class BorealisSiteWrite():
         BorealisVersionError
             Borealis software version format does not exist in pyDARNio
         """
+        self.filename = filename
         self._records = borealis_records
         if borealis_filetype not in ['bfiq', 'antennas_iq', 'rawacf', 'rawrf']:
             raise borealis_exceptions.BorealisFileTypeError(
                 self.filename, borealis_filetype)
         self.borealis_filetype = borealis_filetype
-        self.filename = filename
         self.compression = hdf5_compression
         self._record_names = sorted(list(borealis_records.keys()))
 
-- 
2.43.0


From 899370426ec7accf7ec44582d248b970d9701ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 26/41] fix: refuse Borealis data without a usable
 borealis_git_hash as documented

A missing or non-text hash raised KeyError, TypeError or AttributeError instead
of BorealisStructureError, and restructuring a file of an unknown version raised
KeyError instead of BorealisVersionError.
---
 pydarnio/borealis/borealis_array.py       | 4 ++--
 pydarnio/borealis/borealis_restructure.py | 3 +++
 pydarnio/borealis/borealis_site.py        | 5 +++--
 pydarnio/borealis/borealis_utilities.py   | 4 ++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 372cb24..152d0e4 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -118,7 +118,7 @@ class BorealisArrayRead():
             with h5py.File(self.filename, 'r') as f:
                 full_version = f.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (AttributeError, KeyError, TypeError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine read version (file may be site style) {}'
@@ -329,7 +329,7 @@ class BorealisArrayWrite():
         try:
             version = self._arrays['borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (AttributeError, KeyError, TypeError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine write version (data may be site style): {}'
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 6a0d468..6f65c50 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -127,6 +127,9 @@ class BorealisRestructure(object):
             get_borealis_structure(self.record_names)
         self._borealis_version = BorealisUtilities.get_borealis_version(
             self.infile_name, self.record_names, self.borealis_structure)
+        if self.software_version not in borealis_formats.borealis_version_dict:
+            raise borealis_exceptions.BorealisVersionError(
+                self.infile_name, self.software_version)
         self._format = borealis_formats.borealis_version_dict[
             self.software_version][self.borealis_filetype]
 
diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index f30320e..74e2e18 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -127,7 +127,7 @@ class BorealisSiteRead():
                 first_rec = f[self._record_names[0]]
                 full_version = first_rec.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except (IndexError, KeyError) as err:
+        except (AttributeError, IndexError, KeyError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
@@ -358,7 +358,8 @@ class BorealisSiteWrite():
             version = self._records[self.record_names[0]][
                 'borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # get only vX.Y, ignore patch revision
-        except (IndexError, ValueError) as err:
+        except (AttributeError, IndexError, KeyError, TypeError,
+                ValueError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index b78720c..75ee290 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -592,7 +592,7 @@ class BorealisUtilities():
             try:
                 with h5py.File(filename, 'r') as f:
                     borealis_git_hash = f.attrs['borealis_git_hash'].decode('utf-8')
-            except KeyError as err:
+            except (AttributeError, IndexError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
@@ -604,7 +604,7 @@ class BorealisUtilities():
                     first_rec = f[records[0]]
                     borealis_git_hash = first_rec.attrs['borealis_git_hash']\
                                             .decode('utf-8')
-            except KeyError as err:
+            except (AttributeError, IndexError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
-- 
2.43.0


From ce26e411e724c08a6ab5bbd6132d7d67c053cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 27/41] fix: write non-ASCII text fields of Borealis files

They are read as UTF-8 but writing raised UnicodeEncodeError, leaving a partial
file.
---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 110ea6b..f86008a 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1384,7 +1384,7 @@ class BaseFormat():
                 for k, v in group_dict.items():
                     if k in attribute_types.keys():
                         if isinstance(v, str):
-                            group.attrs[k] = np.bytes_(v)
+                            group.attrs[k] = np.bytes_(v.encode('utf-8'))
                         else:
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
@@ -1417,7 +1417,7 @@ class BaseFormat():
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-                        f.attrs[k] = np.bytes_(v)
+                        f.attrs[k] = np.bytes_(v.encode('utf-8'))
                     else:
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
-- 
2.43.0


From 104391437179a72ffde1853ef288ec4ac1db45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 28/41] fix: leave an existing Borealis file alone when a write
 to it is refused

Writing data of the same names replaced the attributes, or added the records
before the first one already there, and only then raised ValueError.
---
 pydarnio/borealis/base_format.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index f86008a..5329f12 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1379,6 +1379,10 @@ class BaseFormat():
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
         with h5py.File(filename, 'a') as f:
+            present = [name for name in records if str(name) in f]
+            if present:
+                raise ValueError('Records {} already exist in {}'
+                                 ''.format(present, filename))
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
                 for k, v in group_dict.items():
@@ -1414,6 +1418,10 @@ class BaseFormat():
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
         with h5py.File(filename, 'a') as f:
+            present = [k for k in arrays if k in f or k in f.attrs]
+            if present:
+                raise ValueError('Fields {} already exist in {}'
+                                 ''.format(present, filename))
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-- 
2.43.0


From dde240b9d0d5e573c32d56961b787cef3f28f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 29/41] fix: refuse restructuring of inconsistent files without
 output

An array file with different numbers of records was restructured up to the first
missing one before the error, and site files could fail with errors other than
BorealisRestructureError.
---
 pydarnio/borealis/borealis_restructure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 6f65c50..ff43312 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -235,6 +235,11 @@ class BorealisRestructure(object):
                         else:
                             unshared_single_elements[field] = f[field][:]
 
+                BorealisUtilities.array_num_records_check(
+                    self.infile_name, self.format.unshared_fields(),
+                    {field: unshared_single_elements.get(field, f[field])
+                     for field in self.format.unshared_fields()})
+
                 sqn_timestamps_array = f['sqn_timestamps'][:]
 
                 for record_num, seq_timestamp in enumerate(sqn_timestamps_array):
@@ -457,7 +462,7 @@ class BorealisRestructure(object):
                                            unshared_fields)
             self.format.write_arrays(self.outfile_name, new_data_dict, self.compression)
 
-        except TypeError as err:
+        except Exception as err:
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from site to array '
                 'style: {}'.format(self.infile_name, self.format.__name__, err)
-- 
2.43.0


From b0c729f36b2e279433ed3865a1e6a7e7bfe882fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 30/41] fix: compare input and output files by path, not by
 spelling

Another spelling of the input path as output was accepted, and the conversion
replaced the Borealis file with its result.
---
 pydarnio/borealis/borealis_convert.py     | 4 +++-
 pydarnio/borealis/borealis_restructure.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 03881b4..7922617 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -42,6 +42,7 @@ Update noise values in SDarn fields when these can be calculated.
 """
 import logging
 import numpy as np
+import os
 
 from datetime import datetime
 from typing import Union
@@ -235,7 +236,8 @@ class BorealisConvert(BorealisRead):
         self._sdarn_dmap_records = {}
         self._sdarn_dict = {}
         self._scaling_factor = scaling_factor
-        if self.borealis_filename == self.sdarn_filename:
+        if os.path.realpath(self.borealis_filename) == \
+                os.path.realpath(self.sdarn_filename):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
         self._write_to_sdarn()
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index ff43312..33da30f 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -34,6 +34,7 @@ see: https://borealis.readthedocs.io/en/master/
 import h5py
 import logging
 import numpy as np
+import os
 from datetime import datetime
 from typing import Union
 from collections import OrderedDict
@@ -118,7 +119,8 @@ class BorealisRestructure(object):
                 "".format(outfile_structure))
         self.outfile_structure = outfile_structure
 
-        if self.infile_name == self.outfile_name:
+        if os.path.realpath(self.infile_name) == \
+                os.path.realpath(self.outfile_name):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.infile_name)
 
-- 
2.43.0


From adeaee401b34a8b02ea9d71e914848752592e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 31/41] fix: describe Borealis writers without an attribute
 they do not have

str() and repr() of BorealisWrite and BorealisArrayWrite raised AttributeError.
---
 pydarnio/borealis/borealis.py       | 10 ++++------
 pydarnio/borealis/borealis_array.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 10e9714..6e76b87 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -367,18 +367,16 @@ class BorealisWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def borealis_file_structure(self):
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 152d0e4..f656c7c 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -349,18 +349,16 @@ class BorealisArrayWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def record_names(self):
-- 
2.43.0


From ce0a84a46a6c404eded94d364e8e4a9d60930307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 32/41] fix: refuse text in the numeric arrays of Borealis
 array data

The arrays of text that hold one string per record let text pass as any array.
---
 pydarnio/borealis/borealis_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 75ee290..a4a5d1a 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -349,7 +349,9 @@ class BorealisUtilities():
                                       for param in datasets_type_dict.keys()
                                       if file_data[param].dtype.type !=
                                       datasets_type_dict[param] and
-                                      file_data[param].dtype.type != np.str_})
+                                      not (file_data[param].dtype.type ==
+                                           np.str_ and
+                                           datasets_type_dict[param] == str)})
         if 'pulse_phase_offset' in incorrect_types_check.keys():
             if file_data['pulse_phase_offset'].dtype.type == np.int64 and file_data['pulse_phase_offset'].shape == (2,):
                 incorrect_types_check.pop('pulse_phase_offset')     # This field is problematic, hack to ignore
-- 
2.43.0


From e63a62b04a0a6b9d151cc0cca2ea8f55e15609d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 33/41] fix: report a single value stored as a Borealis dataset
 as a wrong type

Reading a file with a scalar dataset raised ValueError instead of the documented
errors of the field checks.
---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 5329f12..0651b7a 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1271,7 +1271,7 @@ class BaseFormat():
                         itemsize = dset.attrs['itemsize']
                         data = dset[:].view(dtype=(np.str_, itemsize))
                     else:
-                        data = dset[:]      # non-string, can simply load
+                        data = dset[()]      # non-string, can simply load
                     rec_dict[dset_name] = data
 
                 # Get the attributes (scalar fields)
@@ -1334,7 +1334,7 @@ class BaseFormat():
                     itemsize = dset.attrs['itemsize']
                     data = dset[:].view(dtype=(np.str_, itemsize))
                 else:
-                    data = dset[:]  # non-string, can simply load
+                    data = dset[()]  # non-string, can simply load
                 arrays[array_name] = data
 
             # Get the attributes (scalar fields)
-- 
2.43.0


From f8ff9249b1758b45f515af028d64fc23dd7955b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 34/41] fix: restructure files with broken empty phase offsets

pulse_phase_offset that holds the dimensions of an empty array is repaired when
a file is read, but made restructuring of the file fail.
---
 pydarnio/borealis/base_format.py          |  6 +++---
 pydarnio/borealis/borealis_restructure.py | 13 +++++++++++--
 pydarnio/borealis/borealis_utilities.py   | 11 ++++++++++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 0651b7a..5d82f26 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -605,9 +605,9 @@ class BaseFormat():
                                 actual_size = site_file[record_name][field].size
                                 num_sequences = site_file[record_name]['data_dimensions'][1]
                                 num_pulses = site_file[record_name]['pulses'].size
-                                if actual_size not in [0, num_pulses, num_sequences * num_pulses]:
-                                    if actual_size == 1:    # This is the special case
-                                        field_shape = (0,)
+                                if actual_size not in [num_pulses, num_sequences * num_pulses]:
+                                    if actual_size in [0, 1]:    # This is the special case
+                                        field_shape = (num_pulses,)
                                     else:
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 33da30f..a4fef25 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -211,9 +211,13 @@ class BorealisRestructure(object):
             with h5py.File(self.infile_name, 'r') as f:
 
                 # shared fields are common across records, so this is done once
+                broken_offset = BorealisUtilities.is_broken_offset_array(
+                    f.get('pulse_phase_offset'))
                 shared_fields_dict = dict()
                 for field in self.format.shared_fields():
-                    if field in attribute_types:
+                    if field == 'pulse_phase_offset' and broken_offset:
+                        data = np.zeros(0, dtype=np.float32)
+                    elif field in attribute_types:
                         data = f.attrs[field]
                         if isinstance(data, bytes):
                             data = data.decode('utf-8')
@@ -238,7 +242,9 @@ class BorealisRestructure(object):
                             unshared_single_elements[field] = f[field][:]
 
                 BorealisUtilities.array_num_records_check(
-                    self.infile_name, self.format.unshared_fields(),
+                    self.infile_name,
+                    [field for field in self.format.unshared_fields()
+                     if not (field == 'pulse_phase_offset' and broken_offset)],
                     {field: unshared_single_elements.get(field, f[field])
                      for field in self.format.unshared_fields()})
 
@@ -273,6 +279,8 @@ class BorealisRestructure(object):
                             record_dict[field] = \
                                 datatype(unshared_single_elements[field][
                                              record_num])
+                        elif field == 'pulse_phase_offset' and broken_offset:
+                            record_dict[field] = np.zeros(0, dtype=np.float32)
                         else:  # field in array_dtypes
                             # need to get the dims correct, not always equal to the max
                             site_dims = [dimension_function(f, record_num)
@@ -347,6 +355,7 @@ class BorealisRestructure(object):
                     # Bitwise fields also need to be handled separately
                     for field in self.format.bool_types():
                         rec_dict[field] = f[record_name].attrs[field]
+                    BorealisUtilities.pulse_phase_offset_site_fix({'tmp': rec_dict})
 
                     # some fields are linear in site style and need to be reshaped.
                     # Pass in record nested in a dictionary, as
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index a4a5d1a..335a814 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -622,6 +622,15 @@ class BorealisUtilities():
 
         return version
 
+    @staticmethod
+    def is_broken_offset_array(ppo) -> bool:
+        """
+        Whether pulse_phase_offset of array data holds the dimensions of an
+        empty array in place of the array.
+        """
+        return ppo is not None and ppo.shape == (2,) and \
+            ppo.dtype.type == np.int64
+
     @staticmethod
     def pulse_phase_offset_array_fix(data_dict: dict):
         """
@@ -630,7 +639,7 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
-        if ppo.shape == (2,) and ppo.dtype.type == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
+        if BorealisUtilities.is_broken_offset_array(ppo):  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
-- 
2.43.0


From b2564939b203b12207761704fd1c34f6286c42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 35/41] fix: require one per-record count for every record of
 Borealis array data

---
 pydarnio/borealis/borealis_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index f656c7c..8491641 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -240,7 +240,8 @@ class BorealisArrayRead():
 
         attribute_types = self.format.array_single_element_types()
         dataset_types = self.format.array_array_dtypes()
-        unshared_fields = self.format.unshared_fields()
+        unshared_fields = self.format.unshared_fields() + list(
+            self.format.array_specific_fields_iterative_generator())
 
         arrays = self.format.read_arrays(self.filename)
         BorealisUtilities.pulse_phase_offset_array_fix(arrays)  # To fix the problematic field stemming from deepdish
@@ -449,7 +450,8 @@ class BorealisArrayWrite():
 
         attribute_types = self.format.array_single_element_types()
         dataset_types = self.format.array_array_dtypes()
-        unshared_fields = self.format.unshared_fields()
+        unshared_fields = self.format.unshared_fields() + list(
+            self.format.array_specific_fields_iterative_generator())
         BorealisUtilities.check_arrays(self.filename, self.arrays, attribute_types,
                                        dataset_types, unshared_fields)
         self.format.write_arrays(self.filename, self.arrays, self.compression)
-- 
2.43.0


From fdb14b46ab68d9f7501d7de939f531595849bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 36/41] fix: report phase offsets and pulses that are not
 arrays as wrong types

---
 pydarnio/borealis/borealis_utilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 335a814..77b3fbd 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -628,7 +628,7 @@ class BorealisUtilities():
         Whether pulse_phase_offset of array data holds the dimensions of an
         empty array in place of the array.
         """
-        return ppo is not None and ppo.shape == (2,) and \
+        return getattr(ppo, 'shape', None) == (2,) and \
             ppo.dtype.type == np.int64
 
     @staticmethod
@@ -639,6 +639,8 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
+        if not isinstance(data_dict.get('num_sequences'), np.ndarray):
+            return      # the bad field is reported by the array checks
         if BorealisUtilities.is_broken_offset_array(ppo):  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
@@ -651,8 +653,9 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
-            if 'pulses' not in rec:
-                continue    # the missing field is reported by the record checks
+            if not isinstance(ppo, np.ndarray) or \
+                    not isinstance(rec.get('pulses'), np.ndarray):
+                continue    # the bad field is reported by the record checks
             # One offset per pulse, or (v0.6 on) one per sequence and pulse, is not broken
             if ppo.shape[-1:] != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From fc2139320a0d3469c5b291dc10d353182b67b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 37/41] fix: do not leave partial Borealis files behind when
 writing fails

---
 pydarnio/borealis/base_format.py          | 28 +++++++++++++++++++++--
 pydarnio/borealis/borealis_restructure.py |  4 ++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 5d82f26..52b22f1 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -39,8 +39,10 @@ Notes
 import copy
 import h5py
 import numpy as np
+import os
 
 from collections import OrderedDict
+from contextlib import contextmanager
 from datetime import datetime
 from typing import Callable, List
 
@@ -1359,6 +1361,28 @@ class BaseFormat():
 
         return arrays
 
+    @staticmethod
+    @contextmanager
+    def _output_file(filename: str):
+        """
+        Open a file for adding data to it. If adding the data fails, a
+        file that did not exist before is removed again, so that no partial
+        file is left behind.
+
+        Parameters
+        ----------
+        filename: str
+            Name of the file to write to.
+        """
+        is_new = not os.path.exists(filename)
+        try:
+            with h5py.File(filename, 'a') as f:
+                yield f
+        except BaseException:
+            if is_new and os.path.isfile(filename):
+                os.remove(filename)
+            raise
+
     @classmethod
     def write_records(cls, filename: str, records: OrderedDict, compression: str):
         """
@@ -1378,7 +1402,7 @@ class BaseFormat():
         """
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
-        with h5py.File(filename, 'a') as f:
+        with cls._output_file(filename) as f:
             present = [name for name in records if str(name) in f]
             if present:
                 raise ValueError('Records {} already exist in {}'
@@ -1417,7 +1441,7 @@ class BaseFormat():
         attribute_types = cls.array_single_element_types()
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
-        with h5py.File(filename, 'a') as f:
+        with cls._output_file(filename) as f:
             present = [k for k in arrays if k in f or k in f.attrs]
             if present:
                 raise ValueError('Fields {} already exist in {}'
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index a4fef25..61d0aac 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -207,6 +207,7 @@ class BorealisRestructure(object):
         """
         attribute_types = self.format.site_single_element_types()
         dataset_types = self.format.array_dtypes()
+        is_new_file = not os.path.exists(self.outfile_name)
         try:
             with h5py.File(self.infile_name, 'r') as f:
 
@@ -311,6 +312,9 @@ class BorealisRestructure(object):
                     self.format.write_records(self.outfile_name, record_dict,
                                               self.compression)
         except Exception as err:
+            # do not leave the records before the failing one behind
+            if is_new_file and os.path.isfile(self.outfile_name):
+                os.remove(self.outfile_name)
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from array to site '
                 'style: {}'
-- 
2.43.0


From 72691227816abfd4d92b98a706d2e69ffba8fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 38/41] fix: refuse arrays with two records at the same time
 instead of losing one

---
 pydarnio/borealis/base_format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 52b22f1..ae39fa2 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1190,6 +1190,9 @@ class BaseFormat():
             seq_datetime = datetime.utcfromtimestamp(seq_timestamp[0])
             epoch = datetime.utcfromtimestamp(0)
             key = str(int((seq_datetime - epoch).total_seconds() * 1000))
+            if key in timestamp_dict:
+                raise borealis_exceptions.BorealisRestructureError(
+                    'More than one record at time {} ms'.format(key))
 
             timestamp_dict[key] = dict()
             # populate shared fields in each record,
-- 
2.43.0


From 0ce0fca39e4e7f9aee1a7e5f3e3139c9c4475621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 39/41] fix: refuse to restructure Borealis files whose fields
 do not fit their format

---
 pydarnio/borealis/borealis_restructure.py | 68 ++++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 61d0aac..c739d0d 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -192,6 +192,65 @@ class BorealisRestructure(object):
                 'restructureable from array to site style'
                 ''.format(self.infile_name, self.format.__name__))
 
+    def _check_input_arrays(self, f: h5py.File):
+        """
+        Checks the fields of the input array file as BorealisArrayRead does,
+        without loading them.
+
+        Parameters
+        ----------
+        f: h5py.File
+            The input file
+        """
+        arrays = dict()
+        for name in self.record_names:
+            if name not in f:
+                value = f.attrs[name]
+                if isinstance(value, bytes):
+                    value = value.decode('utf-8')
+            elif f[name].shape == ():
+                value = f[name][()]
+            elif 'strtype' in f[name].attrs:
+                itemsize = f[name].attrs['itemsize']
+                value = f[name][:].view(dtype=(np.str_, itemsize))
+            else:   # same type and shape as the array, without its values
+                value = np.broadcast_to(np.empty((), f[name].dtype),
+                                        f[name].shape)
+            arrays[name] = value
+        BorealisUtilities.pulse_phase_offset_array_fix(arrays)
+        BorealisUtilities.check_arrays(
+            self.infile_name, arrays, self.format.array_single_element_types(),
+            self.format.array_array_dtypes(), self.format.unshared_fields() +
+            list(self.format.array_specific_fields_iterative_generator()))
+
+    def _check_input_record(self, record: h5py.Group, rec_dict: dict,
+                            record_name: str):
+        """
+        Checks the fields of a record of the input site file as
+        BorealisSiteRead does.
+
+        Parameters
+        ----------
+        record: h5py.Group
+            The record in the input file
+        rec_dict: dict
+            The fields of the record, strings as they are stored
+        record_name: str
+            Name of the record
+        """
+        fields = {k: v.decode('utf-8') if isinstance(v, bytes) else v
+                  for k, v in rec_dict.items() if k not in
+                  ['DEEPDISH_IO_VERSION', 'PYTABLES_FORMAT_VERSION']}
+        for field in record:
+            if 'strtype' in record[field].attrs:
+                itemsize = record[field].attrs['itemsize']
+                fields[field] = record[field][:].view(dtype=(np.str_,
+                                                             itemsize))
+        BorealisUtilities.check_records(self.infile_name,
+                                        {record_name: fields},
+                                        self.format.site_single_element_types(),
+                                        self.format.site_array_dtypes())
+
     def _array_to_site_restructure(self):
         """
         Performs restructuring on an array-structured Borealis HDF5 file,
@@ -210,6 +269,7 @@ class BorealisRestructure(object):
         is_new_file = not os.path.exists(self.outfile_name)
         try:
             with h5py.File(self.infile_name, 'r') as f:
+                self._check_input_arrays(f)
 
                 # shared fields are common across records, so this is done once
                 broken_offset = BorealisUtilities.is_broken_offset_array(
@@ -242,13 +302,6 @@ class BorealisRestructure(object):
                         else:
                             unshared_single_elements[field] = f[field][:]
 
-                BorealisUtilities.array_num_records_check(
-                    self.infile_name,
-                    [field for field in self.format.unshared_fields()
-                     if not (field == 'pulse_phase_offset' and broken_offset)],
-                    {field: unshared_single_elements.get(field, f[field])
-                     for field in self.format.unshared_fields()})
-
                 sqn_timestamps_array = f['sqn_timestamps'][:]
 
                 for record_num, seq_timestamp in enumerate(sqn_timestamps_array):
@@ -360,6 +413,7 @@ class BorealisRestructure(object):
                     for field in self.format.bool_types():
                         rec_dict[field] = f[record_name].attrs[field]
                     BorealisUtilities.pulse_phase_offset_site_fix({'tmp': rec_dict})
+                    self._check_input_record(record, rec_dict, record_name)
 
                     # some fields are linear in site style and need to be reshaped.
                     # Pass in record nested in a dictionary, as
-- 
2.43.0


From 00b5935ee82691f97bb6d88959ab1b7844afa14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 40/41] fix: refuse DMAP fields that are not what their
 description says

---
 pydarnio/dmap/dmap.py | 48 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 37326b0..c1f16ce 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1046,6 +1046,8 @@ class DmapWrite(object):
         data_bytearray = bytearray()
         array_bytearray = bytearray()
         for name, data_info in record.items():
+            if isinstance(data_info, (DmapScalar, DmapArray)):
+                self._data_info_check(name, data_info)
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
@@ -1071,6 +1073,52 @@ class DmapWrite(object):
         self.dmap_bytearr.extend(struct.pack('i', num_arrays))
         self.dmap_bytearr.extend(data_bytearray)
 
+    def _data_info_check(self, name: str,
+                         data_info: Union[DmapScalar, DmapArray]):
+        """
+        Checks that the description of a field is what its name and value
+        are, as it is written as the description says.
+
+        Parameters
+        ----------
+        name : str
+            The name of the field in the record
+        data_info : DmapScalar or DmapArray
+            The field
+
+        Raises
+        ------
+        DmapDataError
+            If the field cannot be read back from what would be written
+        """
+        problem = None
+        value = data_info.value
+        fmt = data_info.data_type_fmt
+        if data_info.name != name:
+            problem = "is named {}".format(data_info.name)
+        elif '\0' in name or (isinstance(value, str) and '\0' in value):
+            problem = "contains a null character"
+        elif DMAP_DATA_TYPES.get(data_info.data_type, ('',))[0] != fmt:
+            problem = "has the data type {} but the format {}"\
+                "".format(data_info.data_type, fmt)
+        elif isinstance(data_info, DmapArray) and fmt != 's' and \
+                getattr(value, 'dtype', np.dtype('U')).kind != 'U':
+            dtype = np.dtype(np.int8 if fmt == 'c' else fmt)
+            if value.dtype.newbyteorder('=') != dtype:
+                problem = "has values of type {} instead of {}"\
+                    "".format(value.dtype, dtype)
+            elif data_info.dimension != len(data_info.shape) or \
+                    min(data_info.shape, default=-1) < 0 or \
+                    list(value.shape) not in (list(data_info.shape),
+                                              [np.prod(data_info.shape)]):
+                problem = "has the shape {} instead of {}"\
+                    "".format(value.shape, data_info.shape)
+        if problem is not None:
+            message = "Error: The field {name} {problem}."\
+                " Failed at record {rec}"\
+                "".format(name=name, problem=problem, rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.filename, message)
+
     def dmap_scalar_to_bytes(self, scalar: DmapScalar) -> bytes:
         """
         Converts a DmapScalar to byte format.
-- 
2.43.0


From 7e5ad6c9f44496cead1bfafe59474f70feb884fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 41/41] fix: write Borealis strings of any memory layout and
 byte order

---
 pydarnio/borealis/base_format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index ae39fa2..e345657 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1420,7 +1420,8 @@ class BaseFormat():
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
                         itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
-                        dset = group.create_dataset(k, data=v.view(dtype=(np.uint8)),
+                        data = np.ascontiguousarray(v, v.dtype.newbyteorder('='))
+                        dset = group.create_dataset(k, data=data.view(dtype=(np.uint8)),
                                                     compression=compression)
                         dset.attrs['strtype'] = b'unicode'
                         dset.attrs['itemsize'] = itemsize
@@ -1457,7 +1458,8 @@ class BaseFormat():
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
                     itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
-                    dset = f.create_dataset(k, data=v.view(dtype=(np.uint8)), compression=compression)
+                    data = np.ascontiguousarray(v, v.dtype.newbyteorder('='))
+                    dset = f.create_dataset(k, data=data.view(dtype=(np.uint8)), compression=compression)
                     dset.attrs['strtype'] = b'unicode'
                     dset.attrs['itemsize'] = itemsize
                 else:
-- 
2.43.0

