From 2b8d4bbe51aa6525e3921d46ae9d1eb1e3c37bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 01/36] fix: store beam section shear factors as floats

SFY, SFZ (and R of GCHANR) are real numbers; Int32 columns truncated them.
---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..bfe8b7f 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1009,8 +1009,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1026,8 +1026,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1045,11 +1045,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1066,8 +1066,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1085,8 +1085,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1105,8 +1105,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1125,8 +1125,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1143,8 +1143,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1161,8 +1161,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1182,8 +1182,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From de4e00c1ee8c3ca72fd0501a6964c65ecbfc02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 02/36] fix: accept the drift force, motion and section force
 record names

---
 freesif/sequentialparser/sequentialfiles.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..9d47d40 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,10 +36,10 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
-'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
+'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'TDLOAD', 'WINPUT', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
 'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
 
@@ -68,10 +68,10 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
-b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
+b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'TDLOAD', b'WINPUT', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
 b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
 
-- 
2.43.0


From 30162279eaa9a4906e42d4a6d05d52bc3dfe7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 03/36] fix: read section records whose optional fields are
 left out in mid-line

---
 freesif/sequentialparser/parsers.py         | 5 +++--
 freesif/sequentialparser/sequentialfiles.py | 6 ++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index bfe8b7f..f4a9532 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -390,8 +390,9 @@ def reader_optionalfields(record_name, descriptor, skipfirst=0, noptf=0):
 
             rec += in_file.read_floats(n_add_fl, skipfirst)
 
-            if not in_file.at_headerrec():
-                rec += in_file.read_floats(noptf, skipfirst)
+            # the optional fields may end anywhere, also in the middle of a line
+            while len(rec) < ncols and not in_file.at_headerrec():
+                rec += in_file.read_floats(1, skipfirst)
 
             # pad or remove values to match ncols
             if len(rec) != ncols:
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 9d47d40..0a39976 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -230,8 +230,7 @@ class UnformattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
@@ -320,8 +319,7 @@ class FormattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
-- 
2.43.0


From 6cc8db4d791a955e75262ce8a8720afbc21a6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 04/36] fix: read all values of complex node results

---
 freesif/sequentialparser/parsers.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f4a9532..fd115e3 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1888,9 +1888,9 @@ atoms['RVNODACC'] = [('acc', tb.Float32Atom(), ())]
 atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
-# each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
-# be changed from float32 to complex64 before use
+# each row in a 'rvnodres' vlarray will have nfield - 5 32-bit floats. If
+# results are complex the dtype should be changed from float32 to complex64
+# before use (nfield counts real and imaginary parts)
 
 
 def rvnodres_reader(rec_name, rec, in_file, out_file):
@@ -1904,11 +1904,8 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
 
-        res.add(in_file.read_floats(nres))
+        res.add(in_file.read_floats(nfield - 5))
         recs.add(rec)
 
         rec_name, rec = in_file.read_headerrec()
-- 
2.43.0


From 550e48770e44e09c5ed0b53b2c6e4b28c0e58fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 05/36] fix: raise when a source ends in the middle of its data

---
 freesif/sequentialparser/parsers.py         |  5 +--
 freesif/sequentialparser/sequentialfiles.py | 41 +++++++++++++++++++--
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index fd115e3..4c98b4d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -674,10 +674,7 @@ readers['IDENT'] = ident_reader
 
 # record type is not written to hdf5 file
 def iend(rec_name, rec, in_file, out_file):
-    if rec[0] == 0.:  # end of file
-        return None, None
-    else:
-        return in_file.read_headerrec()
+    return in_file.next_after_iend(rec)
 
 readers['IEND'] = iend
 
diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 0a39976..c72d287 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -118,6 +118,9 @@ class SequentialFile(object):
                 self.read_floatrec()
             return self.read_headerrec()
 
+        if rec_name == 'IEND':
+            return self.next_after_iend(rec)
+
         # workaround to handle TDxxxxxx records (on unformatted files):
         if rec_name[:2] == 'TD':
             for i in range(int(rec[2]) // 100):
@@ -145,6 +148,15 @@ class SequentialFile(object):
             self.read_floats(nfloats)  # read remainder of record
             return self.read_headerrec()
 
+    def next_after_iend(self, rec):
+        """
+        returns the header record following an IEND record, (None, None) if
+        there is no more data. Only here may a file end.
+        """
+        if rec[0] == 0. or self.at_end():
+            return None, None
+        return self.read_headerrec()
+
     def get_recordcount(self):
         recs = {}
 
@@ -183,13 +195,25 @@ class UnformattedFile(SequentialFile):
 
         self.hasrest = False
 
-        rlen = struct.unpack('B', self.f.read(1))[0]
+        head = self.f.read(1)
+        if not head:
+            raise EOFError('Unexpected end of file')
+        rlen = struct.unpack('B', head)[0]
         if rlen == 129:
             rlen = 128
         rec = self.f.read(rlen)
-        self.f.read(1)
+        if len(rec) < rlen or not self.f.read(1):
+            raise EOFError('Unexpected end of file')
         return rec
 
+    def at_end(self):
+        """check if there are no more records (end of file or end mark)
+        """
+        pos = self.f.tell()
+        mark = self.f.read(1)
+        self.f.seek(pos)
+        return mark in (b'', b'\x82')
+
     def tofloatrec(self, stringrec):
         return struct.unpack('{}f'.format(len(stringrec)//4), stringrec)
 
@@ -272,7 +296,18 @@ class FormattedFile(SequentialFile):
     def read_stringrec(self):
         self.hasrest = False
 
-        return self.f.readline()[:-1]  # skip the newline character
+        line = self.f.readline()
+        if not line:
+            raise EOFError('Unexpected end of file')
+        return line.rstrip('\n')  # skip the newline character
+
+    def at_end(self):
+        """check if there are no more records (end of file or a blank line)
+        """
+        pos = self.f.tell()
+        line = self.f.readline()
+        self.f.seek(pos)
+        return not line.strip()
 
     def tofloatrec(self, stringrec):
         return tuple([float(stringrec[i:i+16])
-- 
2.43.0


From 3566b6a7951ce1c6692457a846d5e8ebba6fb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 06/36] fix: raise instead of stopping at a line that is not a
 record

---
 freesif/sequentialparser/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 4c98b4d..67111cd 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -461,6 +461,10 @@ def parse_file(in_file, out_file, only=None):
         while rec_name:
             rec_name, rec = general_parser(rec_name, rec, in_file, out_file)
 
+    if rec_name is not None:  # stopped by something else than an IEND record
+        raise ValueError('Found a line without a record name where a record '
+                         'should start')
+
     # set attributes on superelement group
     # ------------------------------------
 
-- 
2.43.0


From 1fa48bb087e2a73071faf2b6b78d9dda2a769172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 07/36] fix: skip TSLAYER records of unformatted files

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index c72d287..fba0aa3 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -122,7 +122,7 @@ class SequentialFile(object):
             return self.next_after_iend(rec)
 
         # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
-- 
2.43.0


From 4b4e93c0f744a458c35fac352ec89c52b7a9c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 08/36] fix: forget the element types of the previous file

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 67111cd..da5f030 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -139,7 +139,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +149,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From a1ddcc69e19b8561f699c88b5f4b7c214ff63f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 09/36] fix: give lower level data their top level, so that
 hierarchy transformations work

---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..78cc5ff 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..e025dfe 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -161,7 +161,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
@@ -468,7 +468,7 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
             elif self._has_record('rsuptran') and trans=='top':
-- 
2.43.0


From 52e9d4d7a65591901abd5424514a444258c2c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 10/36] fix: close the files of a failed conversion and remove
 its partial groups

---
 freesif/sequentialparser/sif2hdf5.py | 36 ++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..80d073e 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -171,6 +171,37 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     if not hdf5name and append:
         raise ValueError('Cannot append unless a hdf5name is provided.')
 
+    opened = []  # (file, groups on it before the conversion) of all files
+    try:
+        return _convert(sifname, hdf5name, append, usefileprefix, prefix, only,
+                        in_memory, opened)
+    except BaseException:
+        _abort(opened)
+        raise
+
+
+def _abort(opened):
+    """Close the files of a failed conversion, the output without the groups
+    that the conversion created.
+    """
+    for f, groups_before in reversed(opened):
+        try:
+            if groups_before is not None and f.isopen:
+                for name in set(f.root._v_groups) - groups_before:
+                    f.remove_node(f.root, name, recursive=True)
+        except Exception:
+            pass  # report the cause of the failure, not its consequences
+        try:
+            f.close()
+        except Exception:
+            pass
+
+
+def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
+             opened):
+    """Convert one (top level) file, see sif2hdf5. All opened files are added
+    to the list *opened*, together with the names of the groups on them.
+    """
 
     # determine filename info
     real_path = path.realpath(sifname)
@@ -222,14 +253,14 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         in_file = FormattedFile(sifname)
     else:
         in_file = UnformattedFile(sifname)
+    opened.append((in_file, None))
 
     if in_memory:
         out_file = tb.open_file(hdf5name, 'w', driver='H5FD_CORE',
                                 driver_core_backing_store=0)
     else:
         out_file = tb.open_file(hdf5name, 'a' if append else 'w')
-
-    # TODO: check if group name allready exist
+    opened.append((out_file, set(out_file.root._v_groups)))
 
     # set filetypeid
     parsers.set_filetypeid(filetypeid)
@@ -285,6 +316,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
                     in_file = FormattedFile(fname_fullpath)
                 else:
                     in_file = UnformattedFile(fname_fullpath)
+                opened.append((in_file, None))
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-- 
2.43.0


From 90c617673542a3ef2f4b8b152bdb592e7e69dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 11/36] fix: refuse to append records to a group that already
 exists

---
 freesif/sequentialparser/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index da5f030..2cc82e5 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -296,6 +296,10 @@ def get_table(rec_name, out_file):
         atom_data = atoms.get(rec_name, None)
         nrecs = record_count.get(rec_name, 10000)
 
+        if not tables and where in out_file:
+            raise tb.NodeError('The file already has a group named '
+                               '{}'.format(where))
+
         if rec_name == 'RDPOINTS':
             pass
 
-- 
2.43.0


From bb50806424762955735b65393ed43e7f44ebf5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 12/36] fix: raise when the output could not be written

---
 freesif/sequentialparser/sif2hdf5.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 80d073e..405f2ec 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -197,6 +197,14 @@ def _abort(opened):
             pass
 
 
+def _check_hdf5_errors(hdf5name):
+    """Raise if the last HDF5 call failed
+    """
+    error = tb.HDF5ExtError('Failed to write ' + hdf5name, h5bt=True)
+    if error.h5backtrace:
+        raise error
+
+
 def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
              opened):
     """Convert one (top level) file, see sif2hdf5. All opened files are added
@@ -330,7 +338,11 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
         # TODO: is it possible to change mode to 'r' here ?
         return out_file
 
+    # PyTables ignores errors when flushing and closing, look for them
+    out_file.flush()
+    _check_hdf5_errors(hdf5name)
     out_file.close()
+    _check_hdf5_errors(hdf5name)
 
     # return hdf5 file name (full path)
     return path.abspath(hdf5name)
-- 
2.43.0


From 32dbe3b046674e78651fbcdad8618cf53c184d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 13/36] fix: let conversions in several threads wait for each
 other

---
 freesif/sequentialparser/sif2hdf5.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 405f2ec..4cf042a 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -7,9 +7,13 @@ from __future__ import print_function
 from os import path
 import tables as tb
 import re
+import threading
 from . import parsers
 from .sequentialfiles import FormattedFile, UnformattedFile
 
+# only one conversion at a time
+_lock = threading.RLock()
+
 
 def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             prefix='', only=None, in_memory=False):
@@ -172,12 +176,13 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         raise ValueError('Cannot append unless a hdf5name is provided.')
 
     opened = []  # (file, groups on it before the conversion) of all files
-    try:
-        return _convert(sifname, hdf5name, append, usefileprefix, prefix, only,
-                        in_memory, opened)
-    except BaseException:
-        _abort(opened)
-        raise
+    with _lock:  # the parsers keep their state in module globals
+        try:
+            return _convert(sifname, hdf5name, append, usefileprefix, prefix,
+                            only, in_memory, opened)
+        except BaseException:
+            _abort(opened)
+            raise
 
 
 def _abort(opened):
-- 
2.43.0


From 08d2037061e8cab0c939a180bca5ef3c330e1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 14/36] fix: leave nothing open when a file cannot be opened,
 close all files

---
 freesif/data/file.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 78cc5ff..dac1af9 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -40,11 +40,18 @@ def open_sif(filename):
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
     groupname = prefix + letter + idno
-    return File(tbfile)[groupname]
+    try:
+        return File(tbfile)[groupname]
+    except BaseException:
+        for f in list(_open_files):
+            if f._tbfile is tbfile:
+                f.close()
+        tbfile.close()
+        raise
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
@@ -71,8 +78,6 @@ class File(object):
             # at different locations are treated independently
             fullpath = path.abspath(filename)
 
-            # put this in a try/except to clean up if tables raises an
-            # exception? probably not necessary as no initialization is done
             self._tbfile = tb.open_file(fullpath, mode)
             self.filename = path.split(fullpath)[1]
 
@@ -81,9 +86,21 @@ class File(object):
             self.filename = self._tbfile.filename
 
         self._data = {}
+        try:
+            self._load_data()
+        except BaseException:
+            if isinstance(filename, str):  # opened here
+                self._tbfile.close()
+            raise
+
+        _open_files.add(self)
+        self._isopen = True
+
+    def _load_data(self):
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
 
+            data = None
             datatype = gr._f_getattr('DATATYPE')
 
             if datatype == 'STRUCTURAL':
@@ -97,6 +114,10 @@ class File(object):
             elif datatype == 'HYDRODYNAMIC':
                 data = HydroData(gr, self)
 
+            if data is None:
+                raise ValueError('{} does not hold structural or hydrodynamic '
+                                 'data'.format(gr._v_pathname))
+
             self._data[gr._v_name] = data
 
             # loop over subgroups (intermediate or 1st level groups)
@@ -109,9 +130,6 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
-        _open_files.add(self)
-        self._isopen = True
-
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
-- 
2.43.0


From 7486428f480d29825ddd1f074934bb9073e0d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 15/36] fix: iteration over and repr of a File

---
 freesif/data/file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index dac1af9..203b571 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -172,12 +172,12 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From e9fd4422e0a10f5830cc24260a20aa7dd62d5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 16/36] fix: do not hand out the arrays HydroData works with

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..cd2e710 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From a8f26732edb935aa2e9ab404a4bf4235f564fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 17/36] fix: section forces when several bodies have sections

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index cd2e710..6a1c33b 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -255,7 +255,7 @@ class HydroData(SifData):
         data = self._get_results('w1sforce', bodyid, 'data')
 
         # reshape data to (section, dof, direction, frequency)
-        data.shape = (self._nsections, self._ndirs, self._nfreqs, 6)
+        data.shape = (-1, self._ndirs, self._nfreqs, 6)
         return np.rollaxis(data, 3, 1)
 
     def get_fluidkinematics_raos(self, kind='elevation'):
-- 
2.43.0


From 70c31539a37c2d08b25bd96c76ffaab22681db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 18/36] fix: file names in lower case

---
 freesif/data/file.py                 |  2 +-
 freesif/sequentialparser/sif2hdf5.py | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 203b571..3685097 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -39,7 +39,7 @@ def open_sif(filename):
 
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter + idno
+    groupname = prefix + letter.upper() + idno
     try:
         return File(tbfile)[groupname]
     except BaseException:
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 4cf042a..3b928aa 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -242,7 +242,7 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
     parsers.reset()
 
     # filetype identifier (T, L, R or G)
-    filetypeid = letter
+    filetypeid = letter.upper()
 
     # set group name prefix
     if usefileprefix:
@@ -300,12 +300,14 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
         # generate candidate file names
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        # lower level files are named in the case of the top level file
+        tocase = str.upper if letter.isupper() else str.lower
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-                                  'R' + str(r['iselty']) +
-                                  'H' + str(r['ihref']) +
+                                  tocase('R') + str(r['iselty']) +
+                                  tocase('H') + str(r['ihref']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
@@ -313,7 +315,7 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
             for r in hierarch_table[1:]:
                 if r['indsel'] == 1:  # skip additional repetitions
                     fnames.append(fileprefix +
-                                  'T' + str(r['iselty']) +
+                                  tocase('T') + str(r['iselty']) +
                                   '.' + extension)
                     ihref.append(r['ihref'])
 
-- 
2.43.0


From 5d1849dd1043ae1899b93a3f7ef1c5df25c8c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 19/36] fix: keep the top level when HIERARCH records come in
 several runs

---
 freesif/sequentialparser/parsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 2cc82e5..71b7dbf 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -568,8 +568,9 @@ def hierarch_reader(rec_name, rec, in_file, out_file):
 
     rec2 = in_file.read_floats(4)
 
-    global current_seltyp
-    current_seltyp = int(rec[2])
+    global current_seltyp, attoplevel
+    if not attoplevel:  # first run of HIERARCH records, top level comes first
+        current_seltyp = int(rec[2])
 
     table, ihsref_arr = get_table(rec_name, out_file)
     ihsrefs = vldata(ihsref_arr)
@@ -593,7 +594,7 @@ def hierarch_reader(rec_name, rec, in_file, out_file):
     recs.write()
 
     # set module level swithches
-    global has_hierarch, attoplevel
+    global has_hierarch
     has_hierarch = True
     attoplevel = True
 
-- 
2.43.0


From fcc1ca0c033fb4d191a784d62cae664b29df0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:45 +0000
Subject: [PATCH 20/36] fix: mark the output as incomplete while a conversion
 is writing it

---
 freesif/data/file.py                 |  6 +++++-
 freesif/sequentialparser/sif2hdf5.py | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 3685097..228b440 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -8,7 +8,7 @@ from os import path
 from .helpers import parse_sifname
 from .strucdata import TopLevelData, InterLevelData, FirstLevelData
 from .hydrodata import HydroData
-from ..sequentialparser.sif2hdf5 import sif2hdf5
+from ..sequentialparser.sif2hdf5 import sif2hdf5, INCOMPLETE
 from ..exceptions import ClosedFileError
 
 
@@ -97,6 +97,10 @@ class File(object):
         self._isopen = True
 
     def _load_data(self):
+        if INCOMPLETE in self._tbfile.root._v_attrs:
+            raise ValueError('A conversion into {} was killed before it was '
+                             'finished'.format(self.filename))
+
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 3b928aa..c30cd6c 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -14,6 +14,10 @@ from .sequentialfiles import FormattedFile, UnformattedFile
 # only one conversion at a time
 _lock = threading.RLock()
 
+# root attribute of an output file while a conversion into it is going on, see
+# File. It stays there if the process is killed.
+INCOMPLETE = 'CONVERSION_INCOMPLETE'
+
 
 def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             prefix='', only=None, in_memory=False):
@@ -194,6 +198,10 @@ def _abort(opened):
             if groups_before is not None and f.isopen:
                 for name in set(f.root._v_groups) - groups_before:
                     f.remove_node(f.root, name, recursive=True)
+                if INCOMPLETE in f.root._v_attrs:
+                    f.flush()
+                    _check_hdf5_errors(f.filename)
+                    f.root._f_delattr(INCOMPLETE)
         except Exception:
             pass  # report the cause of the failure, not its consequences
         try:
@@ -273,7 +281,14 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
                                 driver_core_backing_store=0)
     else:
         out_file = tb.open_file(hdf5name, 'a' if append else 'w')
+        if INCOMPLETE in out_file.root._v_attrs:
+            out_file.close()
+            raise ValueError('An earlier conversion into {} was killed'.format(
+                hdf5name))
     opened.append((out_file, set(out_file.root._v_groups)))
+    if not in_memory:
+        out_file.root._f_setattr(INCOMPLETE, 1)
+        out_file.flush()  # must be on file before anything else changes
 
     # set filetypeid
     parsers.set_filetypeid(filetypeid)
@@ -348,6 +363,7 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
     # PyTables ignores errors when flushing and closing, look for them
     out_file.flush()
     _check_hdf5_errors(hdf5name)
+    out_file.root._f_delattr(INCOMPLETE)
     out_file.close()
     _check_hdf5_errors(hdf5name)
 
-- 
2.43.0


From e8558e0ae608665385bf53c34d2441086b007f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 21/36] fix: look for write errors whenever records are flushed

---
 freesif/sequentialparser/parsers.py  | 22 ++++++++++++++++++----
 freesif/sequentialparser/sif2hdf5.py | 15 +++------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 71b7dbf..59f5086 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -183,17 +183,17 @@ class recdata(object):
         self.counter += 1
         if self.counter == tmp_arr_size:  # array is full
             self.table.append(self.recs)
-            self.table.flush()
             for vl in self.vldata:
                 vl.write()
+            flush(self.table)  # flushes the vldata as well
             self.counter = 0
 
     def write(self):
         self.table.append(self.recs[:self.counter])
-        self.table.flush()
         # write any connected vldata as well
         for vl in self.vldata:
             vl.write()
+        flush(self.table)  # flushes the vldata as well
 
 
 class vldata(object):
@@ -223,6 +223,20 @@ class vldata(object):
 # ---Helper functions-------------------------------------------------------- #
 
 
+def check_hdf5_errors(hdf5name):
+    """Raise if the last HDF5 call failed, PyTables ignores errors when
+    flushing and closing
+    """
+    error = tb.HDF5ExtError('Failed to write ' + hdf5name, h5bt=True)
+    if error.h5backtrace:
+        raise error
+
+
+def flush(table):
+    table.flush()
+    check_hdf5_errors(table._v_file.filename)
+
+
 def has_hierarchy():
     return has_hierarch
 
@@ -673,7 +687,7 @@ def ident_reader(rec_name, rec, in_file, out_file):
     table.row['selmod'] = int(rec[2])
 
     table.row.append()
-    table.flush()
+    flush(table)
 
     return in_file.read_headerrec()
 
@@ -1586,7 +1600,7 @@ def xsuptran_reader(rec_name, rec, in_file, out_file):
         table.row.append()
         rec_name, rec = in_file.read_headerrec()
 
-    table.flush()
+    flush(table)
     return rec_name, rec
 
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index c30cd6c..0adee0f 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -200,7 +200,7 @@ def _abort(opened):
                     f.remove_node(f.root, name, recursive=True)
                 if INCOMPLETE in f.root._v_attrs:
                     f.flush()
-                    _check_hdf5_errors(f.filename)
+                    parsers.check_hdf5_errors(f.filename)
                     f.root._f_delattr(INCOMPLETE)
         except Exception:
             pass  # report the cause of the failure, not its consequences
@@ -210,14 +210,6 @@ def _abort(opened):
             pass
 
 
-def _check_hdf5_errors(hdf5name):
-    """Raise if the last HDF5 call failed
-    """
-    error = tb.HDF5ExtError('Failed to write ' + hdf5name, h5bt=True)
-    if error.h5backtrace:
-        raise error
-
-
 def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
              opened):
     """Convert one (top level) file, see sif2hdf5. All opened files are added
@@ -360,12 +352,11 @@ def _convert(sifname, hdf5name, append, usefileprefix, prefix, only, in_memory,
         # TODO: is it possible to change mode to 'r' here ?
         return out_file
 
-    # PyTables ignores errors when flushing and closing, look for them
     out_file.flush()
-    _check_hdf5_errors(hdf5name)
+    parsers.check_hdf5_errors(hdf5name)
     out_file.root._f_delattr(INCOMPLETE)
     out_file.close()
-    _check_hdf5_errors(hdf5name)
+    parsers.check_hdf5_errors(hdf5name)
 
     # return hdf5 file name (full path)
     return path.abspath(hdf5name)
-- 
2.43.0


From 7c58de1df2b1feed18fb0c28ef5a950b05aeff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 22/36] fix: refuse to open a file whose content cannot be
 listed

---
 freesif/data/file.py                | 18 ++++++++++++++++--
 freesif/sequentialparser/parsers.py |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 228b440..c03605d 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -9,6 +9,7 @@ from .helpers import parse_sifname
 from .strucdata import TopLevelData, InterLevelData, FirstLevelData
 from .hydrodata import HydroData
 from ..sequentialparser.sif2hdf5 import sif2hdf5, INCOMPLETE
+from ..sequentialparser.parsers import check_hdf5_errors
 from ..exceptions import ClosedFileError
 
 
@@ -97,12 +98,15 @@ class File(object):
         self._isopen = True
 
     def _load_data(self):
+        if 'CLASS' not in self._tbfile.root._v_attrs:
+            raise ValueError('The attributes of {} are missing or cannot be '
+                             'read'.format(self.filename))
         if INCOMPLETE in self._tbfile.root._v_attrs:
             raise ValueError('A conversion into {} was killed before it was '
                              'finished'.format(self.filename))
 
         # loop over independent (top level or non-hierarhcy) groups
-        for gr in self._tbfile.root._f_iter_nodes('Group'):
+        for gr in self._child_groups(self._tbfile.root):
 
             data = None
             datatype = gr._f_getattr('DATATYPE')
@@ -125,7 +129,8 @@ class File(object):
             self._data[gr._v_name] = data
 
             # loop over subgroups (intermediate or 1st level groups)
-            for subgr in gr._f_iter_nodes('Group'):
+            for subgr in self._child_groups(gr):
+                self._child_groups(subgr)
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
@@ -134,6 +139,15 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
+    def _child_groups(self, group):
+        """Child groups of a group. PyTables lists the children at the first
+        access, and ignores errors, so this is where a failure shows.
+        """
+        if '_v_children' not in vars(group):
+            group._v_children
+            check_hdf5_errors(self.filename)
+        return group._f_list_nodes('Group')
+
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 59f5086..cfa0d80 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -225,9 +225,9 @@ class vldata(object):
 
 def check_hdf5_errors(hdf5name):
     """Raise if the last HDF5 call failed, PyTables ignores errors when
-    flushing and closing
+    flushing, closing and listing the children of a group
     """
-    error = tb.HDF5ExtError('Failed to write ' + hdf5name, h5bt=True)
+    error = tb.HDF5ExtError('Failed to access ' + hdf5name, h5bt=True)
     if error.h5backtrace:
         raise error
 
-- 
2.43.0


From f802213624798a8c63fa958f717b6d747ddf34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:38 +0000
Subject: [PATCH 23/36] fix: disconnected node results of models with unused
 nodes

---
 freesif/data/strucdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index e025dfe..cf4b760 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -570,7 +570,8 @@ class FirstLevelData(StrucData):
         # disconnect
         if disconnected:
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            if sets or kind:
+                indices = self._update_connectivity(indices)
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From 954772064c3288aceed03401d2a9b8dd879712c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 24/36] fix: refuse body number zero in hydrodynamic result
 queries

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 6a1c33b..b5a813c 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -101,7 +101,7 @@ class HydroData(SifData):
         """
 
         res = self._get_record(rec_name)
-        if bodyid:
+        if bodyid is not None:
             ibcond = self._get_ibcond(bodyid)
             # get all records for this ibcond
             res_recs = res.read_where('ibcond=={}'.format(ibcond))
-- 
2.43.0


From a77eb12154c7e87875639d42400423e1df77865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 25/36] fix: leave the arrays passed to the VTU writer
 unchanged

---
 freesif/utils/writers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..67ca06e 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -106,6 +106,8 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
+        # the arrays of the caller are not touched, now or later
+        cells = tuple(np.array(arr) for arr in cells)
         _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
 
@@ -146,6 +148,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        arr = np.array(arr)
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0


From 4dcae294630c903e7fb00441f4035ebf63b764c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:43 +0000
Subject: [PATCH 26/36] fix: refuse unsupported arrays before writing a VTU
 piece

---
 freesif/utils/writers.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 67ca06e..8421870 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -102,20 +102,24 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
-        self._close_data()
-        self._close_piece()
-        self._piece_open = True
-
         # the arrays of the caller are not touched, now or later
         cells = tuple(np.array(arr) for arr in cells)
         _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
 
+        types = typeidmapper(types)
+
+        # refuse unsupported arrays before anything is written
+        for arr in (points, connectivity, offsets, types):
+            self._get_arraytype(arr)
+
+        self._close_data()
+        self._close_piece()
+        self._piece_open = True
+
         # keep reference to offsets and types
         self._current_offsets = offsets
-        self._current_types = types
-
-        types = typeidmapper(types)
+        self._current_types = cells[2]
 
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
@@ -161,8 +165,9 @@ class VtuWriter(object):
         self._close_element('VTKFile')
         self._file.close()
 
-    def _write_array(self, arr, name, compnames=None):
-
+    def _get_arraytype(self, arr):
+        """Get vtk datatype name and number of components
+        """
         # accept 1d or 2d array
         if arr.ndim == 2:
             ncomps = arr.shape[1]
@@ -171,6 +176,12 @@ class VtuWriter(object):
         else:
             raise VtkError('array must be 1d or 2d')
 
+        return numpy2vtk_datatype[arr.dtype.name], ncomps
+
+    def _write_array(self, arr, name, compnames=None):
+
+        vtktype, ncomps = self._get_arraytype(arr)
+
         # create comp name kwargs
         if compnames:  # sequence of str
             compname_dict = {'ComponentName{}'.format(i): cn \
@@ -178,7 +189,6 @@ class VtuWriter(object):
         else:
             compname_dict = {}
 
-        vtktype = numpy2vtk_datatype[arr.dtype.name]
         self._open_element('DataArray', type=vtktype, Name=name,
                            NumberOfComponents=ncomps, format='binary',
                            **compname_dict)
-- 
2.43.0


From 5d76a92c6f2877575ea43eeadcc78ff2eec13392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:59 +0000
Subject: [PATCH 27/36] fix: write arrays of any byte order to VTU files as
 little-endian

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 8421870..898cf67 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -204,7 +204,8 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
-        arrstr = arr.ravel().tostring()
+        arr = arr.astype(arr.dtype.newbyteorder('<'), copy=False)
+        arrstr = arr.ravel().tobytes()
         self._file.write(b64encode(header + arrstr))
 
         # write newline
-- 
2.43.0


From 0a3e05262279f35be79e59dd966de06dae0dc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 28/36] fix: escape the names in VTU files

---
 freesif/utils/writers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 898cf67..79b7638 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,8 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+import re
+from xml.sax.saxutils import escape
 
 from ..exceptions import VtkError
 
@@ -40,6 +42,17 @@ numpy2vtk_datatype = {'int8'    : 'Int8',
                       'float32' : 'Float32',
                       'float64' : 'Float64'}
 
+# characters that XML does not allow, and those to escape in attribute values
+_illegal_xml = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd'
+                          '\U00010000-\U0010ffff]')
+_xml_entities = {'"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'}
+
+def _attribute_value(value):
+    value = str(value)
+    if _illegal_xml.search(value):
+        raise VtkError('{!r} has characters not allowed in XML'.format(value))
+    return escape(value, _xml_entities)
+
 def _reorder_data(data, offsets, types, indexarr_map):
     start = 0
     for stop, typ in zip(offsets, types):
@@ -241,7 +254,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s="%s"' % (str(k).encode(), _attribute_value(v).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From e0d1c118acd6a9eaa9e2200fb10a776d191feebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 29/36] fix: report a failed VTU file when it is closed, and
 release it

---
 freesif/utils/writers.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 79b7638..f9130da 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -100,6 +100,7 @@ class VtuWriter(object):
         """
         """
         self._file = open(filename, 'wb')
+        self._failed = False
         self._piece_open = False
         self._pointdata_open = False
         self._celldata_open = False
@@ -172,11 +173,24 @@ class VtuWriter(object):
 
 
     def close(self):
-        self._close_data()
-        self._close_piece()
-        self._close_element('UnstructuredGrid')
-        self._close_element('VTKFile')
-        self._file.close()
+        if self._file.closed:
+            return
+
+        try:
+            self._close_data()
+            self._close_piece()
+            self._close_element('UnstructuredGrid')
+            self._close_element('VTKFile')
+        finally:
+            self._file.close()
+
+    def _write(self, data):
+        # what follows a failed write would not be a valid file
+        if self._failed:
+            raise VtkError('The file is not complete, writing it failed')
+        self._failed = True
+        self._file.write(data)
+        self._failed = False
 
     def _get_arraytype(self, arr):
         """Get vtk datatype name and number of components
@@ -207,7 +221,7 @@ class VtuWriter(object):
                            **compname_dict)
 
         # write indent
-        self._file.write(b'  '*len(self._elements))
+        self._write(b'  '*len(self._elements))
 
         # write header
         nbytes = arr.size * arr.dtype.itemsize
@@ -219,10 +233,10 @@ class VtuWriter(object):
         header = pack('<Q', nbytes)
         arr = arr.astype(arr.dtype.newbyteorder('<'), copy=False)
         arrstr = arr.ravel().tobytes()
-        self._file.write(b64encode(header + arrstr))
+        self._write(b64encode(header + arrstr))
 
         # write newline
-        self._file.write(b'\n')
+        self._write(b'\n')
 
         self._close_element('DataArray')
 
@@ -261,14 +275,14 @@ class VtuWriter(object):
         else:
             s += b'>\n'
             self._elements.append(tag)
-        self._file.write(s)
+        self._write(s)
 
     def _close_element(self, tag):
         if not tag == self._elements.pop():
             raise VtkError('{} has no corresponding opening tag'.format(tag))
         s = b'  '*len(self._elements)
         s += b'</%s>\n' % tag.encode()
-        self._file.write(s)
+        self._write(s)
 
 
 
-- 
2.43.0


From 71d1652411458ba3156cbb93c78edcfe639b4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 30/36] fix: no error because another thread looked up a
 missing name

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index cfa0d80..aec532d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -228,7 +228,8 @@ def check_hdf5_errors(hdf5name):
     flushing, closing and listing the children of a group
     """
     error = tb.HDF5ExtError('Failed to access ' + hdf5name, h5bt=True)
-    if error.h5backtrace:
+    # the last call of another thread may be a lookup of a missing name
+    if error.h5backtrace and error.h5backtrace[-1][3] != "name doesn't exist":
         raise error
 
 
-- 
2.43.0


From 291e67077363303716e4b37e2d0243085a071a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 31/36] fix: do not take a dataset that cannot be read for an
 absent one

---
 freesif/data/file.py    |  3 ++-
 freesif/data/sifdata.py | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index c03605d..97e834c 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -109,6 +109,7 @@ class File(object):
         for gr in self._child_groups(self._tbfile.root):
 
             data = None
+            subgroups = self._child_groups(gr)
             datatype = gr._f_getattr('DATATYPE')
 
             if datatype == 'STRUCTURAL':
@@ -129,7 +130,7 @@ class File(object):
             self._data[gr._v_name] = data
 
             # loop over subgroups (intermediate or 1st level groups)
-            for subgr in self._child_groups(gr):
+            for subgr in subgroups:
                 self._child_groups(subgr)
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
diff --git a/freesif/data/sifdata.py b/freesif/data/sifdata.py
index 621a53c..de2aa8b 100644
--- a/freesif/data/sifdata.py
+++ b/freesif/data/sifdata.py
@@ -74,22 +74,38 @@ class SifData(object):
         self._check_isopen()
 
         # get main record
-        try:
-            rec = self._tbgroup._f_get_child(rec_name.lower())
-        except tb.NoSuchNodeError:
+        if rec_name.lower() not in self._tbgroup._v_children:
             raise NoSuchRecordError(
                 '"{}" does not have any "{}" records'.format(self.name,
                                                              rec_name.upper()))
+        rec = self._get_child(rec_name.lower())
         # get any associated arrays
         arr_atoms = atoms.get(rec_name.upper())
         if arr_atoms:
             arrs = []
             for name, atom, shape in arr_atoms:
                 arrname = '{}_{}'.format(rec_name.lower(), name)
-                arrs.append(self._tbgroup._f_get_child(arrname))
+                arrs.append(self._get_child(arrname))
             return (rec,) + tuple(arrs)
         return rec
 
+    def _get_child(self, name):
+        """Get a dataset of this group. PyTables takes a dataset it cannot read
+        for an absent or an unsupported one, and keeps it as such.
+        """
+        node = None
+        try:
+            node = self._tbgroup._f_get_child(name)
+        except tb.NoSuchNodeError:
+            pass
+        if isinstance(node, tb.UnImplemented):
+            node._f_close()
+            node = None
+        if node is None:
+            raise tb.HDF5ExtError(
+                '"{}" cannot be read from "{}"'.format(name, self.name))
+        return node
+
     def _get_varlendata(self, rec, arr, indices):
         """
         """
-- 
2.43.0


From f831bb8a099876f05cddd2c68e1c530e92085b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 32/36] fix: no stale references of a WDRESREF record without
 directions, frequencies or times

---
 freesif/sequentialparser/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index aec532d..f242d0c 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2060,6 +2060,8 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        for v in (dirs, freqs, times):  # not all of them are in each record
+            v.add(None)
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
-- 
2.43.0


From 181815ce0ce5b8592ecf26e9a770f42428b8316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 33/36] fix: refuse RDIELCOR records that cannot be decoded
 without RDPOINTS

---
 freesif/sequentialparser/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f242d0c..c0ef3d4 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1771,6 +1771,9 @@ def rdielcor_reader(rec_name, rec, in_file, out_file):
                 nlay, nok, noj, noi = 0, 1, 1, 3
             elif icoref == 24:  # Flat Quadrilateral Thin Shell
                 nlay, nok, noj, noi = 0, 2, 3, 3
+            else:
+                raise ValueError('no RDPOINTS data for RDIELCOR with '
+                                 'icoref={}'.format(icoref))
 
         # gamma
         if nok == 1:
-- 
2.43.0


From 1c566c73aba9641e588a2fda53293bbc40b666a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 34/36] fix: ignore append for in-memory conversions, as
 documented

---
 freesif/sequentialparser/sif2hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 0adee0f..642d851 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -176,7 +176,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         return
 
     # check append
-    if not hdf5name and append:
+    if append and not hdf5name and not in_memory:
         raise ValueError('Cannot append unless a hdf5name is provided.')
 
     opened = []  # (file, groups on it before the conversion) of all files
-- 
2.43.0


From 12dec30f72a77ee4d8949f29bc0165abb1ea6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 35/36] fix: a conversion raises when an attribute of a new
 dataset cannot be written

---
 freesif/sequentialparser/parsers.py | 34 +++++++++++++++++++----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index c0ef3d4..96c8a51 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -233,6 +233,18 @@ def check_hdf5_errors(hdf5name):
         raise error
 
 
+def created(node):
+    """Raise if a new dataset has not got its attributes, PyTables ignores
+    errors when writing them
+    """
+    needed = {'CLASS', 'VERSION', 'TITLE'}
+    if isinstance(node, tb.EArray):
+        needed.add('EXTDIM')
+    if not needed.issubset(node._v_attrs._v_attrnamessys):
+        raise tb.HDF5ExtError('Failed to create ' + node._v_pathname)
+    return node
+
+
 def flush(table):
     table.flush()
     check_hdf5_errors(table._v_file.filename)
@@ -333,10 +345,10 @@ def get_table(rec_name, out_file):
                 # create EArray
                 shape = (0,) + shape
                 arrname = '{}_{}'.format(rec_name.lower(), name)
-                vlarrs.append(out_file.create_earray(where, arrname, atom,
-                                                     shape=shape,
-                                                     createparents=True,
-                                                     expectedrows=nrecs))
+                vlarrs.append(created(
+                    out_file.create_earray(where, arrname, atom, shape=shape,
+                                           createparents=True,
+                                           expectedrows=nrecs)))
 
                 # add start ond stop columns to table descriptor
                 newdescriptor.columns[name + '_start'] = tb.Int32Col(pos=pos)
@@ -344,18 +356,16 @@ def get_table(rec_name, out_file):
                 newdescriptor.columns[name + '_stop'] = tb.Int32Col(pos=pos)
                 pos += 1
 
-            table = out_file.create_table(where, rec_name.lower(),
-                                          newdescriptor,
-                                          createparents=True,
-                                          expectedrows=nrecs)
+            table = created(
+                out_file.create_table(where, rec_name.lower(), newdescriptor,
+                                      createparents=True, expectedrows=nrecs))
 
             tables[rec_name] = (table,) + tuple(vlarrs)
 
         else:
-            tables[rec_name] = out_file.create_table(where, rec_name.lower(),
-                                                     descriptor,
-                                                     createparents=True,
-                                                     expectedrows=nrecs)
+            tables[rec_name] = created(
+                out_file.create_table(where, rec_name.lower(), descriptor,
+                                      createparents=True, expectedrows=nrecs))
 
         return tables[rec_name]
 
-- 
2.43.0


From fc32dc86c76786606751145b05ca8c640b9c3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 36/36] fix: refuse SCONMESH records with several
 representations wherever they are

---
 freesif/sequentialparser/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 96c8a51..d94df59 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1365,16 +1365,16 @@ atoms['SCONMESH'] = [('irferep', tb.Int32Atom(), ())]
 def sconmesh_reader(rec_name, rec, in_file, out_file):
     """..."""
 
-    # assume numrep is allways 1. Throw NotImplementedError if above 1
-    if int(rec[2]) > 1:
-        raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
-
     table, irferep_arr = get_table(rec_name, out_file)
     irfereps = vldata(irferep_arr)
     recs = recdata(table, irfereps)
 
     while rec_name == 'SCONMESH':
 
+        # assume numrep is allways 1. Throw NotImplementedError if above 1
+        if int(rec[2]) > 1:
+            raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
+
         rec += in_file.read_floats(1)
 
         nferep = int(rec[4])
-- 
2.43.0

