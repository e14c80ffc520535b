From 7c57e1dd459db0ff3ec23349d0eb079689f0da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 01/61] fix: readItemsFromUnknownLines over-reads short first
 lines, fails on zero items and loops for ever at end of file

---
 nappy/utils/text_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..efff007 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -68,7 +68,8 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     """
 
     rtitems = []
-    lines = []        
+    lines = []
+    extras = []
 
     if type(object) == type([2,3]): 
 
@@ -77,13 +78,18 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            needed = nitems - len(rtitems)
+            (rtitems, extras) = (rtitems + items[:needed], items[needed:])
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextline = object.readline()
+            if nextline == "":
+                raise Exception("End of file reached when only " + str(len(rtitems)) + " of " + str(nitems) + " items had been read.")
+            items = rightStripCurlyBraces(nextline).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            needed = nitems - len(rtitems)
+            (rtitems, extras) = (rtitems + items[:needed], items[needed:])
 
     if len(extras) > 0:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
-- 
2.43.0


From d107177a8bcae4b31b7418cbdb343f457a2c324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 02/61] fix: writing FFI 2010/2110/2160/2310 reverses the
 caller's lists (and swaps dimensions with no_header)

---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..4c572f2 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -56,10 +56,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -133,7 +133,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..a26603b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From cdf7e179b754d00775a131d88fd562e132bf4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 03/61] fix: reading FFI 2310 appends a truncated copy of an
 auxiliary value to DX

---
 nappy/na_file/na_file_2310.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a26603b..0303482 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -72,7 +72,6 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From dd5c4d49cfff0c40994ef5cdc38f32bfd427bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 04/61] fix: FFI 2310 writer interleaves variables that the
 format (and reader) store one after another

---
 nappy/na_file/na_file_2310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 0303482..eb2981b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -108,7 +108,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write second independant variable and dependant variables
             var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            for n in range(self.NV):
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From db7f59edc173f828a66ae830ba579ed3611856b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 05/61] fix: FFI 2010/3010/4010 reader takes coordinate counts
 in the wrong order when NXDEF differs

---
 nappy/na_file/na_file_2010.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4c572f2..506e6de 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -41,7 +41,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
         for i in range(self.NIV - 1):
-            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
+            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[-1 - i], float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
         self.X.insert(0, [])
-- 
2.43.0


From 089889706461c3ef06e115892cc181a52c994e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 06/61] fix: writing an empty header text line crashes in
 stripQuotes

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From f8497ee0c82c9fd9b75dc2e13aabbe51c638a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 07/61] fix: FFI 1020 zero DX is never rejected (list compared
 with 0, string raised)

---
 nappy/na_file/na_file_1020.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index e338e2b..ce5394a 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -33,8 +33,8 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         self._normalized_X = False
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV, float)
-        if self.DX == 0:
-            raise "DX found to be zero (0). Not allowed for FFI 1020."
+        if self.DX[0] == 0:
+            raise Exception("DX found to be zero (0). Not allowed for FFI 1020.")
 
         self.NVPM = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
-- 
2.43.0


From 8c2b8ea79ed3b6231c834669fd47ace120395307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 08/61] fix: FFI 1020 expansion of implied independent variable
 indexes wrong list

---
 nappy/na_file/na_file_1020.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_1020.py b/nappy/na_file/na_file_1020.py
index ce5394a..9ca5285 100644
--- a/nappy/na_file/na_file_1020.py
+++ b/nappy/na_file/na_file_1020.py
@@ -76,11 +76,11 @@ class NAFile1020(nappy.na_file.na_file_1010.NAFile1010):
         """
         if self._normalized_X: return
         newX = []
-        for x in self.X[0]:
+        for x in self.X:
             for i in range(self.NVPM):
-                newX.append(x + (i * self.DX))
+                newX.append(x + (i * self.DX[0]))
 
-        self.X[0] = newX
+        self.X = newX
         self._normalized_X = True
 
     def writeData(self):										
-- 
2.43.0


From f3a82a7cca048c6aa404a7d95f8c3ec0a6fd78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 09/61] fix: unknown file mode raises a string

---
 nappy/na_file/na_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..b478467 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -75,7 +75,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             # Self flag to check if data written
             self.data_written = False
         else:
-            raise "Unknown file mode '%s'." % self.mode
+            raise Exception("Unknown file mode '%s'." % self.mode)
 
     def __enter__(self):
         return self
-- 
2.43.0


From c9495dcb52ec4dada6b085362ccab913124d1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 10/61] fix: choosing a format fails for a 2-D dictionary with
 a single unbounded coordinate

---
 nappy/utils/common_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..607dcb9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -68,6 +68,9 @@ def chooseFFI(na_dict):
         if type(d["X"][0][0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
+        elif len(d["X"][0]) == 1:
+            # 2010 - Straightforward 2-D variables with a single unbounded coordinate
+            return 2010
         elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
             # 2110 - one independent variable changes length and the values are specified
             return 2110
-- 
2.43.0


From 13c935603f53d5f0ea22846657c626069bd88072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 11/61] fix: variables with the same NASA Ames number overwrite
 each other and order is ignored

---
 nappy/nc_interface/na_content_collector.py | 27 ++++++++--------------
 nappy/nc_interface/xarray_to_na.py         | 25 ++++++++------------
 2 files changed, 19 insertions(+), 33 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..c34b4e2 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -246,41 +246,34 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         (vars_for_na, aux_vars_for_na).
         """
         # First do the main variables
-        ordered_vars = [None] * 1000 # Make a long list to put vars in 
+        ordered_vars = []
 
         # Create a list of other variables to collect up any that are not labelled as nasa ames variables
         other_vars = []
         for var in vars_for_na:
             if hasattr(var, "nasa_ames_var_number"):
-                ordered_vars[var.nasa_ames_var_number] = var
+                ordered_vars.append(var)
             else:
                 other_vars.append(var)
 
-        # Remake vars_for_na now in new order and clean out any that are "None"
-        vars_for_na = []
-        for var in ordered_vars:
-            if var is not None: 
-                vars_for_na.append(var)
-
-        vars_for_na = vars_for_na + other_vars
+        # Remake vars_for_na now in new order (numbers may be repeated if variables came from
+        # different files)
+        ordered_vars.sort(key=lambda var: int(var.nasa_ames_var_number))
+        vars_for_na = ordered_vars + other_vars
 
         # Now re-order the Auxiliary variables if they previously came from NASA 
-        ordered_aux_vars = [None] * 1000
+        ordered_aux_vars = []
         other_aux_vars = []
 
         for var in aux_vars_for_na:
             if hasattr(var, "nasa_ames_aux_var_number"):
-                ordered_aux_vars[var.nasa_ames_aux_var_number] = var
+                ordered_aux_vars.append(var)
             else:
                 other_aux_vars.append(var)
 
         # Remake aux_vars_for_na now in order
-        aux_vars_for_na = []
-        for var in ordered_aux_vars:
-            if type(var) != type(None): 
-                aux_vars_for_na.append(var)
-
-        aux_vars_for_na = aux_vars_for_na + other_aux_vars
+        ordered_aux_vars.sort(key=lambda var: int(var.nasa_ames_aux_var_number))
+        aux_vars_for_na = ordered_aux_vars + other_aux_vars
         return (vars_for_na, aux_vars_for_na)
 
     def _decideFileFormatIndex(self, number_of_dims, aux_vars_for_na, ffis_limited=False):
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..853e8ef 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -159,12 +159,11 @@ class XarrayToNA:
         Returns a reordered list of variables. Any that have the attribute 
         "nasa_ames_var_number" get ordered first in the list (according to numbering).
         """
-        # Set up a long list (longer than number of vars)
         if len(variables) > var_limit:
-            raise Exception("Can only handle converting less than " + var_limit + " variables in any batch.")
+            raise Exception(f"Can only handle converting less than {var_limit} variables in any batch.")
 
         # Collect up those that are ordered and unordered
-        ordered_vars = [None] * var_limit
+        ordered_vars = []
         unordered_vars = []
 
         # Collect up the dimensions (coordinate variables) that can be excluded when writing to NA
@@ -179,21 +178,15 @@ class XarrayToNA:
 
             var_metadata = var.attrs
 
-            if hasattr(var_metadata, "nasa_ames_var_number"):
-                num = var_metadata.nasa_ames_var_number
-                ordered_vars[num] = var
+            if "nasa_ames_var_number" in var_metadata:
+                ordered_vars.append(var)
             else:
                 unordered_vars.append(var)
-    
-        ret_variables = []
-
-        # Clear any None values in ordered_vars and place in final vars list
-        for var in ordered_vars + unordered_vars:
-            # Test for Real var types
-            if var is not None: 
-                ret_variables.append(var)
-	     
-        return ret_variables
+
+        # Two variables may have the same number if they came from different files: keep both
+        ordered_vars.sort(key=lambda var: int(var.attrs["nasa_ames_var_number"]))
+
+        return ordered_vars + unordered_vars
 
     def constructNAFileNames(self, na_file=None):
         """
-- 
2.43.0


From 8e0ea0dfb8839ab5486769fb9d68337099924732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 12/61] fix: axes that agree in one value are taken for
 identical

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..0be07e6 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -141,7 +141,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From d01e37de1ca5bf39dff04c01fb6873cac6f591fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 13/61] fix: variable on a regular subset of the main axis is
 lost

---
 nappy/nc_interface/na_content_collector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index c34b4e2..961f359 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -200,8 +200,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         if nvpm:
                             ffis_limited = [1020]
                             self.na_dict["NVPM"] = nvpm
-                        else: # if returned False, i.e. not regular subset axis
-                            self.unused_vars.append(var)
+
+                        # It is not part of this file so leave it for another one
+                        self.unused_vars.append(var)
 
                     else:
                         self.unused_vars.append(var)
-- 
2.43.0


From b427a8f3a808261e26aa712fed7cc9e0bb11e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 14/61] fix: singleton variables are left out when there are
 special comments or no variable attributes

---
 nappy/nc_interface/na_content_collector.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 961f359..bcfd243 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -676,6 +676,15 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             rank_zero_vars_string.insert(0, hp["sing_start"])
             rank_zero_vars_string.append(hp["sing_end"])
 
+            # Singleton variables are only written here, so must appear whatever else there is
+            if spec_comm_flag is None:
+                SCOM = [hp["sc_start"]]
+                spec_comm_flag = 1
+
+            SCOM.extend(rank_zero_vars_string)
+
+        addl_vatts_used = False
+
         # Loop through variables and add 
         for var in self.ordered_vars:
             varflag = "unused"
@@ -693,11 +702,14 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                             var_comm_flag = 1
 
                     if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
+                        SCOM = [hp["sc_start"]]
+                        spec_comm_flag = 1
+
+                    if not addl_vatts_used:
                         SCOM.append(hp["addl_vatts"])
                         SCOM.append(hp["ncatts_start"])
                         varflag = "using" 
-                        spec_comm_flag = 1
+                        addl_vatts_used = True
 
                     if not var_name_written:
                         SCOM.append("  Variable %s: %s" % (var.name, name))
-- 
2.43.0


From 54fd9bf8bd41f88af6688ab2c36eeff6dfcfefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 15/61] fix: files split on size limit are listed twice

---
 nappy/nc_interface/xarray_to_na.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 853e8ef..1b10879 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -395,7 +395,6 @@ class XarrayToNA:
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
             file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
-            file_names.append(file_name_plus_letter)
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-- 
2.43.0


From 9dd7d1deb9ca115234f57b629ac70cc996219891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 16/61] fix: no_header is ignored when files are split on size
 limit

---
 nappy/nc_interface/xarray_to_na.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 1b10879..8e6d65f 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -306,7 +306,7 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -358,7 +358,7 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
@@ -398,7 +398,8 @@ class XarrayToNA:
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format,
+                    no_header=no_header, annotation=annotation)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
-- 
2.43.0


From 49729c04b1a49929c70ca8fd4b6c36f8ae1cc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 17/61] fix: undefined name when a local NetCDF attribute is
 not in the mapping

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index bcfd243..4780056 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -516,7 +516,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for att, value in local_nc_atts.items():
             if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
-- 
2.43.0


From 53b3c434f635312f504c1361783444787a798837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 18/61] fix: global attribute file_format_index replaces the
 FFI chosen for the variables

---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 4780056..20653ea 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -595,6 +595,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 elif key == "first_valid_date_of_data":
                     self.na_dict["DATE"] = value
 
+                elif key == "file_format_index":
+                    # The FFI was chosen to suit the variables being written: keep it
+                    pass
+
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
                 else:
-- 
2.43.0


From 67a43e193121b0b6f3d43f5bfe998e96eac7f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 19/61] fix: convertNAToCSV ignores no_header

---
 nappy/nappy_api.py | 860 ++++++++++++++++++++++-----------------------
 1 file changed, 430 insertions(+), 430 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..a935d0d 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,430 +1,430 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+        arg_dict["na_file"] = csv_file
+        arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_file
+    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
+    import nappy.na_file.na_core
+    na_file_obj = nappy.na_file.na_core.NACore()
+    na_file_obj.setNADict(na_dict)
+
+    # Fake up some required methods
+    def fakeCaller():pass
+    na_file_obj.readData = fakeCaller
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Now write them out
+    import xarray as xr
+
+    fout = xr.open_dataset(nc_file, mode=mode)
+    for var in (xr_primary_vars + xr_aux_vars):
+        fout.write(var)
+
+    # Write global attributes
+    for (att, value) in global_attributes:
+        setattr(fout, att, value)
+        
+    fout.close()
+    log.info("NetCDF file '%s' written successfully." % file_name)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
-- 
2.43.0


From 57743ea9ae173eb376309d236f87b039e9e88cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 20/61] fix: convertNCToCSV ignores the file name it is given
 and then does not write CSV

---
 nappy/nappy_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index a935d0d..7717de9 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -302,8 +302,9 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
   
     return convertNCToNA(*[nc_file], **arg_dict)
     
-- 
2.43.0


From 96d0368667aef92a1ec6cee2adea6708c6354756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 21/61] fix: convertXarrayObjectsToNA imports a module that
 does not exist

---
 nappy/nappy_api.py                            | 4 ++--
 nappy/nc_interface/xarray_objs_to_na_files.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 7717de9..96f1eb7 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,8 +338,8 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
diff --git a/nappy/nc_interface/xarray_objs_to_na_files.py b/nappy/nc_interface/xarray_objs_to_na_files.py
index 2197c76..dc478b3 100644
--- a/nappy/nc_interface/xarray_objs_to_na_files.py
+++ b/nappy/nc_interface/xarray_objs_to_na_files.py
@@ -54,5 +54,6 @@ class XarrayObjectsToNAFile(nappy.nc_interface.nc_to_na.NCToNA):
         self.requested_ffi = requested_ffi
 
         self.converted = False
+        self.na_dict_list = []
         self.output_message = []
 
-- 
2.43.0


From a4be048615e46c317955a2f5cdc19eb5eef128b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 22/61] fix: convertXarrayObjectsToNA ignores size_limit

---
 nappy/nappy_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 96f1eb7..98071a2 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -345,7 +345,7 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
-- 
2.43.0


From e61eecf96ec0a25bbd9ced37722c2d8197994654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 23/61] fix: option -l of nc2na and nc2csv is not recognised

---
 nappy/script/nc2csv.py | 2 +-
 nappy/script/nc2na.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..f6ec60e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From f71cf7e7105278770bf11543adf42d4f801f426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 24/61] fix: installed nc2csv command does not write CSV

---
 nappy/script/nc2csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index f6ec60e..a0ec6c4 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -124,7 +124,8 @@ def nc2csv(args=None):
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+    arg_dict["csv_file"] = arg_dict.pop("na_file")
+    csv_files = nappy.convertNCToCSV(**arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
-- 
2.43.0


From e22815ed6e7ede475bcab57d65ef65db09f7bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 25/61] fix: compareNA uses apply which does not exist in
 Python 3

---
 nappy/utils/compare_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..0507ca3 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -63,7 +63,7 @@ def compareNA(i1, i2, **kwargs):
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
         compDirs(i1, i2)
     else:
@@ -251,7 +251,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(*files, **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From 1cf6d3f5c384d51f8a51a4b4ab09a15c6a6fe036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 26/61] fix: approximate comparison takes any two numbers for
 equal

---
 nappy/utils/compare_na.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 0507ca3..3d19dae 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -121,14 +121,9 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
 
                     if a != b:
                         
-                        if approx_equal:
+                        if approx_equal and isinstance(a, float) and isinstance(b, float):
                         # Check to see if testing for approximate equality
-                            if a == 0:  a = 0.000000001
-                            if b == 0:  b = 0.000000001
-                            divided = a/b
-                            if divided < 1:
-                                divided = b/a
-                            if (1 - divided) > equality_threshold:
+                            if abs(a - b) > equality_threshold * max(abs(a), abs(b)):
                                 same = False
                                 break  
                         else: 
-- 
2.43.0


From d4d13bd0349e9465cc336f792b6140d51db627e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 27/61] fix: is_level is true for any value of positive

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 0be07e6..7279824 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -214,7 +214,7 @@ def is_level(coord):
         return True
 
     if hasattr(coord, "positive"):
-        if coord.attrs.get("positive", None) == "up" or "down":
+        if coord.attrs.get("positive", None) in ("up", "down"):
             return True
 
     if hasattr(coord, "axis"):
-- 
2.43.0


From 705c258be62ac4074ee26408729e51f377e37d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 28/61] fix: new extension is appended instead of replacing the
 old one

---
 nappy/utils/common_utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 607dcb9..33055f5 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -12,6 +12,7 @@ Functions and classes commonly used in nappy.
 
 # Standard library imports
 from io import StringIO
+import os
 import logging
 
 # Imports from local package
@@ -101,12 +102,9 @@ def getFileNameWithNewExtension(input_file, format):
     (i) replacing initial extension if there is one, OR
     (ii) just appending new extension.
     """
-    base_name = input_file
-    last_four = base_name[-4:]
-    found = last_four.find(".")
-    if found > -1:
-        idx = len(base_name) + found
-        base_name = base_name[:idx]
+    base_name, extension = os.path.splitext(input_file)
+    if len(extension) > 4:
+        base_name = input_file
     return base_name + "." + format
 
 
-- 
2.43.0


From bddfaf0dd00544103772035131942cf41fe0d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 29/61] fix: message for an unsupported FFI cannot be built

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..2c7e8b3 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -89,7 +89,7 @@ class NADictToXarrayObjects:
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
             raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
+                             str(self.na_file_obj.FFI) + 
                              " to Xarray objects. No mapping implemented yet."))
 
         self.output_message = []  # for output displaying message
-- 
2.43.0


From 7c06ab4ac318d2adf28f565ec7efa285405054cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 30/61] fix: unknown auxiliary variable names are silently
 ignored

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 2c7e8b3..c8f9aaa 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -315,8 +315,8 @@ class NADictToXarrayObjects:
                     if avar_name in self.na_file_obj.ANAME:
                         avar_number = self.na_file_obj.ANAME.index(avar_name)
                         self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                    else:
+                        raise Exception("Auxiliary variable name not known: " + avar_name)        
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From a8bcf197b7a5b1ebf091d3fa3d5488f463c0b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 31/61] fix: missing values are multiplied by the scale factor

---
 nappy/nc_interface/na_to_xarray.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index c8f9aaa..4a3b955 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -258,10 +258,8 @@ class NADictToXarrayObjects:
 
         array = np.array(self.na_file_obj.V[var_number])
 
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        # The missing value marks a value as absent: it is not a value to be scaled
+        array = np.where(array == miss, array, array * scal)
 
         # Set up axes
         if not hasattr(self, 'xr_axes'):
@@ -327,10 +325,8 @@ class NADictToXarrayObjects:
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
         array = np.array(self.na_file_obj.A[avar_number])
-        if miss:
-            array = np.ma.masked_array(array, fill_value=miss)
-
-        array = array * scal
+        # The missing value marks a value as absent: it is not a value to be scaled
+        array = np.where(array == miss, array, array * scal)
 
         msg="\nAdding auxiliary variable: %s" % self.na_file_obj.ANAME[avar_number]
         log.debug(msg)
-- 
2.43.0


From 86268329aabc6ce97712f37099f81e6836785523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 32/61] fix: mode is ignored when writing NetCDF

---
 nappy/nc_interface/na_to_nc.py | 224 ++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 112 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..078805a 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,112 +1,112 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {da.name: da for da in combined_var_list}
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From 5e21ea332c6ce022f25364ab3b32c60f3b9c3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 33/61] fix: NASA Ames variables with the same name overwrite
 each other in NetCDF

---
 nappy/nc_interface/na_to_nc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 078805a..eb9a90f 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -101,7 +101,18 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         [self.fix_attrs(v) for v in combined_var_list]
 
         # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
+        variables = {}
+
+        for da in combined_var_list:
+            name, count = da.name, 1
+
+            # Do not lose a variable that has the same name as another
+            while name in variables:
+                count += 1
+                name = f"{da.name}_{count}"
+
+            variables[name] = da
+
         ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
         self.fix_attrs(ds)
 
-- 
2.43.0


From a18441cd523fb86c6e80468e0d692311b33b3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 34/61] fix: files whose bodies differ in length compare as the
 same

---
 nappy/utils/compare_na.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 3d19dae..0e06f52 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -197,6 +197,7 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
         if same:
             print("BODIES ARE IDENTICAL.")
         if len(body1) != len(body2):
+            same = False
             print("Body lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(body1), f2, len(body2)))
        
     return same
-- 
2.43.0


From 4443aa938d4eb9b657d944b7b0679a554a1fddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 35/61] fix: write VMISS and AMISS with the format used for the
 data, so missing values still match

---
 nappy/na_file/na_file.py      | 5 +++--
 nappy/na_file/na_file_2160.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index b478467..97a0910 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -229,7 +229,8 @@ class NAFile(nappy.na_file.na_core.NACore):
         """
         self.header.write(wrapLine("NV", self.annotation, self.delimiter, "%d\n" % self.NV))
         self.header.write(wrapLine("VSCAL", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VSCAL)))
-        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NV - 1) + "%s\n") % tuple(self.VMISS)))
+        # Missing values are formatted as they are in the data section, so that they match when read
+        self.header.write(wrapLine("VMISS", self.annotation, self.delimiter, (self.format * (self.NV - 1) + self.float_format + "\n") % tuple(self.VMISS)))
         self.header.write(wrapLines("VNAME", self.annotation, self.delimiter, "%s\n" * self.NV % tuple(self.VNAME)))
 
     def _readAuxVariablesHeaderSection(self):
@@ -252,7 +253,7 @@ class NAFile(nappy.na_file.na_core.NACore):
         if self.NAUXV > 0:
             line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - 1) + "%s\n")  % tuple(self.AMISS)
+            line = (self.format * (self.NAUXV - 1) + self.float_format + "\n")  % tuple(self.AMISS)
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..3e07241 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -72,7 +72,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         if self.NAUXV > 0:
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.ASCAL)
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
+            line = (self.format * (self.NAUXV - self.NAUXC - 1) + self.float_format + "\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
             self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
-- 
2.43.0


From 548a192e23d0c644fb32e92bcaec5fdb238cf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 36/61] fix: give axis values to the writer as plain numbers,
 so time axes and any float_format can be written

---
 nappy/nc_interface/na_content_collector.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 20653ea..b302c0b 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -393,9 +393,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    for i in xarray_utils.getArrayAsList(self.ax0):
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -416,10 +416,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
                     incr = xarray_utils.get_interval(ax2_values, 0, 1)
 
-                    for i in self.ax0[:]:
+                    for i in xarray_utils.getArrayAsList(self.ax0):
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
@@ -475,7 +475,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         items associated with an axis (independent variable in 
         NASA Ames). It appends to the various self.na_dict containers.
         """
-        length = len(axis)
+        values = xarray_utils.getArrayAsList(axis)
+        length = len(values)
 
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
@@ -484,16 +485,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = xarray_utils.get_interval(values, 0, 1)
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if xarray_utils.get_interval(values, i - 1, i) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -503,7 +504,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From 29ad6f6f67dcd93e71d4a02a3dddceaa8a9c9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 37/61] fix: read the time units from the time axis itself,
 whatever it is called

---
 nappy/nc_interface/xarray_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 7279824..62ad571 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,8 +286,8 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
+    units = da.encoding['units']
+    calendar = da.encoding.get('calendar', 'standard')
     arr = cftime.date2num(da.data, units, calendar=calendar)
     return arr
 
-- 
2.43.0


From 6e84f18aed465486af53844485f53c3af0613d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 38/61] fix: take DATE from the first time in the calendar of
 the time axis

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index b302c0b..d559bee 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -779,6 +779,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             # Get first date in list
             try:
                 units = self.ax0.encoding["units"]
+                calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
@@ -786,7 +787,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     first_day = first_day[0]
 
                 self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                    [getattr(cftime.num2date(first_day, units, calendar=calendar), attr) for attr in ('year', 'month', 'day')]                
             except Exception:
                 msg = warning_message
                 log.info(msg)
-- 
2.43.0


From 963c173ef7bca1be5b9ddb3ee3ef1854b358a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 39/61] fix: do not drop a variable that has the name of a
 singleton variable

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index d559bee..7379663 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -179,7 +179,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for var in rest_of_the_vars:
 
-            if var.name in self.rank_zero_var_ids: continue
+            if len(var.shape) == 0: continue
 
             # What to do with variables that have different number of dimensions or different shape
             if len(var.shape) != number_of_dims or var.shape != shape: 
-- 
2.43.0


From 99e2c3dad5e7b7f4a3216d511989ebeeac5a534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 40/61] fix: consider FFI 1020 for one-dimensional variables
 only

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 7379663..f12b793 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -197,7 +197,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
 
                         # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
+                        if nvpm and number_of_dims == 1:
                             ffis_limited = [1020]
                             self.na_dict["NVPM"] = nvpm
 
-- 
2.43.0


From 60f4923580a1a6ad2e1a3d01607c0ce0554f91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 41/61] fix: keep the extension of the requested file name when
 splitting on size_limit

---
 nappy/nc_interface/xarray_to_na.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 8e6d65f..94d9bab 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -394,7 +395,8 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
+            base_name, extension = os.path.splitext(file_name)
+            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-- 
2.43.0


From 1f116cf32a0a15a668dd87b14eae60bf16eca2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 42/61] fix: number output files before their extension only

---
 nappy/nc_interface/xarray_to_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 94d9bab..73be0b0 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -205,7 +205,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        base_name, extension = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -215,7 +215,7 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
+                new_name = base_name + suffix + extension
                 file_names.append(new_name)
 	    
         return file_names
-- 
2.43.0


From b9a72b70f65a74b56073dda28d86723ce55679ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 43/61] fix: select variables by name also when a name begins
 with a digit

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 4a3b955..c95d345 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -226,7 +226,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            if isinstance(self.variables[0], int) or re.match(r"\d+$", str(self.variables[0])):
 
                 for var_number in self.variables:
                     vn = int(var_number)
-- 
2.43.0


From ed34f85ebad770f6f2afcd0a9bb68579bd8bfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 44/61] fix: rename auxiliary variables whatever the case of
 their name

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index c95d345..c8f9265 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -350,8 +350,8 @@ class NADictToXarrayObjects:
             var_name = f"naAuxVariable_{avar_number}"
 
         # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+        if var_name.lower() in self.rename_variables.keys():
+            var_name = self.rename_variables[var_name.lower()]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
-- 
2.43.0


From 9e607b3662efcaf069135a5cbdd15efb4d7e3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 45/61] fix: keep empty text attributes as text when writing
 NetCDF

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index eb9a90f..211ddbd 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -73,7 +73,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
 
         value = dct.get(key)
 
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
             dct[key] = [to_np_int(v) for v in value]
         elif isinstance(value, int):
             dct[key] = to_np_int(value)
-- 
2.43.0


From 1347c305bee2e306aded13b5af7fab9119be59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 46/61] fix: give auxiliary variables of FFI 1020 an axis of
 their own in xarray and NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index c8f9265..5526f96 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -336,8 +336,16 @@ class NADictToXarrayObjects:
         if not hasattr(self, 'xr_axes'):
             self._convertXarrayAxes()
 
+        coords = self.xr_axes[:1]
+
+        # FFI 1020 gives one auxiliary value for each record of NVPM values
+        if self.na_file_obj.FFI == 1020:
+            axis = coords[0][::self.na_file_obj.NVPM]
+            record_name = f"{axis.name}_record"
+            coords = [axis.rename({axis.dims[0]: record_name}).rename(record_name)]
+
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=coords,
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
-- 
2.43.0


From 93da1e24a1f49e6702e232f961d4c6e700e8b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 47/61] fix: keep a title or source attribute of several lines
 on its line of the header

---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index f12b793..dd5a171 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -603,6 +603,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
                 else:
+                    # Each header item takes one line
+                    if isinstance(value, str):
+                        value = value.replace("\n", "  ")
+
                     self.na_dict[local_nc_to_na_map[key]] = value
             else:
                 self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From 1b7a22a283a322dabbf93ab707ec42da100c7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 48/61] fix: keep numeric global attributes that were read from
 NetCDF

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index dd5a171..45e5f9e 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -523,7 +523,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for key, value in self.globals.items():
             if key != "first_valid_date_of_data" and \
-                    type(value) not in (str, int, float):
+                    not isinstance(value, (str, int, float, np.number)):
                 continue
 
             # Loop through keys of header/comment items to map
-- 
2.43.0


From fbb87a807ecf6b8a24a0c51810c810d71c09ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 49/61] fix: accept comments given as a string, and dates and
 names given as a list, as overriding metadata

---
 nappy/nc_interface/xarray_to_na.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 73be0b0..f5645e4 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -267,12 +267,17 @@ class XarrayToNA:
             for key in overriders:
 
                 if key in permitted_overwrite_metadata:    
+                    new_item = overriders[key]
+
                     if key in items_as_lists:
-                        new_item = overriders[key].split()		   
+                        # These may be given as one string or as a list
+                        new_item = new_item.split() if isinstance(new_item, str) else list(new_item)
                         if key in ("DATE", "RDATE"):
                             new_item = [int(list_item) for list_item in new_item]
-                    else:
-                        new_item = overriders[key]
+
+                    # A comment given as a string is one comment line for each of its lines
+                    elif key in ("SCOM", "NCOM") and isinstance(new_item, str):
+                        new_item = new_item.split("\n")
 
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
-- 
2.43.0


From b46cfa46d7b2c718de064d6a784e3546497c8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 50/61] fix: restore the line endings of nappy_api.py, changed
 by an earlier repair

---
 nappy/nappy_api.py | 862 ++++++++++++++++++++++-----------------------
 1 file changed, 431 insertions(+), 431 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 98071a2..f2daf2a 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,431 +1,431 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-
-    arg_dict["na_file"] = csv_file
-    arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_files
-    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
+    import nappy.na_file.na_core
+    na_file_obj = nappy.na_file.na_core.NACore()
+    na_file_obj.setNADict(na_dict)
+
+    # Fake up some required methods
+    def fakeCaller():pass
+    na_file_obj.readData = fakeCaller
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Now write them out
+    import xarray as xr
+
+    fout = xr.open_dataset(nc_file, mode=mode)
+    for var in (xr_primary_vars + xr_aux_vars):
+        fout.write(var)
+
+    # Write global attributes
+    for (att, value) in global_attributes:
+        setattr(fout, att, value)
+        
+    fout.close()
+    log.info("NetCDF file '%s' written successfully." % file_name)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
-- 
2.43.0


From 62b24754f6b786d35f83980052be1a7799986fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 51/61] fix: restore the line endings of na_to_nc.py, changed
 by an earlier repair

---
 nappy/nc_interface/na_to_nc.py | 246 ++++++++++++++++-----------------
 1 file changed, 123 insertions(+), 123 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 211ddbd..8151cd5 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,123 +1,123 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {}
-
-        for da in combined_var_list:
-            name, count = da.name, 1
-
-            # Do not lose a variable that has the same name as another
-            while name in variables:
-                count += 1
-                name = f"{da.name}_{count}"
-
-            variables[name] = da
-
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name, mode=mode)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {}
+
+        for da in combined_var_list:
+            name, count = da.name, 1
+
+            # Do not lose a variable that has the same name as another
+            while name in variables:
+                count += 1
+                name = f"{da.name}_{count}"
+
+            variables[name] = da
+
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From 329b3632c7bdc2081d8f26f9724f94fd8f33e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 52/61] fix: listOfListsCreator uses an undefined name

---
 nappy/utils/list_manipulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/list_manipulator.py b/nappy/utils/list_manipulator.py
index 9cb1a4f..06d761f 100644
--- a/nappy/utils/list_manipulator.py
+++ b/nappy/utils/list_manipulator.py
@@ -43,7 +43,7 @@ def listOfListsCreator(inlist, dimlist):
     if len(dimlist[1:]) > 0:
         for i in range(dimlist[0]):
             inlist.append([])
-            listOfListsCreator(inlist[i], array, dimlist[1:])
+            listOfListsCreator(inlist[i], dimlist[1:])
     return inlist
 
 
-- 
2.43.0


From 2a19ec76c757dca3feb4d4dabb3ad184522a0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 53/61] fix: only_return_file_names ignores size_limit

---
 nappy/nappy_api.py                 |  2 +-
 nappy/nc_interface/xarray_to_na.py | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index f2daf2a..95ff814 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -285,7 +285,7 @@ def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None
 
     # If user only wants files then only give them that
     if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
+        return convertor.constructNAFileNames(na_file, size_limit=size_limit)
     else:
         convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
                                size_limit=size_limit, annotation=annotation, no_header=no_header)
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index f5645e4..7257039 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -189,10 +189,11 @@ class XarrayToNA:
 
         return ordered_vars + unordered_vars
 
-    def constructNAFileNames(self, na_file=None):
+    def constructNAFileNames(self, na_file=None, size_limit=None):
         """
         Works out what the file names of the output NA files will be and 
-        returns a list of them.
+        returns a list of them. If size_limit is given then any file that would
+        be split is replaced by the files that it would be split into.
         """
         if not self.converted:
             self.convert()
@@ -217,9 +218,25 @@ class XarrayToNA:
                 suffix = f"_{file_counter}"
                 new_name = base_name + suffix + extension
                 file_names.append(new_name)
+
+        if size_limit is not None:
+            file_names = [name for (file_name, (na_dict, var_ids)) in zip(file_names, self.na_dict_list)
+                          for name in self._splitFileNames(file_name, na_dict, size_limit)]
 	    
         return file_names
 
+    def _splitFileNames(self, file_name, na_dict, size_limit):
+        """
+        Returns the list of names of the files that na_dict is written to: only
+        file_name unless it is split on size_limit.
+        """
+        if na_dict["FFI"] != 1001 or len(na_dict["V"][0]) <= size_limit:
+            return [file_name]
+
+        base_name, extension = os.path.splitext(file_name)
+        nvol = -(-len(na_dict["V"][0]) // size_limit)
+        return [f"{base_name}-{ivol:03d}{extension}" for ivol in range(1, nvol + 1)]
+
     def writeNAFiles(self, na_file=None, delimiter=default_delimiter, annotation=False,
                      float_format=default_float_format, size_limit=None, no_header=False):
         """
-- 
2.43.0


From 49397184343a4f3d88b82f07a3c3509580440a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 54/61] fix: XarrayToNA.writeNAFiles leaves the converted
 content as it was, so that it can be written again

---
 nappy/nc_interface/xarray_to_na.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 7257039..34afa2c 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -280,6 +280,10 @@ class XarrayToNA:
             # Set up current na dict
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
 
+            # Take a copy - so that the converted content can be written again
+            this_na_dict = this_na_dict.copy()
+            this_na_dict["NCOM"] = this_na_dict["NCOM"][:]
+
             # Override content of NASA Ames if they are permitted
             for key in overriders:
 
-- 
2.43.0


From e8c6b5227c37afb73e0980ba37e5aa96307ac90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 55/61] fix: time axes that are plain numbers can be converted
 to NASA Ames

---
 nappy/nc_interface/xarray_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 62ad571..e691216 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,6 +286,10 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
+    # Times without a reference date are not decoded: they are numbers already
+    if np.issubdtype(da.dtype, np.number):
+        return da.data
+
     units = da.encoding['units']
     calendar = da.encoding.get('calendar', 'standard')
     arr = cftime.date2num(da.data, units, calendar=calendar)
-- 
2.43.0


From 8d668c385c0d7e6a8cb82266b869068abc5930d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:39 +0000
Subject: [PATCH 56/61] fix: a time axis keeps its name when no time units are
 given

---
 nappy/nc_interface/na_to_xarray.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 5526f96..9477b7f 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -435,9 +435,12 @@ class NADictToXarrayObjects:
                 self.output_message.append(message)
                 self.time_units = time_units_input
 
-            axis.attrs["units"] = self.time_units
-            axis.encoding["units"] = self.time_units
-            axis.attrs["long_name"] = f"time ({self.time_units})"
+            # Keep the units and name in the file if no others were given
+            if self.time_units:
+                axis.attrs["units"] = self.time_units
+                axis.encoding["units"] = self.time_units
+                axis.attrs["long_name"] = f"time ({self.time_units})"
+
             axis.name = "time"
 
         axis.attrs["name"] = axis.name
-- 
2.43.0


From c26ebb8d84bac55a1079bbbb0959e3abd1c86125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 57/61] fix: keep the known first date if the time axis does
 not give one

---
 nappy/nc_interface/na_content_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 45e5f9e..3b932d1 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -796,7 +796,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 msg = warning_message
                 log.info(msg)
                 self.output_message.append(msg)
-                self.na_dict["DATE"] = [999] * 3 
+                self.na_dict.setdefault("DATE", [999] * 3)
 
         else: 
             if not "DATE" in self.na_dict:
-- 
2.43.0


From fd46560cfa2b4ee15f59d7e0cb0c1c706a568094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 58/61] fix: names of several words can be read in files of
 format 2160

---
 nappy/na_file/na_file_2160.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 3e07241..cc4bdc4 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -101,7 +101,9 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        # (it has a line of its own and may contain blanks)
+        x1 = nappy.utils.text_parser.readItemsFromLines(datalines[:1], 1, str)
+        datalines = datalines[1:]
         self.X.append([])
         self.X[ivar_count].append(x1[0])
         # Set up list to take second changing independent variable
-- 
2.43.0


From 8ed99a329015ffa8f6956e7326a6e9c777a11716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 59/61] fix: files of format 2160 without text variables can be
 written

---
 nappy/na_file/na_file_2160.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index cc4bdc4..594e400 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -74,10 +74,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (self.format * (self.NAUXV - self.NAUXC - 1) + self.float_format + "\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
-            line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+                line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
             self.header.write(wrapLines("ANAME", self.annotation, self.delimiter, line))
 
-- 
2.43.0


From 6eed9a8c852cd26175d6c548b5b67e24f9d6f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 60/61] fix: write a dictionary that does not say NLHEAD

---
 nappy/na_file/na_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 97a0910..4f26f61 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -202,8 +202,8 @@ class NAFile(nappy.na_file.na_core.NACore):
         """
         Writes the header section common to all NASA Ames files.
         """
-        # Line 1 if often overwritten at _fixHeaderLength
-        self.header.write(wrapLine("NLHEAD_FFI", self.annotation, self.delimiter, "%d%s%d\n" % (self.NLHEAD, self.delimiter, self.FFI)))
+        # Line 1 is overwritten at _fixHeaderLength, which counts the lines: the number given here (if any) does not matter
+        self.header.write(wrapLine("NLHEAD_FFI", self.annotation, self.delimiter, "%d%s%d\n" % (self.NLHEAD or 0, self.delimiter, self.FFI)))
         self.header.write(getAnnotation("ONAME", self.annotation, delimiter = self.delimiter) + stripQuotes(self.ONAME) + "\n")
         self.header.write(getAnnotation("ORG", self.annotation, delimiter = self.delimiter) + stripQuotes(self.ORG) + "\n")
         self.header.write(getAnnotation("SNAME", self.annotation, delimiter = self.delimiter) + stripQuotes(self.SNAME) + "\n")
-- 
2.43.0


From 843631bd1e6f63f402b833451982488776d45b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:47 +0000
Subject: [PATCH 61/61] fix: keep the order of coordinates of a data set

---
 nappy/nc_interface/xarray_to_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 34afa2c..a373284 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -540,7 +540,7 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
                                   if coord not in var.dims])
 
         # Compile into one list of variable to convert
-- 
2.43.0

