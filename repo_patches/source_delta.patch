From e6e0867df5d7795c4d887c1bda5122f91558b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 01/43] fix: count leading empty cells in the length of a
 column

A column whose first value is not in the first row reported a length that
left out its leading nulls, so the table was cut short by that many rows.
---
 rxls/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..caf9ec0 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,8 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        # ? Leading nulls are stored too (see `add`), so rows are counted from the top.
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From 50ad0851123977cf1c40928ba7dc2f072072fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 02/43] fix: skip_rows alone must not limit the rows read

take_rows=0 means no limit, but skip_rows was added to it, so skipping k rows
turned into a limit of row k.
---
 rxls/reader/xlsb.py | 3 ++-
 rxls/reader/xlsx.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..a681269 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -209,7 +209,8 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..14c687d 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -284,7 +284,8 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
-- 
2.43.0


From 57a5d1d8c279dab610370912a67fcebf227a7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 03/43] fix: skip_rows must advance over the skipped rows

Cells of skipped rows are not read, so a skipped row looked empty and, unless
empty rows were kept, was never counted: every row of the sheet was skipped.
---
 rxls/reader/xlsb.py | 3 ++-
 rxls/reader/xlsx.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index a681269..1e5761a 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -228,7 +228,8 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    # ? Rows to skip are counted even though their cells are not read.
+                    if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 14c687d..be1b129 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -397,8 +397,9 @@ class XlsxWorkbook:  # noqa: D101
                 # ? Row closing tag
                 if tag == "row":
                     # ? Row number for cells increases here only.
-                    # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    # * If row was empty and not take_non_empty, do not increase row number
+                    # * Rows to skip are counted even though their cells are not read.
+                    if not is_empty_row or take_non_empty or row < skip_rows:
                         row += 1
 
                     if callback is not None:
-- 
2.43.0


From 4fb97bbd31f2ae9be59b9025d1297021c40147bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 04/43] fix: treat empty rows of xlsx sheets as xlsb does

The xlsx worker never started a row as empty again once a row had data, so
later empty rows stayed in the table although take_rows_non_empty was off; and
each kept empty row moved the take_rows limit, turning even the absence of a
limit into one.
---
 rxls/reader/xlsx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index be1b129..051214b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -405,12 +405,7 @@ class XlsxWorkbook:  # noqa: D101
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
-
-                    # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
-                        take_rows += is_empty_row
+                    is_empty_row = True
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
                         raise GeneratorExit
-- 
2.43.0


From 052f9370037cdaef4b132004a471902dac3f16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 05/43] fix: apply null values to shared strings, not to their
 indices

The set of null shared strings was read before the shared strings were
scanned, so xlsx never used it and xlsb did not use it for the first cell;
and the xlsx null test was applied to the index of the shared string instead,
so null_values=['1'] dropped every cell that used string 1.
---
 rxls/reader/xlsb.py |  2 ++
 rxls/reader/xlsx.py | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 1e5761a..a5ec831 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -192,6 +192,8 @@ class XlsbWorkbook:  # noqa: D101
             raise RuntimeError(msg)
 
         _sheets = self.sheets
+        # ? Scanning of shared strings fills `null_shared`
+        _ = self.shared
 
         if isinstance(sheet, int):
             if not (0 <= sheet < len(_sheets)):
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 051214b..aa2f3e2 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -267,6 +267,8 @@ class XlsxWorkbook:  # noqa: D101
             raise RuntimeError(msg)
 
         _sheets = self.sheets
+        # ? Scanning of shared strings fills `null_shared`
+        _ = self.shared
 
         if isinstance(sheet, int):
             if not (0 <= sheet < len(_sheets)):
@@ -323,7 +325,16 @@ class XlsxWorkbook:  # noqa: D101
                 callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal \
+                    row, \
+                    tags, \
+                    l_col, \
+                    c_typ, \
+                    c_row, \
+                    styles, \
+                    l_tag, \
+                    is_sharedstr, \
+                    skip_rows
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -331,7 +342,8 @@ class XlsxWorkbook:  # noqa: D101
                         l_col = attrs["r"]
 
                         # ? check, if value is shared string index:
-                        if attrs.get("t") == "s":
+                        is_sharedstr = attrs.get("t") == "s"
+                        if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
-- 
2.43.0


From 2773260ee271ea7522ab60b4951171025bccae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 06/43] fix: compare text of xlsb cells with error strings as
 text

---
 rxls/reader/xlsb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index a5ec831..08de9f8 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,8 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
-    for x in (
+    (
         "#NULL!",
         "#DIV/0!",
         "#VALUE!",
-- 
2.43.0


From 6168686885f139c0024be256528eaf1e53527f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 07/43] fix: read the whole text of xlsx shared strings

---
 rxls/reader/xlsx.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index aa2f3e2..a866295 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -160,27 +160,37 @@ class XlsxWorkbook:  # noqa: D101
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
-            must_be = False
+            # ? Text of the item may be split between rich-text runs (or by the parser)
+            parts: list[str] = []
+            in_text = False
+            in_phonetic = False
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal must_be
+                nonlocal in_text, in_phonetic
                 if tag == "si":
-                    must_be = True
+                    parts.clear()
+                elif tag == "rPh":
+                    in_phonetic = True
+                elif tag == "t":
+                    in_text = not in_phonetic
 
             def cell_th(txt: str) -> None:
-                nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
-                    ret.append(txt)
-                    must_be = False
+                if in_text:
+                    parts.append(txt)
 
             def cell_eh(tag: str) -> None:
-                nonlocal must_be
-                if tag == "si" and must_be:
-                    ret.append(None)  # type: ignore
-                    self.null_shared.add(str(len(ret) - 1))
-                    must_be = False
+                nonlocal in_text, in_phonetic
+                if tag == "t":
+                    in_text = False
+                elif tag == "rPh":
+                    in_phonetic = False
+                elif tag == "si":
+                    txt = "".join(parts).strip()
+                    if not txt or self.null_values(txt):
+                        ret.append(None)  # type: ignore
+                        self.null_shared.add(str(len(ret) - 1))
+                    else:
+                        ret.append(txt)
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From 835ee60218984f929e8c9f02aaf350f57d8c0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 08/43] fix: read the whole value of xlsx cells longer than the
 parser buffer

---
 rxls/reader/xlsx.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index a866295..bc3668b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -329,6 +329,9 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
+            # ? Value text of current cell (parser may split long text)
+            parts: list[str] = []
+
             # ? First row started event:
             row += 1
             if callback is not None:
@@ -362,6 +365,7 @@ class XlsxWorkbook:  # noqa: D101
                             c_typ = TYPE_STRING | REPR_PREPARED
 
                         c_row = row
+                        parts.clear()
                     else:
                         return
                 # ? Add to tags only if it is already contains something.
@@ -370,12 +374,14 @@ class XlsxWorkbook:  # noqa: D101
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
+                if l_tag == "v":
+                    parts.append(txt)
+
+            def cell_put() -> None:
                 nonlocal \
                     o_q, \
-                    row, \
                     l_col, \
                     c_typ, \
-                    l_tag, \
                     is_empty_row, \
                     is_sharedstr, \
                     nullss, \
@@ -383,10 +389,7 @@ class XlsxWorkbook:  # noqa: D101
                     skip_rows, \
                     skip_cols
 
-                if skip_rows > row:
-                    return
-
-                if l_tag == "v" and (txt := txt.strip()):
+                if txt := "".join(parts).strip():
                     if is_sharedstr:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
@@ -432,7 +435,8 @@ class XlsxWorkbook:  # noqa: D101
                     if 0 < take_rows < row:
                         raise GeneratorExit
 
-                elif tag == "c":
+                elif tag == "c" and l_tag:
+                    cell_put()
                     c_typ = 0
                     l_tag = None
 
-- 
2.43.0


From 5749d1308589eaae45df9c8073b0a996b2740e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 09/43] fix: read workbooks without shared strings or styles
 parts

---
 rxls/reader/xlsb.py | 8 ++++++++
 rxls/reader/xlsx.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 08de9f8..ab8acac 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -126,6 +126,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? Workbook without shared strings may omit this part
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())  # type: ignore
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
@@ -143,6 +147,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? Workbook without styles may omit this part
+        if "xl/styles.bin" not in self.zf.namelist():
+            return frozenset()
+
         with self.zf.open("xl/styles.bin") as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index bc3668b..73e5790 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -159,6 +159,10 @@ class XlsxWorkbook:  # noqa: D101
 
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
+        # ? Workbook without shared strings may omit this part
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return ret.finish().cast("large_string")
+
         with self.zf.open("xl/sharedStrings.xml") as io:
             # ? Text of the item may be split between rich-text runs (or by the parser)
             parts: list[str] = []
@@ -208,6 +212,10 @@ class XlsxWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? Workbook without styles may omit this part
+        if "xl/styles.xml" not in self.zf.namelist():
+            return {}
+
         ret_temporal: set[str] = set()
         ret_numerics: set[str] = set()
 
-- 
2.43.0


From 0faf5b9300016f334b4e3d2ec6a5d337203c3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 10/43] fix: return deduplicated header names

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..5f40c66 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -65,7 +65,7 @@ def __make_header(
 
         result_hdrs.append(n)
 
-    return hdrs
+    return result_hdrs
 
 
 def __find_header(
-- 
2.43.0


From cf3c5947a92a09ae619564d2b811da2a72e4d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 11/43] fix: read inline strings and keep text cells as text

---
 rxls/reader/xlsb.py | 11 ++++++++---
 rxls/reader/xlsx.py | 34 +++++++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index ab8acac..5d9caa1 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -234,8 +234,9 @@ class XlsbWorkbook:  # noqa: D101
             # * 8: BrtFmlaString    | TYPE_STRING | REPR_PREPARED
             # * 9: BrtFmlaNum       | TYPE_NUMERIC | [REPR_TEMPORAL | REPR_PREPARED]
             # * 10: BrtFmlaBool     | TYPE_NUMERIC | REPR_BOOLEAN
+            # * 62: BrtCellRString  | TYPE_STRING | REPR_PREPARED
             # * 402: BrtEndSheetData
-            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
+            for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 62, 402}):
                 if not r.rec_id:
                     # ? Rows to skip are counted even though their cells are not read.
                     if not is_empty_row or take_rows_non_empty or row < skip_rows:
@@ -267,9 +268,13 @@ class XlsbWorkbook:  # noqa: D101
 
                 adv_repr = REPR_TEMPORAL if r.data[4:7] in self.styles else 0
 
-                if r.rec_id in {6, 8}:
+                if r.rec_id in {6, 8, 62}:
                     # NOTE: The slowest case, due to utf-16 encoding.
-                    cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
+                    # ? BrtCellRString has a byte of flags before the string
+                    s_off = 13 if r.rec_id == 62 else 12
+                    cell_data = r.data[
+                        s_off : u4_u(r.data[s_off - 4 : s_off])[0] * 2 + s_off
+                    ].decode(
                         "utf-16",
                     )
                     if self.null_values(cell_data):
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 73e5790..00aa08a 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -329,6 +329,10 @@ class XlsxWorkbook:  # noqa: D101
             is_empty_row: bool = True
             is_sharedstr: bool = False
 
+            # ? Tag, that contains value of current cell
+            v_tag: str = "v"
+            in_phonetic: bool = False
+
             # cell fields
             c_row: int = 0
             c_typ: int = 0
@@ -355,7 +359,9 @@ class XlsxWorkbook:  # noqa: D101
                     styles, \
                     l_tag, \
                     is_sharedstr, \
-                    skip_rows
+                    skip_rows, \
+                    v_tag, \
+                    in_phonetic
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -364,8 +370,13 @@ class XlsxWorkbook:  # noqa: D101
 
                         # ? check, if value is shared string index:
                         is_sharedstr = attrs.get("t") == "s"
+                        is_inlinestr = attrs.get("t") == "inlineStr"
+                        v_tag = "t" if is_inlinestr else "v"
                         if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
+                        # ? string is not a number or date, whatever style it has
+                        elif is_inlinestr or attrs.get("t") == "str":
+                            c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
                             c_typ = typ
@@ -379,10 +390,12 @@ class XlsxWorkbook:  # noqa: D101
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
                 l_tag = tag
+                if tag == "rPh":
+                    in_phonetic = True
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
-                if l_tag == "v":
+                if l_tag == v_tag and not in_phonetic:
                     parts.append(txt)
 
             def cell_put() -> None:
@@ -419,7 +432,16 @@ class XlsxWorkbook:  # noqa: D101
                         is_empty_row = False
 
             def cell_eh(tag: str) -> None:
-                nonlocal tags, row, is_empty_row, callback, c_typ, c_row, take_rows, l_tag
+                nonlocal \
+                    tags, \
+                    row, \
+                    is_empty_row, \
+                    callback, \
+                    c_typ, \
+                    c_row, \
+                    take_rows, \
+                    l_tag, \
+                    in_phonetic
 
                 # if tags:
                 #     last_opened = tags.pop()
@@ -448,6 +470,12 @@ class XlsxWorkbook:  # noqa: D101
                     c_typ = 0
                     l_tag = None
 
+                elif l_tag:
+                    # ? We are still in the cell, but not in its value
+                    l_tag = "c"
+                    if tag == "rPh":
+                        in_phonetic = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-- 
2.43.0


From 6dbd5056af87ccc2f019e831542c3fa7a4b62972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 12/43] fix: list only worksheets and resolve absolute part
 names

---
 rxls/reader/xlsb.py | 8 ++++----
 rxls/reader/xlsx.py | 7 +++++--
 rxls/rels.py        | 6 ++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 5d9caa1..463346a 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -112,11 +112,11 @@ class XlsbWorkbook:  # noqa: D101
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                sheet_file = "xl/" + next(
-                    x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
-                )
+                rel = next(x for x in wb_rels if x.Id == _sheet.strRelID.value)
 
-                s_sheet_idx[_sheet.strName.value] = sheet_file
+                # ? There are sheets without cells (chart sheets, dialog sheets)
+                if rel.Type == "worksheet":
+                    s_sheet_idx[_sheet.strName.value] = rel.part_name("xl")
         return s_sheet_idx
 
     @cached_property
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 00aa08a..6772737 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -136,7 +136,7 @@ class XlsxWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
                 if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = f"xl/{rel.Target}"
+                    rId_to_file[rel.Id] = rel.part_name("xl")
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
@@ -149,7 +149,10 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = st_handler
             parser.ParseFile(io)
-        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
+        # ? There are sheets without cells (chart sheets, dialog sheets)
+        return {
+            rId_to_name[x]: rId_to_file[x] for x in rId_to_name if x in rId_to_file
+        }
 
     @cached_property
     def shared(self) -> pa.LargeStringArray:
diff --git a/rxls/rels.py b/rxls/rels.py
index 16c5367..6b26155 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -18,6 +18,12 @@ class Relationship:
     Type: str
     Target: str
 
+    def part_name(self, base: str) -> str:
+        """Name of target part in the package. Relative target starts from `base` folder."""
+        if self.Target.startswith("/"):
+            return self.Target.lstrip("/")
+        return f"{base}/{self.Target}"
+
     @staticmethod
     def scan_xml(io: IO[bytes]) -> list[Relationship]:
         ret = []
-- 
2.43.0


From 17e548688fb43e802b3226aab90f7171a1ab498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 13/43] fix: raise errors of the background xlsx parser in the
 consumer

---
 rxls/reader/xlsx.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 6772737..d4e57a6 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -349,8 +349,6 @@ class XlsxWorkbook:  # noqa: D101
 
             # ? First row started event:
             row += 1
-            if callback is not None:
-                callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal \
@@ -486,15 +484,14 @@ class XlsxWorkbook:  # noqa: D101
             parser.buffer_text = True
 
             try:
+                if callback is not None:
+                    callback()
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
-                    raise
             except GeneratorExit:
                 pass
+            except BaseException as e:  # noqa: BLE001
+                # ? Consumer must not take a part of sheet for the whole sheet
+                o_q.put(e)
             finally:
                 o_q.put(sentinel)
 
@@ -519,4 +516,7 @@ class XlsxWorkbook:  # noqa: D101
                 ),
             ).start()
 
-            yield from iter(o_q.get, sentinel)
+            for item in iter(o_q.get, sentinel):
+                if isinstance(item, BaseException):
+                    raise item
+                yield item
-- 
2.43.0


From d67c80e8e28cd52d38ea081847164fb528ccba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 14/43] fix: classify number formats of both file types by
 their code

---
 rxls/reader/xlsb.py | 13 +++++++------
 rxls/reader/xlsx.py |  9 +++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 463346a..7b1e79a 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -164,23 +164,24 @@ class XlsbWorkbook:  # noqa: D101
             }
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
+            # ? Format code is placed after FMT ID (2 bytes) and length of the code (4 bytes)
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: r.data[6:].decode("utf-16").split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
-                if fmt == "0":
-                    ret.update(dict.fromkeys(xf_ids, 0x10))
-
-                    continue
                 if re_dt.search(re_xt.sub("", fmt)):
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
-            ret.update((x for x, y in xfs.items() if y[0] in TEMPORAL_STYLES))
+            ret.update(
+                x
+                for x, y in xfs.items()
+                if int.from_bytes(y, "little") in TEMPORAL_STYLES
+            )
 
             return frozenset(ret)  # type: ignore
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index d4e57a6..2e9ad94 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -247,12 +247,13 @@ class XlsxWorkbook:  # noqa: D101
 
         for f_id, fmt in fms.items():
             xf_id = [x for x, y in xfs.items() if y == f_id]
-            if fmt == "0" or ".00" in fmt:
-                ret_numerics.update(xf_id)
-
-            elif re_dt.search(re_xt.sub("", fmt)):
+            # ? Time with milliseconds (`ss.000`) is not a number
+            if re_dt.search(re_xt.sub("", fmt)):
                 ret_temporal.update(xf_id)
 
+            elif fmt == "0" or ".00" in fmt:
+                ret_numerics.update(xf_id)
+
         ret_temporal.update(
             (
                 x
-- 
2.43.0


From 8d70d99433cee874d36225dd27370fc0e2bcfdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 15/43] fix: count every cell format of xlsx styles

---
 rxls/reader/xlsx.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2e9ad94..96bec4a 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -227,20 +227,32 @@ class XlsxWorkbook:  # noqa: D101
 
         fms: dict[str, str] = {}
 
+        in_cell_xfs = False
+
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id
+                nonlocal xfs, fms, xfs_id, in_cell_xfs
 
                 if tag == "numFmt":
                     fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
 
-                elif tag == "xf" and "xfId" in attrs:
-                    xfs[str(xfs_id)] = attrs["numFmtId"]
+                # ? Style of cell is a position in `cellXfs` (`xfId` may be omitted)
+                elif tag == "cellXfs":
+                    in_cell_xfs = True
+
+                elif tag == "xf" and in_cell_xfs:
+                    xfs[str(xfs_id)] = attrs.get("numFmtId", "0")
                     xfs_id += 1
 
+            def cell_eh(tag: str) -> None:
+                nonlocal in_cell_xfs
+                if tag == "cellXfs":
+                    in_cell_xfs = False
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
+            parser.EndElementHandler = cell_eh
             parser.buffer_text = True
 
             parser.ParseFile(io)
-- 
2.43.0


From a7ff0edbb76a171592e1f3d4a93217e0f726d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 16/43] fix: read xlsx cells without references

---
 rxls/reader/xlsx.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 96bec4a..7828cec 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -353,7 +353,7 @@ class XlsxWorkbook:  # noqa: D101
             c_row: int = 0
             c_typ: int = 0
 
-            l_col: str = ""
+            c_col: int = -1
 
             l_tag: str | None = None
 
@@ -367,7 +367,7 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal \
                     row, \
                     tags, \
-                    l_col, \
+                    c_col, \
                     c_typ, \
                     c_row, \
                     styles, \
@@ -379,8 +379,11 @@ class XlsxWorkbook:  # noqa: D101
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
-                        # ? get cell coordinates
-                        l_col = attrs["r"]
+                        # ? get cell coordinates (cell without them is next to the previous one)
+                        if "r" in attrs:
+                            c_col = col_idx(attrs["r"].encode())
+                        else:
+                            c_col += 1
 
                         # ? check, if value is shared string index:
                         is_sharedstr = attrs.get("t") == "s"
@@ -400,6 +403,8 @@ class XlsxWorkbook:  # noqa: D101
                         c_row = row
                         parts.clear()
                     else:
+                        if tag == "row":
+                            c_col = -1
                         return
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
@@ -415,7 +420,7 @@ class XlsxWorkbook:  # noqa: D101
             def cell_put() -> None:
                 nonlocal \
                     o_q, \
-                    l_col, \
+                    c_col, \
                     c_typ, \
                     is_empty_row, \
                     is_sharedstr, \
@@ -433,7 +438,6 @@ class XlsxWorkbook:  # noqa: D101
                     elif nullpd(txt):
                         return
 
-                    c_col = col_idx(l_col.encode())
                     if not skip_cols or c_col not in skip_cols:
                         o_q.put(
                             cell(
-- 
2.43.0


From d36c81568f4d55165e96b7c0fa9b356e8e2825ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 17/43] fix: parse dates of shared strings

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..9b78a37 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -245,7 +245,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.prepare().data, formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From 6336507013181d9ae9c91a9940a5a1baad01aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 18/43] fix: keep dates before 1970 and midnight when parsing
 text

---
 rxls/chunk/casts.py | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..fc69f21 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -19,6 +19,7 @@ __all__ = [
     "rk_to_f8",
 ]
 
+import re
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -603,6 +604,31 @@ def _unsafe_strings_to_array(
 
 _unsafe_strings_to_array = np.fromiter  # type: ignore
 
+NOT_PARSED = np.iinfo(np.int64).min
+"Value of `_strptime` for the strings, that do not match the format"
+
+re_date_directive = re.compile(r"%[-_0^#]?[aAbBcCdDeFgGhjmsuUVwWxyY+]")
+
+# NOTE: -59_011_459_200_000 == 0100-01-01 (milliseconds from 1970-01-01)
+MIN_FULL_YEAR = np.int64(-59_011_459_200_000)
+
+
+def _parsed_to_ms(arr: pa.Array, format: str) -> NDArray[np.int64]:
+    """Milliseconds since 1970-01-01 of parsed timestamps (`NOT_PARSED` for nulls)."""
+    ret = arr.cast(pa.int64()).fill_null(NOT_PARSED).to_numpy()
+    parsed = ret != NOT_PARSED
+
+    if "%Y" in format:
+        # ? `%Y` accepts two digits of year too
+        return np.where(parsed & (ret < MIN_FULL_YEAR), NOT_PARSED, ret)
+
+    if not re_date_directive.search(format):
+        # ? Time only: default date of parser is not a part of the value
+        return np.where(parsed, ret % np.int64(86_400_000), ret)
+
+    return ret
+
+
 if POLARS_AVAILABLE:
     import polars as pl
 
@@ -626,13 +652,12 @@ if POLARS_AVAILABLE:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
 
         """
-        ret = _unsafe_array(
+        return _parsed_to_ms(
             pl.from_arrow(arr)
             .str.strptime(pl.Datetime("ms"), format, strict=False)  # type: ignore
             .to_arrow(),
-            np.int64,
+            format,
         )
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
 
 else:
     DEFAULT_TIME_FORMATS: tuple[str, ...] = (
@@ -656,8 +681,7 @@ else:
             NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
 
         """
-        ret = _unsafe_array(strptime(arr, format, "ms", True), np.int64)
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
+        return _parsed_to_ms(strptime(arr, format, "ms", True), format)
 
 
 DEFAULT_DATE_FORMATS: tuple[str, ...] = (
@@ -722,7 +746,7 @@ def mf_strptime(
         If one or more values cannot be recognized as temporal, using given formats.
 
     """
-    result = np.repeat(np.int64(0), len(arr))
+    result = np.repeat(NOT_PARSED, len(arr))
 
     if not formats:
         formats = (
@@ -732,11 +756,11 @@ def mf_strptime(
         )
 
     for format in formats:
-        result = np.where(result == 0, _strptime(arr, format), result)
+        result = np.where(result == NOT_PARSED, _strptime(arr, format), result)
 
-        if np.all(result > np.int64(0)):
+        if np.all(result != NOT_PARSED):
             return result
 
-    if strict and np.any(result == 0):
+    if strict and np.any(result == NOT_PARSED):
         raise pa.ArrowInvalid
-    return result
+    return np.where(result == NOT_PARSED, np.int64(0), result)
-- 
2.43.0


From c9cc220ddf897a00b929abe666f4709ccbb4e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 19/43] fix: keep original values when conflict resolution
 fails

---
 rxls/chunk/chunk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 9b78a37..6c67723 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -459,6 +459,10 @@ class chunk:  # noqa: D101, N801
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
 
+        # ? Conversions must not change given chunks: if some of them failed, others must be as is
+        source_chunks = chunks
+        chunks = list(source_chunks)
+
         temp_idx = []
         nums_idx = []
         utf8_idx = []
@@ -507,6 +511,7 @@ class chunk:  # noqa: D101, N801
                 utf8_fallback = True
 
         if utf8_fallback:
+            chunks = source_chunks
             dtype = UTF8
         elif temp_idx:
             dtype = T_MS
-- 
2.43.0


From 9a33730437d865bed995cdab44a566e240a10535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 20/43] fix: do not represent numbers out of int64 range as
 integers

---
 rxls/chunk/casts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index fc69f21..1d37561 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -178,7 +178,11 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
         Is rounded input potentially integer array, or not
 
     """
-    return ~np.any(np.trunc(arr) != np.round(arr, int_threshold))
+    # ? Values out of int64 range (and infinities) cannot be represented as integers
+    return ~np.any(
+        (np.trunc(arr) != np.round(arr, int_threshold))
+        | (np.abs(arr) >= np.float64(2.0**63)),
+    )
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From efa58a1d7a7fa595e6a73da46af7c031a3d5f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 21/43] fix: round serial dates to the nearest millisecond

---
 rxls/chunk/casts.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 1d37561..4dd514a 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -91,7 +91,9 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
     # NOTE 2: 25_569 - actual days for backward compatibility reason (for dates greater or equal to 1900-03-01)
     # NOTE 3: 86_400_000 - milliseconds per day
 
-    return (
+    # NOTE 4: Fraction of day is not exact, so it must be rounded to the nearest millisecond
+
+    return np.rint(
         (
             arr
             - (
@@ -99,7 +101,7 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
                 * (np.float64(25_569.0) - (arr < np.float64(60.0)))
             )
         )
-        * np.float64(86_400_000.0)
+        * np.float64(86_400_000.0),
     ).astype(np.int64)
 
 
@@ -287,7 +289,7 @@ if NUMBA_AVAILABLE:
             out[:] = (arr.astype(np.int32) << np.int32(2) | np.int32(2)).view(np.uint32)
 
         def __gu_f8_to_ms_win(arr: NDArray[np.float64], out: NDArray[np.int64]) -> None:
-            out[:] = (
+            out[:] = np.rint(
                 (
                     arr
                     - (
@@ -295,7 +297,7 @@ if NUMBA_AVAILABLE:
                         * (np.float64(25_569.0) - (arr < np.float64(60.0)))
                     )
                 )
-                * np.float64(86_400_000.0)
+                * np.float64(86_400_000.0),
             ).astype(np.int64)
 
         def __gu_ms_to_f8_win(arr: NDArray[np.int64], out: NDArray[np.float64]) -> None:
-- 
2.43.0


From cf32e7205f7dddfbe903b46000cd7cc04d956171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 22/43] fix: compare whole types when casting to dtypes

---
 rxls/reader/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 5f40c66..c0ce064 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -299,7 +299,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     if dtypes is not None:  # noqa: PLR1702
         if isinstance(dtypes, pa.DataType):
             for i in range(len(arrays)):
-                if arrays[i].type.id != dtypes.id:  # type: ignore
+                if arrays[i].type != dtypes:
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
                     except Exception:  # noqa: BLE001
@@ -311,7 +311,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             for i, col in enumerate(header):
                 if col in dtypes:
                     dtype = dtypes[col]
-                    if arrays[i].type.id != dtype.id:
+                    if arrays[i].type != dtype:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
                         except Exception:  # noqa: BLE001
@@ -327,7 +327,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 )
 
             for i, dtype in enumerate(dtypes):
-                if arrays[i].type.id != dtype.id:
+                if arrays[i].type != dtype:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
                     except Exception:  # noqa: BLE001
-- 
2.43.0


From d16fa9b6538accb2cfd7d2b45ca25f8399ea38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 23/43] fix: slice columns without length or rows

---
 rxls/chunk/chunk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 6c67723..bf340d1 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -407,7 +407,7 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                if length and cum_len >= length:
                     break
 
         if length and cum_len < length:
@@ -537,6 +537,9 @@ class chunk:  # noqa: D101, N801
         else:
             dtype = UTF8
 
+        if not chunks:
+            return pa.nulls(0, dtype)
+
         return pa.chunked_array(
             [x.arrow(dest_dtype=dtype) for x in chunks],  # type: ignore
         ).combine_chunks()  # type: ignore
-- 
2.43.0


From 7b13f81c75053331a10e248170ec0fbb78749680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 24/43] fix: read sheets without cells as empty tables

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index c0ce064..fe08006 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -181,7 +181,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     # columns = {i: _columns.get(i, []) for i in range(min_col, max_col + 1)}
     columns = _columns
 
-    max_len = max(len(x) for x in columns.values())
+    max_len = max((len(x) for x in columns.values()), default=0)
 
     first_row = 0
 
-- 
2.43.0


From fa1607fe888a06b9439533e4b8eaf862238177f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 25/43] fix: dump strings of xlsb records so that they can be
 loaded

---
 rxls/biff_recs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..445010d 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -44,8 +44,10 @@ class xstr:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            # ? Length of string is a count of UTF-16 code units
+            data = self.s.encode("utf-16-le")
+            io.write(u4_p(len(data) // 2))
+            io.write(data)
         else:
             io.write(b"\x00\x00\x00\x00")
 
-- 
2.43.0


From 3a5206efed45dc22dfd362c04351327acf73e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 26/43] fix: do not treat the first character of xlsb strings
 as byte order mark

---
 rxls/biff_recs.py   | 4 ++--
 rxls/reader/xlsb.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index 445010d..241f908 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -38,7 +38,7 @@ class xstr:
         (sz,) = u4_u(io.read(4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(io.read(sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
@@ -58,7 +58,7 @@ class xstr:
         (sz,) = u4_u(b[:4])
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        return xstr(b[4 : 4 + sz * 2].decode("utf-16-le"))
 
     @staticmethod
     def from_string(s: str) -> xstr:
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 7b1e79a..9def54c 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -134,7 +134,7 @@ class XlsbWorkbook:  # noqa: D101
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
-                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
+                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                 )
                 else y
                 for i, r in enumerate(scan_biff(io, {19}))
@@ -166,7 +166,7 @@ class XlsbWorkbook:  # noqa: D101
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             # ? Format code is placed after FMT ID (2 bytes) and length of the code (4 bytes)
             fms = {
-                r.data[:2]: r.data[6:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: r.data[6:].decode("utf-16-le").split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
@@ -276,7 +276,7 @@ class XlsbWorkbook:  # noqa: D101
                     cell_data = r.data[
                         s_off : u4_u(r.data[s_off - 4 : s_off])[0] * 2 + s_off
                     ].decode(
-                        "utf-16",
+                        "utf-16-le",
                     )
                     if self.null_values(cell_data):
                         continue
-- 
2.43.0


From b4073ca679cf85931911ae09ef88b5ad704ea53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 27/43] fix: check bounds of shared string indices

---
 rxls/chunk/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
-- 
2.43.0


From 988df412b56e61ce2180e826e9a85c5d4e166e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 28/43] fix: keep empty rows that are not stored in the file

---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 9def54c..c7ab8e4 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -242,6 +242,9 @@ class XlsbWorkbook:  # noqa: D101
                     # ? Rows to skip are counted even though their cells are not read.
                     if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
+                    # ? Empty rows may be not stored in the file
+                    if take_rows_non_empty:
+                        row = max(row, u4_u(r.data[:4])[0])
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
                         break
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 7828cec..92caec0 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -376,6 +376,11 @@ class XlsxWorkbook:  # noqa: D101
                     skip_rows, \
                     v_tag, \
                     in_phonetic
+                # ? Empty rows may be not stored in the file
+                if tag == "row" and take_non_empty and "r" in attrs:
+                    row = max(row, int(attrs["r"]) - 1)
+                    if 0 < take_rows < row:
+                        raise GeneratorExit
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
-- 
2.43.0


From dbc550b4069f1b7cf9c0c1a18892edf21482004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 29/43] fix: encode negative and large numbers as rk numbers

---
 rxls/chunk/casts.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 4dd514a..67593e0 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -142,14 +142,18 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
 
 def f8_to_rk(arr: NDArray[np.float64]) -> NDArray[np.uint32]:
     return np.where(
-        arr == np.round(arr, 2),
+        # ? Integer part of RkNumber has 30 bits
+        (arr == np.round(arr, 2))
+        & (
+            np.abs(
+                np.where(np.trunc(arr) == np.round(arr, 2), arr, arr * np.float64(100.0)),
+            )
+            < np.float64(2.0**29)
+        ),
         np.where(
             np.trunc(arr) == np.round(arr, 2),
-            ((arr + np.float64(0.001)).astype(np.int32) << np.int32(2)) | np.int32(2),
-            (
-                (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
-                << np.int32(2)
-            )
+            (np.rint(arr).astype(np.int32) << np.int32(2)) | np.int32(2),
+            (np.rint(arr * np.float64(100.0)).astype(np.int32) << np.int32(2))
             | np.int32(3),
         ).view(np.uint32),
         (arr.view(np.uint64) >> np.uint64(32)).astype(np.uint32)
@@ -264,16 +268,24 @@ if NUMBA_AVAILABLE:
 
         def __gu_f8_to_rk(arr: NDArray[np.float64], out: NDArray[np.uint32]) -> None:
             out[:] = np.where(
-                arr == np.round(arr, 2),
+                # ? Integer part of RkNumber has 30 bits
+                (arr == np.round(arr, 2))
+                & (
+                    np.abs(
+                        np.where(
+                            np.trunc(arr) == np.round(arr, 2),
+                            arr,
+                            arr * np.float64(100.0),
+                        ),
+                    )
+                    < np.float64(2.0**29)
+                ),
                 np.where(
                     np.trunc(arr) == np.round(arr, 2),
-                    (
-                        (arr + np.float64(0.001)).astype(np.int64).astype(np.int32)
-                        << np.int32(2)
-                    )
+                    (np.rint(arr).astype(np.int64).astype(np.int32) << np.int32(2))
                     | np.int32(2),
                     (
-                        (arr * np.float64(100.0) + np.float64(0.001)).astype(np.int32)
+                        np.rint(arr * np.float64(100.0)).astype(np.int32)
                         << np.int32(2)
                     )
                     | np.int32(3),
-- 
2.43.0


From b33b8852bff89cbeade1b18c982d85e715adeacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 30/43] fix: escape attributes of dumped relationships

---
 rxls/rels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index 6b26155..47a490e 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 __all__ = ["Relationship"]
 
 from typing import IO
+from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
@@ -48,5 +49,5 @@ class Relationship:
 
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
-            f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
+            f'<Relationship Id={quoteattr(self.Id)} Type={quoteattr(f"{RELS_NS}/{self.Type}")} Target={quoteattr(self.Target)}/>'.encode(),
         )
-- 
2.43.0


From d0d1dc00ae865b042333c4e241d19712db8f12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 31/43] fix: encode dates before 1970 as serial dates

---
 rxls/chunk/casts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 67593e0..5821c80 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -134,7 +134,8 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
     return (
         arr
         + (
-            (arr >= ms_per_dy)
+            # ? Dates before 1970 are negative
+            ((arr >= ms_per_dy) | (arr < np.int64(0)))
             * (2_209_075_200_000 + (arr >= np.int64(-2_203_891_200_000)) * ms_per_dy)
         )
     ) / ms_per_dy
@@ -318,7 +319,8 @@ if NUMBA_AVAILABLE:
             out[:] = (
                 arr
                 + (
-                    (arr >= ms_per_dy)
+                    # ? Dates before 1970 are negative
+                    ((arr >= ms_per_dy) | (arr < np.int64(0)))
                     * (
                         2_209_075_200_000
                         + (arr >= np.int64(-2_203_891_200_000)) * ms_per_dy
-- 
2.43.0


From 2f52d42e10523da69c3d567c6a60381eaf79bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 32/43] fix: do not parse errors and ISO dates of xlsx cells as
 numbers

---
 rxls/reader/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 92caec0..af63467 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -396,8 +396,8 @@ class XlsxWorkbook:  # noqa: D101
                         v_tag = "t" if is_inlinestr else "v"
                         if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
-                        # ? string is not a number or date, whatever style it has
-                        elif is_inlinestr or attrs.get("t") == "str":
+                        # ? string (or error) is not a number or serial date, whatever style it has
+                        elif is_inlinestr or attrs.get("t") in {"str", "e", "d"}:
                             c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
-- 
2.43.0


From a59d748127fa73fe54f85c2ceb82aa7195dd0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 33/43] fix: treat large whole numbers as integers under every
 precision

---
 rxls/chunk/casts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 5821c80..c9a236b 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -186,8 +186,12 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
 
     """
     # ? Values out of int64 range (and infinities) cannot be represented as integers
+    # ? Large whole numbers may change when they are scaled by `np.round`
     return ~np.any(
-        (np.trunc(arr) != np.round(arr, int_threshold))
+        (
+            (arr != np.trunc(arr))
+            & (np.trunc(arr) != np.round(arr, int_threshold))
+        )
         | (np.abs(arr) >= np.float64(2.0**63)),
     )
 
-- 
2.43.0


From c14f3fe4d2b9237f96ea40ef32a745f2bc1d3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 34/43] fix: scan no records when no record ids are wanted

---
 rxls/biff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 9394c38..9ef1fd8 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -229,7 +229,7 @@ else:
                             sz = sz ^ 0x200000 | (io.read(1)[0] << 21)
 
                 # read record data if exists and id in x_only set, skip data otherwise
-                if not only or id in only:
+                if only is None or id in only:
                     if sz:
                         data = io.read(sz)
                         if len(data) != sz:
-- 
2.43.0


From fbab08f805017c7c4e95858d348b026df9fd2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 35/43] fix: find date letters and sections of format codes
 outside quotes and escapes

---
 rxls/reader/xlsb.py | 12 +++++++++---
 rxls/reader/xlsx.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index c7ab8e4..aefbb9f 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -31,8 +31,14 @@ if TYPE_CHECKING:
 
     from typing_extensions import Self
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# ? Parts of the format code, that are not letters of date or time
+re_xt = re.compile(
+    r'(?:\\.)|(?:"[^"]*")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])',
+    re.IGNORECASE,
+)
+# ? First section of the format code (quoted or escaped `;` does not end it)
+re_sc = re.compile(r'(?:\\.|"[^"]*"|\[[^\]]*\]|[^;])*')
 
 ERROR_STRINGS = frozenset(
     (
@@ -166,7 +172,7 @@ class XlsbWorkbook:  # noqa: D101
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             # ? Format code is placed after FMT ID (2 bytes) and length of the code (4 bytes)
             fms = {
-                r.data[:2]: r.data[6:].decode("utf-16-le").split(";", 1)[0]
+                r.data[:2]: re_sc.match(r.data[6:].decode("utf-16-le")).group()  # type: ignore
                 for r in scan_biff(io, {44})
             }
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index af63467..a013a55 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -34,8 +34,14 @@ if TYPE_CHECKING:
 
     T = TypeVar("T")
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# ? Parts of the format code, that are not letters of date or time
+re_xt = re.compile(
+    r'(?:\\.)|(?:"[^"]*")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])',
+    re.IGNORECASE,
+)
+# ? First section of the format code (quoted or escaped `;` does not end it)
+re_sc = re.compile(r'(?:\\.|"[^"]*"|\[[^\]]*\]|[^;])*')
 
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
@@ -235,7 +241,7 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal xfs, fms, xfs_id, in_cell_xfs
 
                 if tag == "numFmt":
-                    fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
+                    fms[attrs["numFmtId"]] = re_sc.match(attrs["formatCode"]).group()  # type: ignore
 
                 # ? Style of cell is a position in `cellXfs` (`xfId` may be omitted)
                 elif tag == "cellXfs":
-- 
2.43.0


From 2e301c943738cfa2062cdffb711582e342b55787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 36/43] fix: take cell formats from the list of number formats
 only

---
 rxls/reader/xlsx.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index a013a55..7903aec 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -234,13 +234,18 @@ class XlsxWorkbook:  # noqa: D101
         fms: dict[str, str] = {}
 
         in_cell_xfs = False
+        in_num_fmts = False
 
         with self.zf.open("xl/styles.xml") as io:
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal xfs, fms, xfs_id, in_cell_xfs
+                nonlocal xfs, fms, xfs_id, in_cell_xfs, in_num_fmts
 
-                if tag == "numFmt":
+                # ? Formats of `dxfs` are not formats of cells
+                if tag == "numFmts":
+                    in_num_fmts = True
+
+                elif tag == "numFmt" and in_num_fmts:
                     fms[attrs["numFmtId"]] = re_sc.match(attrs["formatCode"]).group()  # type: ignore
 
                 # ? Style of cell is a position in `cellXfs` (`xfId` may be omitted)
@@ -252,9 +257,11 @@ class XlsxWorkbook:  # noqa: D101
                     xfs_id += 1
 
             def cell_eh(tag: str) -> None:
-                nonlocal in_cell_xfs
+                nonlocal in_cell_xfs, in_num_fmts
                 if tag == "cellXfs":
                     in_cell_xfs = False
+                elif tag == "numFmts":
+                    in_num_fmts = False
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From cdd87267577d433c4dbd685e01d420a2e9f38820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 37/43] fix: encode the smallest packed hundredths exactly

---
 rxls/chunk/casts.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index c9a236b..0463d23 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -143,11 +143,12 @@ def ms_to_f8_win(arr: NDArray[np.int64]) -> NDArray[np.float64]:
 
 def f8_to_rk(arr: NDArray[np.float64]) -> NDArray[np.uint32]:
     return np.where(
-        # ? Integer part of RkNumber has 30 bits
+        # ? Integer part of RkNumber has 30 bits (signed: from -2^29 to 2^29 - 1)
         (arr == np.round(arr, 2))
         & (
             np.abs(
-                np.where(np.trunc(arr) == np.round(arr, 2), arr, arr * np.float64(100.0)),
+                np.where(np.trunc(arr) == np.round(arr, 2), arr, arr * np.float64(100.0))
+                + np.float64(0.5),
             )
             < np.float64(2.0**29)
         ),
@@ -273,7 +274,7 @@ if NUMBA_AVAILABLE:
 
         def __gu_f8_to_rk(arr: NDArray[np.float64], out: NDArray[np.uint32]) -> None:
             out[:] = np.where(
-                # ? Integer part of RkNumber has 30 bits
+                # ? Integer part of RkNumber has 30 bits (signed: from -2^29 to 2^29 - 1)
                 (arr == np.round(arr, 2))
                 & (
                     np.abs(
@@ -281,7 +282,8 @@ if NUMBA_AVAILABLE:
                             np.trunc(arr) == np.round(arr, 2),
                             arr,
                             arr * np.float64(100.0),
-                        ),
+                        )
+                        + np.float64(0.5),
                     )
                     < np.float64(2.0**29)
                 ),
-- 
2.43.0


From 4cfef99b370c9ec79210936c506e7dcb8c09a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 38/43] fix: follow relation targets that leave the workbook's
 folder

---
 rxls/rels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index 47a490e..2c294b5 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 __all__ = ["Relationship"]
 
+from posixpath import join, normpath
 from typing import IO
 from xml.sax.saxutils import quoteattr
 
@@ -21,9 +22,7 @@ class Relationship:
 
     def part_name(self, base: str) -> str:
         """Name of target part in the package. Relative target starts from `base` folder."""
-        if self.Target.startswith("/"):
-            return self.Target.lstrip("/")
-        return f"{base}/{self.Target}"
+        return normpath(join(f"/{base}", self.Target)).lstrip("/")
 
     @staticmethod
     def scan_xml(io: IO[bytes]) -> list[Relationship]:
-- 
2.43.0


From 05a34fea2107a820c268c1dd0df81b61f728fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 39/43] fix: refuse indices of shared strings beyond 32 bits

---
 rxls/chunk/chunk.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index bf340d1..55c3323 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -130,11 +130,13 @@ class chunk:  # noqa: D101, N801
         if is_shared:
             if shareds is None:
                 shareds = EMPTY_SHAREDS
+            try:
+                # ? Index out of 32 bits must not become an index of another string
+                indices = _unsafe_strings_to_array(data, np.int64, data_len)
+            except OverflowError as e:
+                raise IndexError(str(e)) from None
             return chunk(
-                _unsafe_arrow(
-                    _unsafe_strings_to_array(data, np.uint32, data_len),
-                    UI_4,
-                ),
+                _unsafe_arrow(indices, I__8),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
                 shareds,
-- 
2.43.0


From fba9e1dd26e744ca0084f474d0d518b97b9faa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 40/43] fix: refuse .xlsb sheet data that ends too early

---
 rxls/reader/xlsb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index aefbb9f..1ec4f5d 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -263,6 +263,8 @@ class XlsbWorkbook:  # noqa: D101
 
                 # ? If upcoming row number is less than skip_rows, no data processing.
                 if skip_rows > row:
+                    if r.rec_id == 402:
+                        break
                     continue
 
                 if r.rec_id == 402:
@@ -327,3 +329,6 @@ class XlsbWorkbook:  # noqa: D101
                     )
 
                 is_empty_row = False
+            else:
+                # ? Caller must not take a part of sheet for the whole sheet
+                raise EOFError("Sheet data is truncated")
-- 
2.43.0


From e7458a258a1bea18e7886b180300a6099ed8f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 41/43] fix: skip records of stored zip parts without relative
 seeks

---
 rxls/biff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 9ef1fd8..8587707 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 
 __all__ = ["dump_sz", "record", "scan_biff"]
 
-import os
 from io import BytesIO
 from struct import Struct as st
 from typing import TYPE_CHECKING
@@ -240,6 +239,8 @@ else:
                         yield record(id, b"")
 
                 elif sz:
-                    io.seek(sz, os.SEEK_CUR)
+                    # ? Relative seek in a stored part of a zip archive goes astray
+                    # ? when other parts of it are read in the meantime
+                    io.read(sz)
         except IndexError:  # , GeneratorExit, StopIteration
             pass
-- 
2.43.0


From a5a1bd60f768e4f84735b98cf88d37cf43936844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 42/43] fix: start the header at the first matching row of all
 columns

The search stopped at the first column with a match, so a match further
down in that column hid an earlier one in another column and the rows
between were lost. A column without values is not found (ValueError)
instead of failing with KeyError.
---
 rxls/reader/common.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index fe08006..0e9457e 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -77,11 +77,16 @@ def __find_header(
     ignore_case: bool = False,
 ) -> int:
     if isinstance(pattern, int):
+        # ? Column without values has no header
+        if pattern not in columns:
+            return -1
         chunk = columns[pattern].to_utf8(min_row, max_head_length).is_null()
         if chunk.true_count < len(chunk):
             return chunk.to_pylist().index(False)
         return -1
 
+    # ? Header starts at the first of matched rows, whatever column it is found in
+    first_row = -1
     for col in columns.values():
         chunk = pc.match(
             col.to_utf8(min_row, max_head_length),
@@ -91,8 +96,10 @@ def __find_header(
         if not chunk.sum().as_py():
             continue
 
-        return chunk.to_pylist().index(True)
-    return -1
+        row = chunk.to_pylist().index(True)
+        if first_row < 0 or row < first_row:
+            first_row = row
+    return first_row
 
 
 def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
-- 
2.43.0


From 421c7b0c7f039f8c1d2abbf78d8f4aa82a0d85bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 43/43] fix: cells of typed errors are null whatever their text
 is

Errors out of the list of known texts (#SPILL!, #CALC!) were read as
texts from .xlsx, while .xlsb has no value for them.
---
 rxls/reader/xlsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 7903aec..7785625 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -407,6 +407,9 @@ class XlsxWorkbook:  # noqa: D101
                         is_sharedstr = attrs.get("t") == "s"
                         is_inlinestr = attrs.get("t") == "inlineStr"
                         v_tag = "t" if is_inlinestr else "v"
+                        # ? Error has no value, whatever text it has
+                        if attrs.get("t") == "e":
+                            v_tag = ""
                         if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? string (or error) is not a number or serial date, whatever style it has
-- 
2.43.0

