From 3678ab6f1889b7ae3c43efc0cbce85f1ee9b494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 01/65] fix: accept string times in SurfaceFile.add_station

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..d8e2819 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1506,7 +1506,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From 8e52187e23af14dfdd60f4a83b4a5410b26dc761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 02/65] fix: round station coordinates to hundredths instead of
 truncating

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d8e2819..89445a6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1299,7 +1299,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1565,7 +1565,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From b95992b9ca3104c6ec055d828d963793bf299c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 03/65] fix: pad written files to a whole number of blocks when
 the last entry is empty

---
 src/gempakio/encode/gempak.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 89445a6..8ef4214 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1076,7 +1076,10 @@ class GridFile(DataManagementFile):
             else:
                 stream.write_int(0)
 
-        _rec, word = self._dmword(stream.word())
+        # Pad from the end of the data, which is not where the last pointer is
+        # when the last entry is empty
+        stream.jump_to(self.next_free_word)
+        _rec, word = self._dmword(self.next_free_word)
         # Fill out the remainder of the block, if needed
         if word != 1:
             for _n in range(MBLKSZ - word + 1):
@@ -1337,7 +1340,10 @@ class SoundingFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
-        _rec, word = self._dmword(stream.word())
+        # Pad from the end of the data, which is not where the last pointer is
+        # when the last entry is empty
+        stream.jump_to(self.next_free_word)
+        _rec, word = self._dmword(self.next_free_word)
         # Fill out the remainder of the block, if needed
         if word != 1:
             for _n in range(MBLKSZ - word + 1):
@@ -1598,7 +1604,10 @@ class SurfaceFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
-        _rec, word = self._dmword(stream.word())
+        # Pad from the end of the data, which is not where the last pointer is
+        # when the last entry is empty
+        stream.jump_to(self.next_free_word)
+        _rec, word = self._dmword(self.next_free_word)
         # Fill out the remainder of the block, if needed
         if word != 1:
             for _n in range(MBLKSZ - word + 1):
-- 
2.43.0


From 2da40e10aaefd0bbdda5a3c14674009ab3283b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 04/65] fix: report all eight characters of sounding station
 identifiers

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..8aba9d4 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1223,7 +1223,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1244,7 +1244,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1305,7 +1305,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From 54a1fc1e769fa8e27267e5fe53f79ebb0e8f68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 05/65] fix: leave missing points out of the packed range of a
 grid

---
 src/gempakio/encode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 8ef4214..8cc80fb 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
-- 
2.43.0


From 62e605b1b166c0c274a0d206db2d63913e254db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 06/65] fix: keep the largest packed value below the missing
 code

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 8cc80fb..5c4ef6f 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -75,7 +75,7 @@ def pack_grib(grid, missing_float, nbits=16):
             if idat >= imax:
                 while idat >= imax:
                     nnnn -= 1
-                    idat = qdiff * 2**nnnn
+                    idat = round(qdiff * 2**nnnn)
             else:
                 while round(qdiff * 2 ** (nnnn + 1)) < imax:
                     nnnn += 1
-- 
2.43.0


From b84260b08cd7624418a866f29f7508190181dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 07/65] fix: pack grids that fit into a single word

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5c4ef6f..f3e1d66 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -98,7 +98,9 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (
+            1 if any_split_words else 0
+        )
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
-- 
2.43.0


From afffd6f1baeb1c17fb5974c644e37343919f6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 08/65] fix: do not alter or keep the array given to add_grid

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index f3e1d66..c50506d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -937,7 +937,7 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid)
+        self.data[new_column] = self._replace_nan(grid.copy())
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From 25ca71497bc113940cdd5b96cf17663b98494a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 09/65] fix: check the length of the second grid time itself

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index c50506d..f1faddb 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -884,7 +884,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From 00821df68dd66702ab0e03a94f9ee92baa513dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 10/65] fix: allow grids with and without a second time in one
 file

---
 src/gempakio/encode/gempak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index f1faddb..0c6df1a 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -944,7 +944,10 @@ class GridFile(DataManagementFile):
         if self.rows + self.columns > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
+        # An absent second time sorts before any other
+        self.column_headers = sorted(
+            self._column_set, key=lambda ch: ch._replace(GDT2=ch.GDT2 or (-1,))
+        )
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
-- 
2.43.0


From 57a9d961d74030260074c94c28507611278e0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 11/65] fix: keep the time of day of grids explicitly typed as
 analyses

---
 src/gempakio/encode/gempak.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 0c6df1a..04259e6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -860,6 +860,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analyses are stored by date and time of day
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -901,6 +906,10 @@ class GridFile(DataManagementFile):
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                    if grid_type2 == 0:
+                        init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
                 elif len(split_time) > 3:
-- 
2.43.0


From 09ecc514ece402e365a40c6015e0969df3c83481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 12/65] fix: write grids with fewer than three rows or columns

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 04259e6..fef696c 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1029,10 +1029,10 @@ class GridFile(DataManagementFile):
         )
 
         # Write a basic analysis block (type 2)
-        rx1 = self.nx // 2
-        rx2 = rx1 + 1
-        ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        rx2 = min(self.nx // 2 + 1, self.nx - 1)
+        rx1 = max(rx2 - 1, 0)
+        ry2 = min(self.ny // 2 + 1, self.ny - 1)
+        ry1 = max(ry2 - 1, 0)
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From eabc8b0c4afc37f1d2cf17edb8926d51f17d1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 13/65] fix: read grids that fit into a single word

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8aba9d4..bfd1ce3 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -808,7 +808,7 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
@@ -851,7 +851,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
-- 
2.43.0


From 34c0bfcd099893f99ffc3101188caa069ec8b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 14/65] fix: do not alter the lists of times passed to
 selections

---
 src/gempakio/decode/gempak.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bfd1ce3..1070619 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1020,9 +1020,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1039,9 +1040,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time2 = [date_time2]
             if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2067,9 +2069,10 @@ class GempakSounding(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2812,9 +2815,10 @@ class GempakSurface(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From cb41e87aa5f22aa360f2a1a7b7cfafae590c9edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 15/65] fix: find the first and last second time among grids
 that have one

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 1070619..d7690e3 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1059,9 +1059,11 @@ class GempakGrid(GempakFile):
             date_time = [min(d.DATTIM1 for d in matched)]
 
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            times2 = [d.DATTIM2 for d in matched if d.DATTIM2 is not None]
+            date_time2 = [max(times2)] if times2 else []
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            times2 = [d.DATTIM2 for d in matched if d.DATTIM2 is not None]
+            date_time2 = [min(times2)] if times2 else []
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From 83816031067226770ec6ed4de281a33c0403c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 16/65] fix: ignore the case of lists of states and countries
 of soundings

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index d7690e3..269c314 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2076,14 +2076,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From 2b0d21843c62b9e368680e79db7c5b4930694810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 17/65] fix: accept a station number given as a single string

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 269c314..4fc07fe 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2060,7 +2060,7 @@ class GempakSounding(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2701,7 +2701,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2806,7 +2806,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
-- 
2.43.0


From f72b937a69be1ea82ecac81774008faa06ee2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 18/65] fix: accept Lambert conformal projections with one
 standard parallel

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index fef696c..4afd638 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -709,7 +709,9 @@ class GridFile(DataManagementFile):
             self.gemproj = 'STR'
             self.angle3 = self.rotation
         elif name == 'lambert_conformal_conic':
-            self.angle1, self.angle3 = params['standard_parallel']
+            # A single standard parallel is not given as a sequence
+            parallels = np.atleast_1d(params['standard_parallel'])
+            self.angle1, self.angle3 = float(parallels[0]), float(parallels[-1])
             self.angle2 = params['longitude_of_central_meridian']
             self.gemproj = 'LCC'
         elif name == 'equidistant_cylindrical':
-- 
2.43.0


From f1b1f2cd75dcd0291ae228114da4419f3ca1f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 19/65] fix: accept polar stereographic projections with a
 latitude of true scale

---
 src/gempakio/encode/gempak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 4afd638..5c8dbb3 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -700,7 +700,10 @@ class GridFile(DataManagementFile):
             self.angle2 = params['longitude_of_projection_origin']
             self.angle3 = self.rotation
         elif name == 'polar_stereographic':
-            self.angle1 = params['latitude_of_projection_origin']
+            # The pole is not stated when the latitude of true scale is
+            self.angle1 = params.get('latitude_of_projection_origin')
+            if self.angle1 is None:
+                self.angle1 = 90.0 if params['standard_parallel'] > 0 else -90.0
             self.angle2 = params['straight_vertical_longitude_from_pole']
             self.gemproj = 'STR'
         elif name == 'stereographic':
-- 
2.43.0


From 5f5ca215459d748750f605338eceaa5dbc94f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 20/65] fix: keep the place of headers in use when other
 headers of a file are not

---
 src/gempakio/decode/gempak.py | 72 ++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4fc07fe..433327c 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -451,6 +451,26 @@ class GempakFile:
                     else:
                         self.parameters[n][attr] += self._buffer.read_binary(*fmt)
 
+    def _read_headers(self, count, fmt):
+        """Read row or column headers.
+
+        Pointers to data are located by the position of a header among all of the
+        slots. None is left in place of a header for slots that are not used.
+        """
+        headers = []
+        for _ in range(count):
+            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
+                headers.append(self._buffer.read_struct(fmt))
+            else:
+                self._buffer.skip(fmt.size)
+                headers.append(None)
+        return headers
+
+    @staticmethod
+    def _used_headers(headers):
+        """Iterate over position and header of the slots that are used."""
+        return ((n, head) for n, head in enumerate(headers) if head is not None)
+
     def _swap_bytes(self, binary):
         """Swap between little and big endian."""
         self.swapped_bytes = struct.pack('@i', 1) != binary
@@ -628,17 +648,13 @@ class GempakGrid(GempakFile):
         # means its in use, otherwise -9999. GEMPAK allows empty grids, etc., but
         # no real need to keep track of that in Python.
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
-        self.row_headers = []
         row_headers_info = [(key, 'i') for key in self.row_keys]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers = self._read_headers(self.dm_label.rows, row_headers_fmt)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
-        self.column_headers = []
         column_headers_info = [
             (key, 'i', self._convert_level)
             if key in level_names
@@ -655,12 +671,10 @@ class GempakGrid(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers = self._read_headers(self.dm_label.columns, column_headers_fmt)
 
         self._gdinfo = set()
-        for n, head in enumerate(self.column_headers):
+        for n, head in self._used_headers(self.column_headers):
             self._gdinfo.add(
                 Grid(
                     n,
@@ -1163,7 +1177,6 @@ class GempakSounding(GempakFile):
 
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
-        self.row_headers = []
         row_headers_info = [
             (key, 'i', self._make_date)
             if key == 'DATE'
@@ -1174,13 +1187,10 @@ class GempakSounding(GempakFile):
         ]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers = self._read_headers(self.dm_label.rows, row_headers_fmt)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
-        self.column_headers = []
         column_headers_info = [
             (key, '4s', self._decode_strip)
             if key == 'STID'
@@ -1203,15 +1213,13 @@ class GempakSounding(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers = self._read_headers(self.dm_label.columns, column_headers_fmt)
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
         self._sninfo = set()
-        for irow, row_head in enumerate(self.row_headers):
-            for icol, col_head in enumerate(self.column_headers):
+        for irow, row_head in self._used_headers(self.row_headers):
+            for icol, col_head in self._used_headers(self.column_headers):
                 pointer = (
                     self.dm_label.data_block_ptr
                     + (irow * self.dm_label.columns * self.dm_label.parts)
@@ -2194,30 +2202,24 @@ class GempakSurface(GempakFile):
 
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
-        self.row_headers = []
         row_headers_info = self._key_types(self.row_keys)
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers = self._read_headers(self.dm_label.rows, row_headers_fmt)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
-        self.column_headers = []
         column_headers_info = self._key_types(self.column_keys)
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers = self._read_headers(self.dm_label.columns, column_headers_fmt)
 
         self._get_surface_type()
 
         self._sfinfo = set()
         if self.surface_type == 'standard':
-            for irow, row_head in enumerate(self.row_headers):
-                for icol, col_head in enumerate(self.column_headers):
+            for irow, row_head in self._used_headers(self.row_headers):
+                for icol, col_head in self._used_headers(self.column_headers):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
@@ -2244,8 +2246,8 @@ class GempakSurface(GempakFile):
                                 )
                             )
         elif self.surface_type == 'ship':
-            irow = 0
-            for icol, col_head in enumerate(self.column_headers):
+            irow, _ = next(self._used_headers(self.row_headers))
+            for icol, col_head in self._used_headers(self.column_headers):
                 for iprt in range(len(self.parts)):
                     pointer = (
                         self.dm_label.data_block_ptr
@@ -2272,8 +2274,8 @@ class GempakSurface(GempakFile):
                             )
                         )
         elif self.surface_type == 'climate':
-            for icol, col_head in enumerate(self.column_headers):
-                for irow, row_head in enumerate(self.row_headers):
+            for icol, col_head in self._used_headers(self.column_headers):
+                for irow, row_head in self._used_headers(self.row_headers):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
@@ -2314,7 +2316,7 @@ class GempakSurface(GempakFile):
         See GEMPAK SFLIB documentation for type definitions.
         """
         if (
-            len(self.row_headers) == 1
+            len(list(self._used_headers(self.row_headers))) == 1
             and 'DATE' in self.column_keys
             and 'STID' in self.column_keys
         ):
@@ -2422,7 +2424,7 @@ class GempakSurface(GempakFile):
     def _unpack_ship(self, sfcno):
         """Unpack ship (moving observation) surface data file."""
         stations = []
-        for irow, icol in sfcno:  # irow should always be zero
+        for irow, icol in sfcno:  # irow should always be the only row used
             col_head = self.column_headers[icol]
             station = {
                 'STID': col_head.STID,
-- 
2.43.0


From 8ce3dca0f0a77f2ed1e0f5bbef1f49505f9fd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 21/65] fix: keep surface observations whose report text is
 empty

---
 src/gempakio/decode/gempak.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 433327c..c2cfc17 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2637,6 +2637,11 @@ class GempakSurface(GempakFile):
 
                     processed.append(new_report)
 
+        # No text was stored, but the observation itself remains.
+        if not processed:
+            report.update(**values)
+            processed.append(report)
+
         return processed
 
     def nearest_time(
-- 
2.43.0


From c9b480b5fcc3067d9f9612d7dc8c11eb1e66f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 22/65] fix: date special reports across the end of a month

---
 src/gempakio/decode/gempak.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c2cfc17..e42c1e0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2573,8 +2573,6 @@ class GempakSurface(GempakFile):
         have been processed and given the proper timestamp.
         """
         processed = []
-        year = report['DATE'].year
-        month = report['DATE'].month
 
         # GEMPAK bins reports in this timestamp, not by actual observed time.
         gem_day = report['DATE'].day
@@ -2610,6 +2608,13 @@ class GempakSurface(GempakFile):
 
                     new_report = deepcopy(report)
                     if param == 'SPCL':  # Do not update standard METAR time
+                        # Reports may have been observed on the day before or after the
+                        # GEMPAK date, which can be in another month.
+                        year, month = report['DATE'].year, report['DATE'].month
+                        for days in (-1, 1):
+                            near = report['DATE'] + timedelta(days=days)
+                            if near.day == int(time_group['day']):
+                                year, month = near.year, near.month
                         try:
                             dt = datetime(
                                 year,
@@ -2621,7 +2626,7 @@ class GempakSurface(GempakFile):
                         except ValueError:
                             # Some text reports contain bad date/time. In these cases
                             # replace with the GEMPAK date and time.
-                            dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                            dt = datetime.combine(report['DATE'], report['TIME'])
                         new_report['DATE'] = dt.date()
                         new_report['TIME'] = dt.time()
 
-- 
2.43.0


From c16709033d90dd5656970227bfd711a289dc822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 23/65] fix: select names stored with lower case letters

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index e42c1e0..ae8ac20 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1080,13 +1080,13 @@ class GempakGrid(GempakFile):
             date_time2 = [min(times2)] if times2 else []
 
         if parameter is not None:
-            matched = filter(lambda grid: grid.PARM in parameter, matched)
+            matched = filter(lambda grid: grid.PARM.upper() in parameter, matched)
 
         if date_time is not None:
             matched = filter(lambda grid: grid.DATTIM1 in date_time, matched)
 
         if coordinate is not None:
-            matched = filter(lambda grid: grid.COORD in coordinate, matched)
+            matched = filter(lambda grid: grid.COORD.upper() in coordinate, matched)
 
         if level is not None:
             matched = filter(lambda grid: grid.LEVEL1 in level, matched)
@@ -2105,10 +2105,10 @@ class GempakSounding(GempakFile):
             date_time = [min(d.DATTIM for d in matched)]
 
         if country is not None:
-            matched = filter(lambda snd: snd.COUNTRY in country, matched)
+            matched = filter(lambda snd: snd.COUNTRY.upper() in country, matched)
 
         if state is not None:
-            matched = filter(lambda snd: snd.STATE in state, matched)
+            matched = filter(lambda snd: snd.STATE.upper() in state, matched)
 
         if bbox is not None:
             matched = filter(lambda snd: _bbox_filter(snd.LAT, snd.LON, bbox), matched)
@@ -2117,7 +2117,7 @@ class GempakSounding(GempakFile):
             matched = filter(lambda snd: snd.DATTIM in date_time, matched)
 
         if station_id is not None:
-            matched = filter(lambda snd: snd.ID in station_id, matched)
+            matched = filter(lambda snd: snd.ID.upper() in station_id, matched)
 
         if station_number is not None:
             matched = filter(lambda snd: snd.NUMBER in station_number, matched)
@@ -2855,10 +2855,10 @@ class GempakSurface(GempakFile):
             date_time = [min(d.DATTIM for d in matched)]
 
         if country is not None:
-            matched = filter(lambda sfc: sfc.COUNTRY in country, matched)
+            matched = filter(lambda sfc: sfc.COUNTRY.upper() in country, matched)
 
         if state is not None:
-            matched = filter(lambda sfc: sfc.STATE in state, matched)
+            matched = filter(lambda sfc: sfc.STATE.upper() in state, matched)
 
         if bbox is not None:
             matched = filter(lambda sfc: _bbox_filter(sfc.LAT, sfc.LON, bbox), matched)
@@ -2867,7 +2867,7 @@ class GempakSurface(GempakFile):
             matched = filter(lambda sfc: sfc.DATTIM in date_time, matched)
 
         if station_id is not None:
-            matched = filter(lambda sfc: sfc.ID in station_id, matched)
+            matched = filter(lambda sfc: sfc.ID.upper() in station_id, matched)
 
         if station_number is not None:
             matched = filter(lambda sfc: sfc.NUMBER in station_number, matched)
-- 
2.43.0


From 3e2f1619e98a94c07e3d5a127f554ea4e30d52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 24/65] fix: return the nearest observation of each selected
 station

---
 src/gempakio/decode/gempak.py | 55 ++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ae8ac20..c794af8 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2699,7 +2699,8 @@ class GempakSurface(GempakFile):
         if isinstance(date_time, str):
             date_time = datetime.strptime(date_time, '%Y%m%d%H%M')
 
-        nargs = sum(map(bool, [station_id, station_number, state, country, bbox]))
+        filters = [station_id, station_number, state, country, bbox]
+        nargs = sum(arg is not None for arg in filters)
 
         if nargs == 0:
             raise ValueError('Must have one filter.')
@@ -2727,38 +2728,32 @@ class GempakSurface(GempakFile):
                 state = [state]
             state = [s.upper() for s in state]
 
-        if bbox is not None:
-            station_id = {
-                stn.ID for stn in self._sfinfo if _bbox_filter(stn.LAT, stn.LON, bbox)
-            }
-
-        if country:
-            station_id = set()
-            for cty in country:
-                station_id.update(stn.ID for stn in self._sfinfo if cty == stn.COUNTRY)
-
-        if state:
-            station_id = set()
-            for st in state:
-                station_id.update(stn.ID for stn in self._sfinfo if st == stn.STATE)
+        if station_id is not None:
+            selections = [{'station_id': stn} for stn in dict.fromkeys(station_id)]
+        elif station_number is not None:
+            selections = [{'station_number': stn} for stn in dict.fromkeys(station_number)]
+        else:
+            # The identifier alone may be blank or that of several stations
+            stations = dict.fromkeys(
+                (stn.ID, stn.NUMBER)
+                for stn in self.sfinfo()
+                if (bbox is not None and _bbox_filter(stn.LAT, stn.LON, bbox))
+                or (country is not None and stn.COUNTRY.upper() in country)
+                or (state is not None and stn.STATE.upper() in state)
+            )
+            selections = [{'station_id': i, 'station_number': n} for i, n in stations]
 
         time_matched = []
-        if station_id:
-            for stn in station_id:
-                matched = self.sfjson(station_id=stn, include_special=include_special)
-
-                nearest = min(
-                    matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-                )
-
-                time_matched.append(nearest)
-
-        if station_number:
-            for stn in station_number:
-                matched = self.sfjson(station_number=stn, include_special=include_special)
-
+        for selection in selections:
+            matched = {}
+            for ob in self.sfjson(**selection, include_special=include_special):
+                props = ob['properties']
+                stn = (props['station_id'], props['station_number'])
+                matched.setdefault(stn, []).append(ob)
+
+            for obs in matched.values():
                 nearest = min(
-                    matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
+                    obs, key=lambda d: abs(d['properties']['date_time'] - date_time)
                 )
 
                 time_matched.append(nearest)
-- 
2.43.0


From 692a4b5731ddc34f43806b1b30acf890f56a081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 25/65] fix: merge soundings without surface and with fewer
 than two levels of a part

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c794af8..8f5fc2a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1607,7 +1607,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                if num_trop_levels > 1 and pbot < parts['TRPA']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1678,7 +1678,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                if num_sigt_levels > 1 and pbot < parts['TTBB']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From fe00ffa92ff8ff5f9bbb0c8ca557bd156e0bbc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 26/65] fix: merge levels below ground when winds are on
 pressure surfaces

---
 src/gempakio/decode/gempak.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8f5fc2a..f0a7da2 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1996,6 +1996,7 @@ class GempakSounding(GempakFile):
 
         # Add below ground MAN data
         if merged['PRES'][0] != self.dm_label.missing_float and bgl > 0:
+            size = len(merged['PRES'])
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
-- 
2.43.0


From 5342511d15d796594e2a8d040b540fc7b5e8aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 27/65] fix: fill missing winds of the level a significant wind
 belongs to

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f0a7da2..3b2880a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1964,8 +1964,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0


From 972398d7d736ac0cd98a946ad2477f9b0208cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 28/65] fix: merge winds at heights above 100 hPa when there
 are none below

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3b2880a..1e1321b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1916,7 +1916,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From 950b8f78d4f51eee6726e154cdcfb8b7337d07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 29/65] fix: list soundings whose first part is missing

---
 src/gempakio/decode/gempak.py | 45 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 1e1321b..4ae3f8f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1220,30 +1220,31 @@ class GempakSounding(GempakFile):
         self._sninfo = set()
         for irow, row_head in self._used_headers(self.row_headers):
             for icol, col_head in self._used_headers(self.column_headers):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts)
-                )
+                for iprt in range(len(self.parts)):
+                    pointer = (
+                        self.dm_label.data_block_ptr
+                        + (irow * self.dm_label.columns * self.dm_label.parts)
+                        + (icol * self.dm_label.parts + iprt)
+                    )
 
-                self._buffer.jump_to(self._start, _word_to_position(pointer))
-                data_ptr = self._buffer.read_int(4, self.endian, False)
-
-                if data_ptr:
-                    self._sninfo.add(
-                        Sounding(
-                            irow,
-                            icol,
-                            datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID + getattr(col_head, 'STD2', ''),
-                            col_head.STNM,
-                            col_head.SLAT,
-                            col_head.SLON,
-                            col_head.SELV,
-                            col_head.STAT,
-                            col_head.COUN,
+                    self._buffer.jump_to(self._start, _word_to_position(pointer))
+                    data_ptr = self._buffer.read_int(4, self.endian, False)
+
+                    if data_ptr:
+                        self._sninfo.add(
+                            Sounding(
+                                irow,
+                                icol,
+                                datetime.combine(row_head.DATE, row_head.TIME),
+                                col_head.STID + getattr(col_head, 'STD2', ''),
+                                col_head.STNM,
+                                col_head.SLAT,
+                                col_head.SLON,
+                                col_head.SELV,
+                                col_head.STAT,
+                                col_head.COUN,
+                            )
                         )
-                    )
 
     def sninfo(self):
         """Return sounding information."""
-- 
2.43.0


From cedd548e015089b354174cfbdee10ff007b0f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 30/65] fix: merge soundings with missing data next to a
 missing pressure

---
 src/gempakio/gemcalc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..564423f 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -171,6 +171,15 @@ def interp_missing_data(sounding, missing=-9999):
                 ):
                     iabove = 0
 
+                # Nothing to interpolate between, e.g., if surface data are missing
+                if not (
+                    sounding['PRES'][i - 1]
+                    > sounding['PRES'][i]
+                    > sounding['PRES'][iabove]
+                    > 0
+                ):
+                    iabove = 0
+
                 if iabove != 0:
                     adata = {}
                     bdata = {}
-- 
2.43.0


From fd1a2b2aca23f7e0d2d3a46cd5d7be20c0ce4876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 31/65] fix: return the pressure interpolated to

---
 src/gempakio/gemcalc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 564423f..81f4c1f 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -331,7 +331,9 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
     outdata['PRES'] = vlev
     for param, aval in adata.items():
         bval = bdata[param]
-        if param == 'DRCT':
+        if param == 'PRES':
+            continue
+        elif param == 'DRCT':
             ang1 = aval % 360
             ang2 = bval % 360
             if abs(ang1 - ang2) > 180:
-- 
2.43.0


From aba01f25ba47bc93590a9d8162f0132de3310587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 32/65] fix: pass the missing data flag on when interpolating
 heights

---
 src/gempakio/gemcalc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 81f4c1f..bd76dab 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -79,7 +79,9 @@ def interp_logp_height(sounding, missing=-9999):
                 tdt = sounding['DWPT'][i]
                 pt = sounding['PRES'][i]
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
-                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z)
+                sounding['HGHT'][i] = moist_hydrostatic_height(
+                    zb, pb, pt, scale_z, missing
+                )
 
             if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
                 pb = sounding['PRES'][i]
@@ -210,7 +212,7 @@ def interp_moist_height(sounding, missing=-9999):
     merging observed sounding data.
     """
     nlev = len(sounding['PRES'])
-    hlist = np.ones(nlev) * -9999
+    hlist = np.ones(nlev) * missing
 
     ilev = -1
     top = False
@@ -282,7 +284,7 @@ def interp_moist_height(sounding, missing=-9999):
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
-            z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
+            z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
             sounding['HGHT'][ii] = z
             hbb = z
             pbb = p
-- 
2.43.0


From f3b8e873bff67c2875be6fa9330a620b0b9e75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 33/65] fix: keep missing data out of interpolated heights

---
 src/gempakio/gemcalc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index bd76dab..53d321a 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -250,7 +250,7 @@ def interp_moist_height(sounding, missing=-9999):
                 tt = sounding['TEMP'][jlev]
                 tdt = sounding['DWPT'][jlev]
                 zt = sounding['HGHT'][jlev]
-                if zt != missing and tt != missing:
+                if zt != missing and tt != missing and pt != missing:
                     mand = True
                     klev = jlev
 
@@ -277,7 +277,8 @@ def interp_moist_height(sounding, missing=-9999):
         if klev != 0:
             s = (zt - zlev) / (znew - zlev)
             for h in range(ilev + 1, klev + 1):
-                hlist[h] *= s
+                if hlist[h] != missing:
+                    hlist[h] *= s
 
         hbb = zlev
         pbb = plev
@@ -285,9 +286,10 @@ def interp_moist_height(sounding, missing=-9999):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
             z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
-            sounding['HGHT'][ii] = z
-            hbb = z
-            pbb = p
+            if z != missing:
+                sounding['HGHT'][ii] = z
+                hbb = z
+                pbb = p
 
         ilev = klev
 
-- 
2.43.0


From 52351ce1944ddba759e48943aea336ed87b892ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 34/65] fix: keep the last character of strings that fill their
 field

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..82d0172 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5305,7 +5305,9 @@ class VectorGraphicFile:
         """
         decoded = x.decode('utf-8', errors='ignore')
         null = decoded.find('\x00')
-        return decoded[:null].strip()
+        if null >= 0:
+            decoded = decoded[:null]
+        return decoded.strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From a007073b8f41b059d91f8a237fe408e511a63491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 35/65] fix: allow a converter for every field of a structure

---
 src/gempakio/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..95952c4 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,8 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names = [i[0] for i in info]
+        fmts = [i[1] for i in info]
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From c5861d55409eb50678fdb88979fa91f293155cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 36/65] fix: convert basin and type of tropical cyclones to
 numbers

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 82d0172..6efcc4b 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From 565a7a5d7a7cd11c2a66a7c4c729e8df185bf197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 37/65] fix: read tropical cyclone break points

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 6efcc4b..d796133 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4433,7 +4433,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From e319ad8ce1120da1104747584333025eb8a4de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 38/65] fix: return each tropical cyclone advisory once

---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index d796133..515a9ee 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4256,26 +4256,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From cd2dd209a759aaa1ad10a7720f4d7421e49c6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 39/65] fix: read significant weather elements

---
 src/gempakio/decode/vgf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 515a9ee..96fcc5d 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4511,6 +4511,9 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
+        text_string = self._buffer.read(255).split(b'\x00')[0].decode()
+        self._buffer.skip(1)  # skip byte for struct alignment
+
         lat, lon = self._get_latlon(sgwx.number_points)
 
         self._elements.append(
@@ -4534,20 +4537,20 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
-                text.text,
+                text_string,
                 lat,
                 lon,
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 2bc5f20850ad8504e487da884d2b9b310a635eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 40/65] fix: swap the bytes of negative integers

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 96fcc5d..1c484c6 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5326,4 +5326,6 @@ class VectorGraphicFile:
         -------
         byte-swapped float or int
         """
-        return int.from_bytes(x.to_bytes(4, byteorder='little'), byteorder='big', signed=False)
+        return int.from_bytes(
+            x.to_bytes(4, byteorder='little', signed=True), byteorder='big', signed=True
+        )
-- 
2.43.0


From 93141b799cb5d31341747eec9d15ff35bc21478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 41/65] fix: return met elements of files without sigmets

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 1c484c6..0442de6 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3153,7 +3153,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From 3a301209f03dcc0560dd674b94960fadacf6071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 42/65] fix: allow another encoder in to_json

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 0442de6..ce7d5b7 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3255,7 +3255,9 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From 74615f1b4c2d613aac6001146d6178f9cf451857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 43/65] fix: stop at record sizes that cannot be

---
 src/gempakio/decode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ce7d5b7..966e52d 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5185,6 +5185,7 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
+            or rec_size < VGF_HEADER_SIZE
             or rec_size > size
         )
 
-- 
2.43.0


From 58f2b8ce676b899b2d657df31296138e0293a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 44/65] fix: close coordinates given as lists

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 966e52d..ac95996 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5260,8 +5260,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = x + [x[0]]
+            y = y + [y[0]]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From 4400ef85dda0b0b1922f4416ec5215b15de27cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 45/65] fix: pass over sigmets and watches of unknown versions

---
 src/gempakio/decode/vgf.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ac95996..6ba9715 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3725,6 +3725,13 @@ class VectorGraphicFile:
                     ('forecaster', '16s', self._decode_strip_null),
                 ]
 
+            case _:
+                logger.warning(
+                    'SIGMET version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
+                return
+
         sigmet = self._buffer.read_struct(NamedStruct(sigmet_info, self.prefmt, 'SigmetInfo'))
 
         lat = self._buffer.read_array(sigmet.number_points, f'{self.prefmt}f')
@@ -4954,6 +4961,13 @@ class VectorGraphicFile:
                 if watch.number_points > 2:
                     lon, lat = self.close_coordinates(lon, lat)
 
+            case _:
+                logger.warning(
+                    'Watch version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
+                return
+
         self._elements.append(
             WatchBoxElement(
                 header_struct,
-- 
2.43.0


From d6e52d5c28090567634ee4208f872480b1147117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 46/65] fix: count elements on the equator and prime meridian
 in the bounds

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 6ba9715..5dd6662 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2919,7 +2919,7 @@ class VectorGraphicFile:
         ymax = -9999
 
         for element in self.elements:
-            if 0 in [element.max_lat, element.max_lon, element.min_lat, element.min_lon]:
+            if not any([element.max_lat, element.max_lon, element.min_lat, element.min_lon]):
                 continue
             else:
                 if element.max_lat > ymax:
-- 
2.43.0


From 9069907ce70dc32e00c384c38733f00a75a5bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 47/65] fix: find the next element by the size of the record

---
 src/gempakio/decode/vgf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 5dd6662..ba54716 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5063,6 +5063,7 @@ class VectorGraphicFile:
         more = True
 
         while not self._buffer.at_end() and more:
+            start = self._buffer.set_mark()
             header_struct = self._read_header()
 
             rec_size = header_struct.record_size
@@ -5179,6 +5180,10 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # Records follow each other at the distance of their sizes, whatever
+            # part of a record was decoded.
+            self._buffer.jump_to(start, rec_size)
+
     def _validate_header(self, header_struct):
         """Validate VGF header."""
         size = len(self._buffer._data)
-- 
2.43.0


From fa40f983c7b50629c452e0e2bc35f3c63bf4a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 48/65] fix: decode watch status messages as the special lines
 they are

---
 src/gempakio/decode/vgf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ba54716..cbb490b 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3386,7 +3386,7 @@ class VectorGraphicFile:
             )
         )
 
-    def _decode_special_lines(self, header_struct):
+    def _decode_special_lines(self, header_struct, element=SpecialLineElement):
         """Decode special line elements."""
         special_line_info = [
             ('number_points', 'i'),
@@ -3411,7 +3411,7 @@ class VectorGraphicFile:
             lon, lat = self.flip_coordinates(lon, lat)
 
         self._elements.append(
-            SpecialLineElement(
+            element(
                 header_struct,
                 special_line.number_points,
                 special_line.line_type,
@@ -5169,7 +5169,10 @@ class VectorGraphicFile:
                     )
                     _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.watches:
-                self._decode_watches(header_struct)
+                if vg_type == VGType.watch_status:
+                    self._decode_special_lines(header_struct, WatchStatusMessageElement)
+                else:
+                    self._decode_watches(header_struct)
             elif vg_class == VGClass.winds:
                 self._decode_winds(header_struct)
             else:
-- 
2.43.0


From 621bbde5ab4409cab39cefb1426c847dd2e3d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 49/65] fix: validate symbols when they are made

---
 src/gempakio/encode/vgf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..8bb4a85 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1490,10 +1490,10 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
         self._offset_x = offset_x
@@ -1561,7 +1561,7 @@ class SymbolBase(Element):
         self._offset_y = value
 
     def _validate_symbol_code(self, code):
-        if not isinstance(code, int):
+        if not isinstance(code, (int, np.integer)):
             raise TypeError('Symbol code must be integer')
 
     def encode(self):
-- 
2.43.0


From d193cb3af355320cffb2d6da56674a23d487e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 50/65] fix: accept special symbol 0

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 8bb4a85..18340e0 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1623,8 +1623,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
-- 
2.43.0


From dd20b1d9e75d5da820f845a7a91117dbb2f8426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 51/65] fix: refuse groups that cannot be stored

---
 src/gempakio/encode/vgf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 18340e0..cc86d6b 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -389,8 +389,8 @@ class Element:
     @group_type.setter
     def group_type(self, value):
         """Set group type."""
-        if value < 0:
-            raise ValueError('group type should be non-negative.')
+        if value < 0 or value > 255:
+            raise ValueError('group type must be in range [0, 255].')
         self._group_type = value
 
     @property
@@ -401,8 +401,8 @@ class Element:
     @group_number.setter
     def group_number(self, value):
         """Set group number."""
-        if value < 0:
-            raise ValueError('group number should be non-negative.')
+        if value < 0 or value > 2147483647:
+            raise ValueError('group number must be in range [0, 2147483647].')
         self._group_number = value
 
     @property
-- 
2.43.0


From 2f95478d907c6f565f47ee40ef2f2ecabc771d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 52/65] fix: refuse turbulence symbols outside of their range
 for all text types

---
 src/gempakio/encode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index cc86d6b..70a0a91 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1439,6 +1439,8 @@ class SpecialText(TextBase):
             raise ValueError('Invalid turbulence symbol code.')
         elif self._text_type == 12 and value not in range(11):
             raise ValueError('Invalid icing symbol code.')
+        elif value not in range(11):
+            raise ValueError('Invalid turbulence or icing symbol code.')
         self._turbulence_symbol = value
 
     def encode(self):
-- 
2.43.0


From d6983774c7b8f4cc09356b463d26dc996ef29269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 53/65] fix: size special text by its encoded bytes

---
 src/gempakio/encode/vgf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 70a0a91..129a198 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -561,7 +561,7 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len((text + '\x00').encode()) > 255:
             raise ValueError('text string exceeds 255 character limit.')
         self._text = text + '\x00'
 
@@ -1382,7 +1382,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1465,9 +1467,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
-
-        return header + info + text
+        return header + info + self._text.encode()
 
 
 class SymbolBase(Element):
-- 
2.43.0


From f572d4c5a3afa67cb558748f0ac1982dc1cc7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 54/65] fix: refuse dates whose year cannot be stored

---
 src/gempakio/encode/gempak.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5c8dbb3..0970a66 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -313,6 +313,12 @@ class DataManagementFile:
         except KeyError as err:
             raise KeyError(f'`{coord}` has no numeric value.') from err
 
+    @staticmethod
+    def _validate_date(date):
+        """Check that a date can be told from its two digit year."""
+        if not 1969 <= date.year <= 2068:
+            raise ValueError('Dates must be between 1969 and 2068.')
+
     def _init_headers(self):
         self.make_column_header = namedtuple('ColumnHeader', self.column_names)
         self.make_row_header = namedtuple('RowHeader', self.row_names)
@@ -883,6 +889,8 @@ class GridFile(DataManagementFile):
         else:
             raise TypeError('date_time must be string or datetime.')
 
+        self._validate_date(init_date)
+
         if not isinstance(level2, int | float | type(None)):
             raise TypeError('Secondary level must be integer or None.')
 
@@ -930,6 +938,8 @@ class GridFile(DataManagementFile):
             else:
                 raise TypeError('date_time must be string or datetime or None.')
 
+            self._validate_date(init_date2)
+
         pbuff = f'{parameter_name:<12s}'
         gpm1, gpm2, gpm3 = (pbuff[i : (i + 4)] for i in range(0, len(pbuff), 4))
 
@@ -1244,6 +1254,8 @@ class SoundingFile(DataManagementFile):
         else:
             raise TypeError('date_time must be string or datetime.')
 
+        self._validate_date(self._datetime)
+
         if station_info is None:
             stid = ''
             stnm = self._missing_int
@@ -1511,6 +1523,8 @@ class SurfaceFile(DataManagementFile):
         else:
             raise TypeError('date_time must be string or datetime.')
 
+        self._validate_date(self._datetime)
+
         if station_info is None:
             stid = ''
             stnm = self._missing_int
-- 
2.43.0


From f061033843121d944279856735897642717106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 55/65] fix: refuse forecast times that cannot be stored

---
 src/gempakio/encode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 0970a66..5a84e5e 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -862,6 +862,8 @@ class GridFile(DataManagementFile):
             split_time = re.split('([AFVIG])', date_time)
             if len(split_time) == 3:
                 init, gtype, fhr = split_time
+                if not re.fullmatch('[0-9]{0,5}', fhr):
+                    raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
                 init_date = datetime.strptime(init, '%Y%m%d%H%M')
                 if len(fhr) > 3:
                     fmin = fhr[3:]
@@ -910,6 +912,8 @@ class GridFile(DataManagementFile):
                 split_time = re.split('([AFVIG])', date_time2)
                 if len(split_time) == 3:
                     init, gtype, fhr = split_time
+                    if not re.fullmatch('[0-9]{0,5}', fhr):
+                        raise ValueError(f'Cannot parse malformed date_time2 input {date_time2}.')
                     init_date2 = datetime.strptime(init, '%Y%m%d%H%M')
                     if len(fhr) > 3:
                         fmin = fhr[3:]
-- 
2.43.0


From c7904b8057f35a24db89141983faf9f85b218301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 56/65] fix: refuse names that do not fit within a word

---
 src/gempakio/encode/gempak.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a84e5e..3691bc8 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -160,7 +160,10 @@ class GempakStream(BytesIO):
 
     def write_string(self, string):
         """Write string word."""
-        self.write(struct.pack('<4s', bytes(f'{string:<4s}', 'utf-8')))
+        word = bytes(f'{string:<4s}', 'utf-8')
+        if len(word) != 4:
+            raise ValueError(f'`{string}` does not fit within 4 bytes.')
+        self.write(word)
 
     def write_int(self, i):
         """Write integer word."""
@@ -1186,6 +1189,8 @@ class SoundingFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
+            if len(param) > 4:
+                raise ValueError('Parameter names cannot be more than 4 characters.')
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
@@ -1464,6 +1469,8 @@ class SurfaceFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
+            if len(param) > 4:
+                raise ValueError('Parameter names cannot be more than 4 characters.')
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
-- 
2.43.0


From 110db5542301f008db1188f9557cf90641193ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 57/65] fix: leave a file as it was when it has no room for an
 entry

---
 src/gempakio/encode/gempak.py | 41 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 3691bc8..1895a54 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -322,6 +322,18 @@ class DataManagementFile:
         if not 1969 <= date.year <= 2068:
             raise ValueError('Dates must be between 1969 and 2068.')
 
+    def _add_headers(self, row, column):
+        """Add row and column headers, unless the file has no room for them."""
+        rows = len(self._row_set) + (row not in self._row_set)
+        columns = len(self._column_set) + (column not in self._column_set)
+        if rows + columns > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
+
+        self._row_set.add(row)
+        self._column_set.add(column)
+        self.rows = rows
+        self.columns = columns
+
     def _init_headers(self):
         self.make_column_header = namedtuple('ColumnHeader', self.column_names)
         self.make_row_header = namedtuple('RowHeader', self.row_names)
@@ -966,15 +978,16 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
+        column = self.make_column_header(*new_column)
+        if column not in self._column_set and self.rows + self.columns + 1 > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
+
+        self._column_set.add(column)
 
         self.data[new_column] = self._replace_nan(grid.copy())
 
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         # An absent second time sorts before any other
         self.column_headers = sorted(
             self._column_set, key=lambda ch: ch._replace(GDT2=ch.GDT2 or (-1,))
@@ -1285,19 +1298,11 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
-
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
+        self._add_headers(self.make_row_header(*new_row), self.make_column_header(*new_column))
 
         self.data[(new_row, new_column)] = params._asdict()
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
@@ -1558,19 +1563,11 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
-
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
+        self._add_headers(self.make_row_header(*new_row), self.make_column_header(*new_column))
 
         self.data[(new_row, new_column)] = params._asdict()
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
-- 
2.43.0


From e228b859972ae7b88d2c5f564c863de31e8af093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 58/65] fix: keep the file when an element cannot be encoded

---
 src/gempakio/encode/vgf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 129a198..11d56bc 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1699,6 +1699,9 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        # Encode first, such that an element that cannot be does not cost a file
+        encoded = [e.encode() for e in self.elements]
+
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            for element in encoded:
+                out.write(element)
-- 
2.43.0


From 1e6a29e6b01647a1054ecfe76843eaa65f399e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 59/65] fix: raise an error when a file ends before what is to
 be read

---
 src/gempakio/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 95952c4..434eb24 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -155,6 +155,8 @@ class IOBuffer:
     def read(self, num_bytes=None):
         """Read and return the specified bytes from the buffer."""
         res = self.get_next(num_bytes)
+        if num_bytes is not None and len(res) < num_bytes:
+            raise EOFError(f'Only {len(res)} of {num_bytes} bytes are left to be read.')
         self.skip(len(res))
         return res
 
-- 
2.43.0


From 980225a42c0c183ccd6c7655fcf960106ace5900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 60/65] fix: export elements with attributes of their own or
 times to JSON

---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index cbb490b..4fa4503 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,10 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, datetime):
+            return obj.isoformat()
+        if hasattr(obj, '__dict__'):
+            return obj.__dict__
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 206527b935a4a92d5d266bcebbf43587866bad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 61/65] fix: skip grids without data

---
 src/gempakio/decode/gempak.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4ae3f8f..626181f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1116,6 +1116,8 @@ class GempakGrid(GempakFile):
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
+                if not self.data_ptr:
+                    continue
                 self._buffer.jump_to(self._start, _word_to_position(self.data_ptr))
                 self.data_header_length = self._buffer.read_int(4, self.endian, False)
                 data_header = self._buffer.set_mark()
-- 
2.43.0


From c981c0249e4287a3ff1dfec98df0459d26235557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 62/65] fix: keep the rotation of polar stereographic grids

---
 src/gempakio/encode/gempak.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 1895a54..38268d5 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -726,6 +726,7 @@ class GridFile(DataManagementFile):
             if self.angle1 is None:
                 self.angle1 = 90.0 if params['standard_parallel'] > 0 else -90.0
             self.angle2 = params['straight_vertical_longitude_from_pole']
+            self.angle3 = self.rotation
             self.gemproj = 'STR'
         elif name == 'stereographic':
             self.angle1 = params['latitude_of_projection_origin']
-- 
2.43.0


From fac5551ce728735e1acc7ed10381c24ddb8521bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 63/65] fix: honour masks and small number types of data to
 encode

The mask of a masked array was ignored, so its masked points came back as
data, and arrays of 8 or 16 bit numbers overflowed while packing or could
not hold the missing value.
---
 src/gempakio/encode/gempak.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 38268d5..473d25e 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -339,7 +339,8 @@ class DataManagementFile:
         self.make_row_header = namedtuple('RowHeader', self.row_names)
 
     def _replace_nan(self, array):
-        """Replace nan values from an array with missing value."""
+        """Copy an array as floats with masked and nan values replaced by missing value."""
+        array = np.ma.filled(np.ma.array(array, dtype=float, copy=True), self._missing_float)
         nan_loc = np.isnan(array)
         array[nan_loc] = self._missing_float
         return array
@@ -985,7 +986,7 @@ class GridFile(DataManagementFile):
 
         self._column_set.add(column)
 
-        self.data[new_column] = self._replace_nan(grid.copy())
+        self.data[new_column] = self._replace_nan(grid)
 
         self.columns = len(self._column_set)
 
@@ -1251,7 +1252,7 @@ class SoundingFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._replace_nan(np.asarray(v.copy())) for k, v in data.items()}
+        data = {k.upper(): self._replace_nan(v) for k, v in data.items()}
         params = self._param_args(**data)
 
         if not self._validate_length(data):
@@ -1520,7 +1521,7 @@ class SurfaceFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._missing_float if np.isnan(v) else v for k, v in data.items()}
+        data = {k.upper(): self._missing_float if np.ma.is_masked(v) or np.isnan(v) else v for k, v in data.items()}
         params = self._param_args(**data)
 
         if not self._validate_length(data):
-- 
2.43.0


From 2e8037f2c09d38af9621932ac243627d70b94f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 64/65] fix: refuse an unpacked grid of one value instead of
 spreading it over all points

---
 src/gempakio/decode/gempak.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 626181f..7527684 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -825,8 +825,7 @@ class GempakGrid(GempakFile):
             if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
-                grid = np.zeros(self.ky * self.kx, dtype=np.float32)
-                grid[...] = buffer
+                grid = np.array(buffer, dtype=np.float32)
             else:
                 grid = None
 
-- 
2.43.0


From cdfdf80eff01729fdc111d688308b55fde6fa404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:40 +0000
Subject: [PATCH 65/65] fix: accept arrays of several times to select entries
 by

---
 src/gempakio/decode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7527684..0501153 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1032,7 +1032,7 @@ class GempakGrid(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time, str):
                 date_time = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time
@@ -1052,7 +1052,7 @@ class GempakGrid(GempakFile):
                 and date_time2 not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time2 = [date_time2]
-            if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time2, str):
                 date_time2 = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time2
@@ -2081,7 +2081,7 @@ class GempakSounding(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time, str):
                 date_time = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time
@@ -2826,7 +2826,7 @@ class GempakSurface(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time, str):
                 date_time = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time
-- 
2.43.0

