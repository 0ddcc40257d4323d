From b0a79a21cdc1a8c68d0e22c77fa799c9f4a16820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 01/88] fix: rebin_1d reported zeros instead of masked values
 for bins without data

An all-masked input, or an all-zero input with empty bins, came out as
unmasked zeros.
---
 cloudnetpy/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c1a5dc6..cf62456 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -184,10 +184,10 @@ def rebin_1d(
 
     """
     edges = binvec(x_new)
-    result = ma.zeros(len(x_new))
+    result = ma.masked_all(len(x_new))
     array_screened = ma.masked_invalid(array, copy=True)  # data may contain nan-values
-    mask = ~array_screened.mask
-    if ma.any(array_screened[mask]):
+    mask = ~ma.getmaskarray(array_screened)
+    if np.any(mask):
         result, _, _ = stats.binned_statistic(
             x_in[mask],
             array_screened[mask],
-- 
2.43.0


From f8d819b7b45d4e46ca9012674b02cdfc315a0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 02/88] fix: get_epoch raised on impossible dates instead of
 using the fallback

---
 cloudnetpy/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index cf62456..c4e1638 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -938,10 +938,14 @@ def get_epoch(units: str) -> datetime.datetime:
             date_components = [int(x) for x in date.split(".")]
         except ValueError:
             return fallback
-    year, month, day = date_components
+    try:
+        year, month, day = date_components
+        epoch = datetime.datetime(year, month, day, tzinfo=datetime.timezone.utc)
+    except ValueError:
+        return fallback
     current_year = datetime.datetime.now(tz=datetime.timezone.utc).year
-    if (1900 < year <= current_year) and (0 < month < 13) and (0 < day < 32):
-        return datetime.datetime(year, month, day, tzinfo=datetime.timezone.utc)
+    if 1900 < year <= current_year:
+        return epoch
     return fallback
 
 
-- 
2.43.0


From 95ab189e9e528edf64a7b5bff38af9bd2dea55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 03/88] fix: datetime2decimal_hours dropped fractions of
 seconds

---
 cloudnetpy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c4e1638..2df4481 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -73,7 +73,8 @@ def datetime2decimal_hours(data: npt.NDArray | list) -> npt.NDArray:
     output = []
     for timestamp in data:
         t = timestamp.time()
-        decimal_hours = t.hour + t.minute / SEC_IN_MINUTE + t.second / SEC_IN_HOUR
+        seconds = t.second + t.microsecond / 1e6
+        decimal_hours = t.hour + t.minute / SEC_IN_MINUTE + seconds / SEC_IN_HOUR
         output.append(decimal_hours)
     return np.array(output)
 
-- 
2.43.0


From d3c060951db8c2fc7e81d26b6d820a4b9aaa9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 04/88] fix: longitudes above 180 degrees were not wrapped to
 [-180, 180]

The result of the subtraction was thrown away.
---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 2df4481..a296844 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1168,7 +1168,7 @@ def add_site_geolocation(
     if "latitude" in tmp_data and "longitude" in tmp_data:
         lat = np.atleast_1d(tmp_data["latitude"])
         lon = np.atleast_1d(tmp_data["longitude"])
-        lon[lon > 180] - 360
+        lon = ma.where(lon > 180, lon - 360, lon)
         if _are_stationary(lat, lon):
             tmp_data["latitude"] = float(ma.mean(lat))
             tmp_data["longitude"] = float(ma.mean(lon))
-- 
2.43.0


From 03365dc35554957c1fa81d9a51cc9e72c0e3a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 05/88] fix: sign and hemisphere of coordinates in global
 attributes were ignored

'-7.87' and '7.87W' were both read as 7.87 degrees east.
---
 cloudnetpy/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index a296844..b99c60b 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1192,14 +1192,16 @@ def add_site_geolocation(
 
 
 def _parse_global_attribute_numeral(dataset: netCDF4.Dataset, key: str) -> float | None:
-    new_str = ""
     attr = getattr(dataset, key)
     if attr == "Unknown":
         return None
-    for char in attr:
-        if char.isdigit() or char == ".":
-            new_str += char
-    return float(new_str)
+    match = re.search(r"[-+]?(\d+\.?\d*|\.\d+)", attr)
+    if match is None:
+        msg = f"Invalid value in global attribute {key}: {attr}"
+        raise ValueError(msg)
+    value = float(match.group())
+    is_south_or_west = attr[match.end() :].strip().upper().startswith(("S", "W"))
+    return -value if is_south_or_west else value
 
 
 def _are_stationary(latitude: npt.NDArray, longitude: npt.NDArray) -> bool:
-- 
2.43.0


From c6d2a068a92f9a0e0412ae4da281dc3eb645c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 06/88] fix: pixel filters crashed on arrays without any masked
 value

---
 cloudnetpy/cloudnetarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/cloudnetarray.py b/cloudnetpy/cloudnetarray.py
index b45d600..849ecdc 100644
--- a/cloudnetpy/cloudnetarray.py
+++ b/cloudnetpy/cloudnetarray.py
@@ -112,7 +112,7 @@ class CloudnetArray:
     def _filter(self, fun: Callable[[npt.NDArray], npt.NDArray]) -> None:
         if not isinstance(self.data, ma.MaskedArray):
             self.data = ma.array(self.data)
-        is_data = (~self.data.mask).astype(int)
+        is_data = (~ma.getmaskarray(self.data)).astype(int)
         is_data_filtered = fun(is_data)
         self.data[is_data_filtered == 0] = ma.masked
 
-- 
2.43.0


From d84debc9d9d8b488de54b8b47b2924152a17878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 07/88] fix: update_nc left gaps when the new file overlapped
 and skipped 3-D variables

---
 cloudnetpy/concat_lib.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a047da6..3ede1a3 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -309,7 +309,7 @@ def _update_fields(
     valid_ind: npt.NDArray,
 ) -> None:
     ind0 = len(nc_old.variables["time"])
-    idx = [ind0 + x for x in valid_ind]
+    ind1 = ind0 + len(valid_ind)
     concat_dimension = nc_old.variables["time"].dimensions[0]
     for field in nc_new.variables:
         if field not in nc_old.variables:
@@ -317,12 +317,11 @@ def _update_fields(
         dimensions = nc_new.variables[field].dimensions
         if concat_dimension in dimensions:
             concat_ind = dimensions.index(concat_dimension)
-            if len(dimensions) == 1:
-                nc_old.variables[field][idx] = nc_new.variables[field][valid_ind]
-            elif len(dimensions) == 2 and concat_ind == 0:
-                nc_old.variables[field][idx, :] = nc_new.variables[field][valid_ind, :]
-            elif len(dimensions) == 2 and concat_ind == 1:
-                nc_old.variables[field][:, idx] = nc_new.variables[field][:, valid_ind]
+            leading = (slice(None),) * concat_ind
+            array = nc_new.variables[field][:]
+            nc_old.variables[field][(*leading, slice(ind0, ind1))] = array[
+                (*leading, valid_ind)
+            ]
 
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
-- 
2.43.0


From 9f90fa56ca1c3ef976176b6d61d9592e485cb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 08/88] fix: concatenation unmasked values of files with
 another fill value

---
 cloudnetpy/concat_lib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 3ede1a3..a40d3d1 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -254,6 +254,12 @@ class _Concat:
                     fill_value = self.first_file.variables[key].get_fill_value()
                     array[:, out_of_bounds] = fill_value
 
+                # Masked values are not filled automatically with auto_scale off,
+                # and the fill value may differ between the files
+                if ma.isMaskedArray(array):
+                    fill_value = self.concatenated_file.variables[key].get_fill_value()
+                    array = array.filled(fill_value)
+
                 self.concatenated_file.variables[key][ind0:ind1, ...] = array
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
-- 
2.43.0


From 6baa8643e83b5733e3c9c7054cf6337aa4d86f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 09/88] fix: concatenation interpolated a wrong dimension of
 variables with more than two

---
 cloudnetpy/concat_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a40d3d1..2f4e382 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -249,10 +249,11 @@ class _Concat:
                     x = file.variables[self.interp_dim][:]
                     x_target = self.first_file.variables[self.interp_dim][:]
                     idx = np.abs(x[:, None] - x_target[None, :]).argmin(axis=0)
-                    array = array[:, idx]
+                    leading = (slice(None),) * dimensions.index(self.interp_dim)
+                    array = array[(*leading, idx)]
                     out_of_bounds = (x_target < x.min()) | (x_target > x.max())
                     fill_value = self.first_file.variables[key].get_fill_value()
-                    array[:, out_of_bounds] = fill_value
+                    array[(*leading, out_of_bounds)] = fill_value
 
                 # Masked values are not filled automatically with auto_scale off,
                 # and the fill value may differ between the files
-- 
2.43.0


From b003a277acbe4e100132accb9fa682344ed00ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:37 +0000
Subject: [PATCH 10/88] fix: truncate_netcdf_file lost packed and 3-D variables

---
 cloudnetpy/concat_lib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 2f4e382..d2d217f 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -36,6 +36,7 @@ def truncate_netcdf_file(
             value = getattr(nc, attr)
             setattr(nc_new, attr, value)
         for key in nc.variables:
+            nc.variables[key].set_auto_maskandscale(False)
             array = nc.variables[key][:]
             dimensions = nc.variables[key].dimensions
             fill_value = getattr(nc.variables[key], "_FillValue", None)
@@ -46,11 +47,9 @@ def truncate_netcdf_file(
                 zlib=True,
                 fill_value=fill_value,
             )
+            var.set_auto_maskandscale(False)
             if dimensions and dim_name in dimensions[0]:
-                if array.ndim == 1:
-                    var[:] = array[:n_profiles]
-                if array.ndim == 2:
-                    var[:] = array[:n_profiles, :]
+                var[:] = array[:n_profiles]
             else:
                 var[:] = array
             for attr in nc.variables[key].ncattrs():
-- 
2.43.0


From fd5a959eb8a28d4e7d02dcdcfb56fcc5316827d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 11/88] fix: concatenation turned masked scalars into unmasked
 zeros

---
 cloudnetpy/concat_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index d2d217f..d6ac466 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -201,6 +201,8 @@ class _Concat:
             array, dimensions = self._expand_array(var, len_concat_dim)
 
             fill_value = var.get_fill_value()
+            if ma.isMaskedArray(array):
+                array = array.filled(fill_value)
 
             var_new = self.concatenated_file.createVariable(
                 key,
-- 
2.43.0


From f6021f35b3133f7ff054ba34a5b67fc1820c7ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 12/88] fix: time screening scrambled range and bin axes as
 long as the time axis

---
 cloudnetpy/instruments/cloudnet_instrument.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 40cabc2..7211cb4 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -9,6 +9,7 @@ from cloudnetpy import utils
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.exceptions import ValidTimeStampError
 from cloudnetpy.instruments.instruments import BASTA, FMCW35, FMCW94, HATPRO, Instrument
+from cloudnetpy.metadata import COMMON_ATTRIBUTES
 
 if TYPE_CHECKING:
     import netCDF4
@@ -67,8 +68,13 @@ class CloudnetInstrument:
         ):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
-        for cloudnet_array in self.data.values():
+        for key, cloudnet_array in self.data.items():
             array = cloudnet_array.data
+            dimensions = cloudnet_array.dimensions
+            if not dimensions and key in COMMON_ATTRIBUTES:
+                dimensions = COMMON_ATTRIBUTES[key].dimensions
+            if dimensions and "time" not in dimensions:
+                continue
             if not utils.isscalar(array) and array.shape[0] == n_time:
                 match array.ndim:
                     case 1:
-- 
2.43.0


From ec673c989c8a16a4cb7c1eb1912e6b338ee6ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 13/88] fix: rd802nc crashed without an expected date

---
 cloudnetpy/instruments/disdrometer/rd80.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index a5dd5ce..ab84880 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -92,7 +92,7 @@ class Rd80(CloudnetInstrument):
 
     def _screen_time(self, expected_date: datetime.date | None = None) -> None:
         if expected_date is None:
-            self.date = self.time[0].date()
+            self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
             self.raw_time = self.raw_time[is_valid]
-- 
2.43.0


From 357f22bf8adf164bd37609862b55e914b438f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 14/88] fix: rd802nc wrote an empty file when no data matched
 the date

---
 cloudnetpy/instruments/disdrometer/rd80.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index ab84880..62ecbbb 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -11,6 +11,7 @@ from cloudnetpy import output
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.constants import MM_TO_M, SEC_IN_HOUR
 from cloudnetpy.disdronator.rd80 import A, Dlow, Dmid, Dspr, Dupp, Vmid, read_rd80
+from cloudnetpy.exceptions import DisdrometerDataError
 from cloudnetpy.instruments import instruments
 from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument
 from cloudnetpy.utils import get_uuid
@@ -95,6 +96,9 @@ class Rd80(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                msg = f"No data found on {expected_date}"
+                raise DisdrometerDataError(msg)
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From c2bad7d445b117e323f488c50a2199c9e948475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 15/88] fix: read_parsivel dropped ASDO records with a non-zero
 spectrum

---
 cloudnetpy/disdronator/parsivel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index 3d6b2d2..e1f51ba 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -293,8 +293,8 @@ def _read_lines(
 
 def _expand_spectrum(m: re.Match) -> bytes:
     if m[1] == b"ZERO":
-        return b"0;" * 1024
-    return b";".join([x or b"0" for x in m[1].split(b";")])
+        return b";".join([b"0"] * 1024)
+    return b";".join([x or b"0" for x in m[1].split(b";")[:1024]])
 
 
 def _read_typ_op4a(content: bytes) -> dict:
-- 
2.43.0


From ef3176a90ccb347b3347ca1f110c31fb428c37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 16/88] fix: read_lpm misaligned values after a malformed
 telegram

---
 cloudnetpy/disdronator/lpm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/lpm.py b/cloudnetpy/disdronator/lpm.py
index e797900..30cecaa 100644
--- a/cloudnetpy/disdronator/lpm.py
+++ b/cloudnetpy/disdronator/lpm.py
@@ -59,6 +59,7 @@ def _read_telegram(telegram: str, data: dict[int, list]) -> None:
     if len(values) not in (520, 524):
         msg = "Invalid telegram length"
         raise ValueError(msg)
+    row: dict = {}
     for i, value in enumerate(values[:-1]):
         no = i + 2
         parsed: datetime.date | datetime.time | int | float | str
@@ -72,6 +73,8 @@ def _read_telegram(telegram: str, data: dict[int, list]) -> None:
             parsed = float(value)
         else:
             parsed = value
+        row[no] = parsed
+    for no, parsed in row.items():
         if no not in data:
             data[no] = []
         data[no].append(parsed)
@@ -85,8 +88,9 @@ def _read_pyatmoslogger(filename: str | PathLike) -> LpmOutput:
         for line in f:
             timestamp, telegram = line.split(";", maxsplit=1)
             try:
+                parsed_time = datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S")
                 _read_telegram(telegram, data)
-                time.append(datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S"))
+                time.append(parsed_time)
             except ValueError:
                 pass
     return time, data
@@ -100,8 +104,9 @@ def _read_lampedusa(filename: str | PathLike) -> LpmOutput:
         for line in f:
             cols = [col.strip('"') for col in line.strip().split(",")]
             try:
+                parsed_time = datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S")
                 _read_telegram(cols[2], data)
-                time.append(datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S"))
+                time.append(parsed_time)
             except ValueError:
                 pass
     return time, data
-- 
2.43.0


From 37c67ca1ac153baf8f0f26e69d81d92d3d304b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 17/88] fix: read_parsivel ignored the decimal separator in
 vector fields

---
 cloudnetpy/disdronator/parsivel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index e1f51ba..00f22ec 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -253,7 +253,9 @@ def _read_lines(
                     row_data[t] = int(values[0])
                     values = values[1:]
                 elif t in (90, 91):
-                    row_data[t] = [float(x) for x in values[:32]]
+                    row_data[t] = [
+                        float(x.replace(decimal_separator, b".")) for x in values[:32]
+                    ]
                     values = values[32:]
                 elif t == 93:
                     spectrum = [float(x) for x in values[:1024]]
-- 
2.43.0


From a1aacf724a52d7073e32cecc4e6edef850d2ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 18/88] fix: cumulative amount was wrong after a second counter
 reset or a masked first value

---
 cloudnetpy/instruments/cloudnet_instrument.py | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 7211cb4..bd2c093 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -123,14 +123,16 @@ class CSVFile(CloudnetInstrument):
         if key not in self.data:
             return
         amount = self.data[key][:]
+        valid = np.where(~ma.getmaskarray(amount))[0]
+        if len(valid) == 0:
+            return
         offset = 0
-        last_valid = 0
-        for i in range(1, len(amount)):
-            if amount[i] is ma.masked:
-                continue
-            if amount[i] + offset < amount[last_valid]:
-                offset += amount[last_valid]
-            amount[i] += offset
-            last_valid = i
-        amount -= amount[0]
+        previous = amount[valid[0]]
+        for i in valid[1:]:
+            current = amount[i]
+            if current < previous:
+                offset += previous
+            amount[i] = current + offset
+            previous = current
+        amount -= amount[valid[0]]
         self.data[key].data = amount
-- 
2.43.0


From b8bb51d1c4f9548dcdacb2cb3e37109272b74167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 19/88] fix: rain_e_h32nc accumulated rainfall before sorting
 the timestamps

---
 cloudnetpy/instruments/rain_e_h3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rain_e_h3.py b/cloudnetpy/instruments/rain_e_h3.py
index a2339d4..acdd0e6 100644
--- a/cloudnetpy/instruments/rain_e_h3.py
+++ b/cloudnetpy/instruments/rain_e_h3.py
@@ -43,10 +43,10 @@ def rain_e_h32nc(
     rain.add_data()
     rain.add_date()
     rain.convert_units()
-    rain.normalize_cumulative_amount("rainfall_amount")
-    rain.add_site_geolocation()
     rain.sort_timestamps()
     rain.remove_duplicate_timestamps()
+    rain.normalize_cumulative_amount("rainfall_amount")
+    rain.add_site_geolocation()
     attributes = output.add_time_attribute({}, rain.date)
     output.update_attributes(rain.data, attributes)
     output.save_level1b(rain, output_file, uuid)
-- 
2.43.0


From 587dbde47478413895981fbfc0f43921933741e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 20/88] fix: fd12p2nc screened only the time axis by the
 expected date

---
 cloudnetpy/instruments/fd12p.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/fd12p.py b/cloudnetpy/instruments/fd12p.py
index bce43f0..7822186 100644
--- a/cloudnetpy/instruments/fd12p.py
+++ b/cloudnetpy/instruments/fd12p.py
@@ -114,9 +114,15 @@ class FD12P(CSVFile):
             self._data[key] = ma.array(values, mask=mask)
         self._data["snowfall_amount"] = self._data["snowfall_amount"].astype(np.float32)
         if expected_date:
+            is_valid = [d.date() == expected_date for d in self._data["time"]]
             self._data["time"] = [
-                d for d in self._data["time"] if d.date() == expected_date
+                d
+                for d, valid in zip(self._data["time"], is_valid, strict=True)
+                if valid
             ]
+            for key in self._data:
+                if key != "time":
+                    self._data[key] = ma.array(self._data[key])[is_valid]
         if not self._data["time"]:
             raise ValidTimeStampError
 
-- 
2.43.0


From cb2a18c0e85faf9a9f18107ce993e2057732b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 21/88] fix: read_toa5 shared array columns between rows

---
 cloudnetpy/instruments/toa5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/toa5.py b/cloudnetpy/instruments/toa5.py
index b3836ee..35050df 100644
--- a/cloudnetpy/instruments/toa5.py
+++ b/cloudnetpy/instruments/toa5.py
@@ -32,7 +32,7 @@ def read_toa5(
                 row_template[header[: header.index("(")]] = []
 
         for data_line in reader:
-            row = row_template.copy()
+            row: dict[str, Any] = {key: [] for key in row_template}
             for key, value in zip(header_line, data_line, strict=False):
                 parsed_value: Any = value
                 if key == "TIMESTAMP":
-- 
2.43.0


From 616596b2c67cbb812cb6ccdf5a2a1e057c3b85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 22/88] fix: hatpro2nc rejected files with a lower-case
 extension

---
 cloudnetpy/instruments/hatpro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 3bf21c8..5cc2089 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -203,8 +203,8 @@ def hatpro2nc(
         date = datetime.date.fromisoformat(date)
     uuid = utils.get_uuid(uuid)
     hatpro_objects, valid_files = _get_hatpro_objects(Path(path_to_files), date)
-    is_lwp_files = any(f.suffix == ".LWP" for f in valid_files)
-    is_iwv_files = any(f.suffix == ".IWV" for f in valid_files)
+    is_lwp_files = any(f.suffix.upper() == ".LWP" for f in valid_files)
+    is_iwv_files = any(f.suffix.upper() == ".IWV" for f in valid_files)
     if not is_lwp_files:
         raise ValidTimeStampError
     if is_iwv_files:
-- 
2.43.0


From 68513a4a1392a9ffeadfb0e5da08dc40f72cf03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 23/88] fix: hatpro2nc crashed on a file with a truncated
 header

---
 cloudnetpy/instruments/rpg_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index 6594155..aa98f04 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -119,6 +119,9 @@ def _read_from_file(
     arr = np.fromfile(file, np.dtype(fields), 1 if count is None else count)
     masked_arr = ma.array(arr)
     if count is None:
+        if len(masked_arr) == 0:
+            msg = "Unexpected end of file"
+            raise ValueError(msg)
         return masked_arr[0]
     return masked_arr
 
-- 
2.43.0


From fa7e46a49d3d29c2c144e96d39ec485420b89066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 24/88] fix: radiometrics2nc crashed without any valid record

---
 cloudnetpy/instruments/radiometrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/radiometrics.py b/cloudnetpy/instruments/radiometrics.py
index ab1156b..aac2ab2 100644
--- a/cloudnetpy/instruments/radiometrics.py
+++ b/cloudnetpy/instruments/radiometrics.py
@@ -348,6 +348,8 @@ class RadiometricsCombined:
 
     def screen_time(self, expected_date: datetime.date | None) -> None:
         """Screens timestamps."""
+        if len(self.data["time"]) == 0:
+            raise ValidTimeStampError
         if expected_date is None:
             self.date = self.data["time"][0].astype(object).date()
             return
-- 
2.43.0


From fa71b369fe7668b4f794e35f5a57eae78f8c8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 25/88] fix: HATPRO files with a single record were ignored

---
 cloudnetpy/instruments/rpg_reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index aa98f04..1f69fec 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -229,7 +229,7 @@ class HatproBin:
 
     def _add_zenith_angle(self) -> None:
         ele, _azi = _decode_angles(self.data["_instrument_angles"], self.version)
-        self.data = rfn.append_fields(self.data, "zenith_angle", 90 - ele)
+        self.data = _append_field(self.data, "zenith_angle", 90 - ele)
 
 
 class HatproBinLwp(HatproBin):
@@ -322,7 +322,7 @@ class HatproBinCombined:
         elif len(files) == 2:
             f1, f2 = files
             arr = rfn.join_by("time", f1.data, f2.data, "outer")
-            arr = rfn.append_fields(
+            arr = _append_field(
                 arr,
                 "zenith_angle",
                 _combine_values(arr["zenith_angle1"], arr["zenith_angle2"]),
@@ -343,6 +343,17 @@ class HatproBinCombined:
         self.data = {field: arr[field] for field in arr.dtype.fields}
 
 
+def _append_field(
+    arr: ma.MaskedArray, name: str, values: npt.NDArray
+) -> ma.MaskedArray:
+    # Unlike rfn.append_fields, works also with a single record.
+    output = ma.empty(arr.shape, dtype=[*arr.dtype.descr, (name, values.dtype.str)])
+    for field in arr.dtype.names:
+        output[field] = arr[field]
+    output[name] = values
+    return output
+
+
 def _combine_values(arr1: ma.MaskedArray, arr2: ma.MaskedArray) -> ma.MaskedArray:
     if not ma.allequal(arr1, arr2):
         msg = "Inconsistent values"
-- 
2.43.0


From d2e8c071e42afd15a84a25425edea91913626765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 26/88] fix: missing values of single-profile radar files were
 lost when the variables were read

---
 cloudnetpy/instruments/nc_radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 25ff513..4b6eb61 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -44,7 +44,7 @@ class NcRadar(DataSource, CloudnetInstrument):
             except KeyError:
                 logging.warning("Can not find variable %s from the input file", key)
                 continue
-            array = np.array(array) if utils.isscalar(array) else array
+            array = np.array(array) if np.ndim(array) == 0 else array
             array[~np.isfinite(array)] = ma.masked
             self.append_data(array, name)
 
-- 
2.43.0


From 0507a28fa826e3ea6e9d651e99330f5637581db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 27/88] fix: Galileo clutter mask ignored its reflectivity
 condition

---
 cloudnetpy/instruments/galileo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index a91323b..696f4d3 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -7,6 +7,7 @@ from tempfile import NamedTemporaryFile, TemporaryDirectory
 from uuid import UUID
 
 import numpy as np
+from numpy import ma
 
 from cloudnetpy import concat_lib, output, utils
 from cloudnetpy.instruments.instruments import GALILEO
@@ -131,10 +132,10 @@ class Galileo(ChilboltonRadar):
     def mask_clutter(self) -> None:
         # Only strong Z values are valid
         n_low_gates = 15
-        ind = np.where(self.data["Zh"][:, :n_low_gates] < -15) and np.where(
-            self.data["ldr"][:, :n_low_gates] > -5,
+        is_clutter = (self.data["Zh"][:, :n_low_gates] < -15) & (
+            self.data["ldr"][:, :n_low_gates] > -5
         )
-        self.data["v"].mask_indices(ind)
+        self.data["v"].mask_indices(np.where(ma.filled(is_clutter, fill_value=False)))
 
     def screen_negative_altitudes(self) -> None:
         range_var = self.data["range"][:]
-- 
2.43.0


From 22147f0ea3bdf0a72043d532bab15d2e8c53d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 28/88] fix: Galileo time series were cut like profiles when
 profiles and gates are equally many

---
 cloudnetpy/instruments/galileo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index 696f4d3..fa54535 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -148,7 +148,7 @@ class Galileo(ChilboltonRadar):
         for arr in self.data.values():
             if utils.isscalar(arr.data):
                 continue
-            if arr[:].shape[-1] == range_var.shape[0]:
+            if arr.name == "range" or arr[:].ndim == 2:
                 arr.data = arr[..., valid_idx]
 
 
-- 
2.43.0


From e4d42f8614b1c867677a9a5605213671f900fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 29/88] fix: BOW-TIE profiles were neither sorted nor made
 unique

---
 cloudnetpy/instruments/bowtie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/bowtie.py b/cloudnetpy/instruments/bowtie.py
index f975927..e5cb38f 100644
--- a/cloudnetpy/instruments/bowtie.py
+++ b/cloudnetpy/instruments/bowtie.py
@@ -65,6 +65,8 @@ def bowtie2nc(
         bowtie.add_time_and_range()
         if date is not None:
             bowtie.check_date(date)
+        bowtie.sort_timestamps()
+        bowtie.remove_duplicate_timestamps()
         bowtie.add_radar_specific_variables()
         bowtie.add_site_geolocation()
         bowtie.add_height()
-- 
2.43.0


From ba0f15a64e815fb046279f0efb3a0bd47633d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 30/88] fix: MRR-PRO zenith angle kept profiles of other dates

---
 cloudnetpy/instruments/mrr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 6c9894d..ee9e9b0 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -100,13 +100,13 @@ def mrr2nc(
         with MrrPro(input_file, site_meta) as mrr:
             mrr.init_data(keymap)
             mrr.fix_units()
+            mrr.add_zenith_angle()
             mrr.date = mrr.init_date()
             if date:
                 mrr.screen_by_date(date)
             mrr.add_time_and_range()
             mrr.fix_range()
             mrr.add_site_geolocation()
-            mrr.add_zenith_angle()
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
-- 
2.43.0


From 8b3615053103cc5c1e4eeb00f186acbf6d68239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 31/88] fix: MRR-PRO profiles with a repeated timestamp were
 kept

---
 cloudnetpy/instruments/mrr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index ee9e9b0..30e6553 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -110,6 +110,7 @@ def mrr2nc(
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
+            mrr.remove_duplicate_timestamps()
         attributes = output.add_time_attribute(ATTRIBUTES, mrr.date)
         output.update_attributes(mrr.data, attributes)
         output.save_level1b(mrr, output_file, uuid)
-- 
2.43.0


From fe0efa8707ee2ecee7a56a7d29d1cae9bd937c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:36 +0000
Subject: [PATCH 32/88] fix: MRR-PRO output got the date of the first raw
 record instead of the requested one

---
 cloudnetpy/instruments/mrr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 30e6553..527f51e 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -104,6 +104,7 @@ def mrr2nc(
             mrr.date = mrr.init_date()
             if date:
                 mrr.screen_by_date(date)
+                mrr.date = date
             mrr.add_time_and_range()
             mrr.fix_range()
             mrr.add_site_geolocation()
-- 
2.43.0


From 54796be2650b26e135ec689661e29d5e0788860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 33/88] fix: rpg2nc crashed on files with a single chirp
 sequence

---
 cloudnetpy/instruments/rpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/rpg.py b/cloudnetpy/instruments/rpg.py
index 44faee6..be5db4c 100644
--- a/cloudnetpy/instruments/rpg.py
+++ b/cloudnetpy/instruments/rpg.py
@@ -272,7 +272,7 @@ def _expand_time_related_fields(objects: list[Fmcw94Bin]) -> list[Fmcw94Bin]:
             # Handle outliers in latitude and longitude (e.g. Galati 2024-02-11):
             if key in ("latitude", "longitude"):
                 arr = ma.median(arr)
-            if utils.isscalar(arr):
+            if np.ndim(arr) == 0:
                 obj.header[key] = np.repeat(arr, n_time)
             else:
                 obj.header[key] = np.tile(arr, (n_time, 1))
-- 
2.43.0


From 0581a11b692fc38fa4a7235bcee827e7d301f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 34/88] fix: CL61 depolarisation was undefined but not masked
 where p_pol is zero

---
 cloudnetpy/instruments/ceilo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilo.py b/cloudnetpy/instruments/ceilo.py
index b9520f2..d170577 100644
--- a/cloudnetpy/instruments/ceilo.py
+++ b/cloudnetpy/instruments/ceilo.py
@@ -128,7 +128,10 @@ def ceilo2nc(
             ceilo_obj.data["beta"] = ma.masked_where(mask, ceilo_obj.data["beta_raw"])
             ceilo_obj.data["beta"][ceilo_obj.data["beta"] <= 0] = ma.masked
             if "depolarisation" in ceilo_obj.data:
-                ceilo_obj.data["depolarisation"].mask = ceilo_obj.data["beta"].mask
+                ceilo_obj.data["depolarisation"] = ma.masked_where(
+                    ma.getmaskarray(ceilo_obj.data["beta"]),
+                    ceilo_obj.data["depolarisation"],
+                )
     ceilo_obj.screen_depol()
     ceilo_obj.screen_invalid_values()
     ceilo_obj.screen_sunbeam()
-- 
2.43.0


From 8f90f62a20a864a3f7b313bb99efcc1ff78cf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 35/88] fix: PollyXT channel of one file changed the wavelength
 of all later conversions

---
 cloudnetpy/instruments/pollyxt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 51247e5..6812008 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -1,5 +1,6 @@
 """Module for reading / converting pollyxt data."""
 
+import copy
 import datetime
 import glob
 import logging
@@ -82,7 +83,7 @@ class PollyXt(Ceilometer):
         super().__init__()
         self.site_meta = site_meta
         self.expected_date = expected_date
-        self.instrument = instruments.POLLYXT
+        self.instrument = copy.copy(instruments.POLLYXT)
 
     def mask_nan_values(self) -> None:
         for array in self.data.values():
-- 
2.43.0


From a322ebd5404ad51aa2b6bd5fd92d14d98864d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 36/88] fix: PollyXT zenith angle of site_meta was ignored

---
 cloudnetpy/instruments/pollyxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 6812008..1c6ba7c 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -104,7 +104,7 @@ class PollyXt(Ceilometer):
 
     def fetch_zenith_angle(self) -> None:
         default = 5
-        self.data["zenith_angle"] = float(self.metadata.get("zenith_angle", default))
+        self.data["zenith_angle"] = float(self.site_meta.get("zenith_angle", default))
 
     def fetch_data(
         self, input_data: str | PathLike | Sequence[str | PathLike]
-- 
2.43.0


From a97ee4ec44275e22b4a3937f6581bd4a83f95c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 37/88] fix: PollyXT range was cut when its length equals the
 number of profiles

---
 cloudnetpy/instruments/pollyxt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 1c6ba7c..c2fe75c 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -185,6 +185,8 @@ class PollyXt(Ceilometer):
     def screen_completely_masked_profiles(self) -> None:
         valid_ind = ~np.all(np.ma.getmaskarray(self.data["beta_raw"]), axis=1)
         for key, item in self.data.items():
+            if key in ("range", "height"):
+                continue
             if isinstance(item, np.ndarray) and item.shape[0] == len(valid_ind):
                 self.data[key] = item[valid_ind]
 
-- 
2.43.0


From 35713f443b8be1c501be099d0114416f755f638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 38/88] fix: lidar range was cut when its length equals the
 number of profiles

---
 cloudnetpy/instruments/ceilometer.py | 3 +++
 cloudnetpy/instruments/vaisala.py    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 60de970..0a5c9c0 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -100,7 +100,10 @@ class Ceilometer:
             msg = "Time array missing from data"
             raise ValidTimeStampError(msg)
         if self.expected_date is not None:
+            range_los = self.data.get("range")
             self.data = utils.screen_by_time(self.data, epoch, self.expected_date)
+            if range_los is not None:
+                self.data["range"] = range_los
         self.date = utils.seconds2date(self.data["time"][0], epoch=epoch).date()
         self.data["time"] = utils.seconds2hours(self.data["time"])
 
diff --git a/cloudnetpy/instruments/vaisala.py b/cloudnetpy/instruments/vaisala.py
index 2c1f4bb..57fd911 100644
--- a/cloudnetpy/instruments/vaisala.py
+++ b/cloudnetpy/instruments/vaisala.py
@@ -73,6 +73,8 @@ class VaisalaCeilo(Ceilometer):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
         for key, array in self.data.items():
+            if key == "range":
+                continue
             if hasattr(array, "shape") and array.shape[:1] == (n_time,):
                 self.data[key] = self.data[key][valid_indices]
 
-- 
2.43.0


From f3eaba1de61563a2a2e7cd4871584742f774bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 39/88] fix: lidar file without profiles was written when all
 profiles are sunbeams

---
 cloudnetpy/instruments/ceilometer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 0a5c9c0..19a09b7 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -154,6 +154,9 @@ class Ceilometer:
         reshaped = is_data[:, : bin_size * n_bins].reshape(n_profiles, n_bins, bin_size)
 
         valid_profiles = np.any(reshaped, axis=2).sum(axis=1) < 15
+        if not np.any(valid_profiles):
+            msg = "All profiles screened"
+            raise ValidTimeStampError(msg)
 
         for key, value in self.data.items():
             if key == "time" or (isinstance(value, np.ndarray) and value.ndim == 2):
-- 
2.43.0


From 8b0c98c159767f4fc3aad5d6d3822c9396c79573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 40/88] fix: classification crashed on categorize files without
 all attenuation fields

---
 cloudnetpy/products/classification.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 0b31cae..2a737fc 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -180,7 +180,8 @@ def _get_radar_attenuation_status(
 def _get_attenuation_classes(data_source: DataSource) -> AttenuationClass:
     def _read_atten(key: str) -> npt.NDArray:
         if key not in data_source.dataset.variables:
-            return np.zeros(data_source.time.shape)
+            shape = data_source.getvar("quality_bits").shape
+            return np.zeros(shape)
         data = data_source.getvar(key)
         if isinstance(data, ma.MaskedArray):
             return data.filled(0)
-- 
2.43.0


From 9f8f345f3b6f0a21357ba3b2fcfea80ef4174f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 41/88] fix: pixels with radar signal were classified as not
 having it above severe attenuation

---
 cloudnetpy/products/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 2a737fc..9748a5b 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -173,7 +173,7 @@ def _get_radar_attenuation_status(
     severity[~is_corrected & is_attenuated & bits.radar] = AttStatus.UNCORRECTED
     is_severe = severity == AttStatus.SEVERE
     above_severe = utils.ffill(is_severe)
-    severity[above_severe & ~is_severe] = AttStatus.UNDETECTED
+    severity[above_severe & ~is_severe & ~bits.radar] = AttStatus.UNDETECTED
     return severity
 
 
-- 
2.43.0


From 65c18d757475edb011a1ffdc960a4deaeecfff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 42/88] fix: cloud top status of cloud-free profiles was
 undefined

---
 cloudnetpy/products/classification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 9748a5b..c745a9b 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -155,6 +155,7 @@ def _get_cloud_top_height_status(
     status[att_at_top == AttStatus.SEVERE] = TopStatus.SEVERE_ATT
     status[att_at_top == AttStatus.UNCORRECTED] = TopStatus.UNCORR_ATT
     status[tops >= height[-1]] = TopStatus.ABOVE_RANGE
+    status[ma.getmaskarray(tops)] = TopStatus.RELIABLE
     return status
 
 
-- 
2.43.0


From bb2e276d870e49417914e981ea18952a84906efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 43/88] fix: scaled droplet effective radius was wrong in
 layers with varying gate length

---
 cloudnetpy/products/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 68e479c..527c3eb 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -167,7 +167,7 @@ class DerSource(DataSource):
             if Z[ind_t, idx_layer].mask.all():
                 continue
 
-            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer])) * path_lengths[idx_layer]
+            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer]) * path_lengths[idx_layer])
 
             # der formula (5)
             A = (Z[ind_t, idx_layer] / params.N) ** (1 / 6)
-- 
2.43.0


From a21b4d335fe9f185c6dace764b0d9c490d047d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 44/88] fix: lwc crashed when a lidar-only liquid cloud starts
 at the topmost gate

---
 cloudnetpy/products/lwc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 80de7fc..bb19afa 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -227,6 +227,8 @@ class CloudAdjustor:
         self.status[time_ind, alt_indices] = 2
 
     def _adjust_lwc(self, time_ind: int, base_ind: int) -> None:
+        if self._out_of_bound(base_ind):
+            return
         lwc_base = self.lwc_adiabatic[time_ind, base_ind]
         distance_from_base = 1
         while True:
-- 
2.43.0


From 4222e72a9cb53b8eb7dd9e0257a8e8fa92a0caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 45/88] fix: scaled effective radius had bogus values where
 liquid water path is zero

---
 cloudnetpy/products/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 527c3eb..d47b1eb 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -141,7 +141,7 @@ class DerSource(DataSource):
         dZ = ma.abs(utils.db2lin(params.ddBZ)) * Z
 
         lwp = self.getvar("lwp")  # kg m-2
-        lwp[lwp < 0] = 0
+        lwp = ma.masked_less_equal(lwp, 0)
 
         der = np.zeros(Z.shape)
         der_error = np.zeros(Z.shape)
-- 
2.43.0


From 93a487fccacf0e613a01cd4b710f6e2599663399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 46/88] fix: categorize crashed when the melting temperature
 range reaches the topmost gate

---
 cloudnetpy/categorize/melting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/melting.py b/cloudnetpy/categorize/melting.py
index 098723d..72ab0af 100644
--- a/cloudnetpy/categorize/melting.py
+++ b/cloudnetpy/categorize/melting.py
@@ -58,7 +58,7 @@ def find_melting_layer(obs: ClassData, *, smooth: bool = True) -> npt.NDArray:
     if hasattr(obs, "ldr"):
         # Required for peak detection
         diffu = ma.array(np.diff(obs.ldr, axis=1))
-        ldr_diff = diffu.filled(0)
+        ldr_diff = np.pad(diffu.filled(0), ((0, 0), (0, 1)))
 
     t_range = _find_model_temperature_range(obs.model_type)
 
-- 
2.43.0


From 2aadd77513a1274eeb8a10bcdd96692a0a85e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 47/88] fix: categorize crashed when the whole radar range is
 above freezing

---
 cloudnetpy/categorize/droplet.py  | 5 ++++-
 cloudnetpy/categorize/freezing.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/droplet.py b/cloudnetpy/categorize/droplet.py
index d310967..6599746 100644
--- a/cloudnetpy/categorize/droplet.py
+++ b/cloudnetpy/categorize/droplet.py
@@ -45,9 +45,12 @@ def correct_liquid_top(
 
 
 def _find_ind_above_top(is_freezing_from_peak: npt.NDArray, top_above: int) -> int:
+    n_gates = len(is_freezing_from_peak)
+    if not np.any(is_freezing_from_peak):
+        return n_gates - 1
     first_point_below_zero = np.where(is_freezing_from_peak)[0][0]
     ind = first_point_below_zero + top_above
-    return min(len(is_freezing_from_peak) - 1, ind)
+    return min(n_gates - 1, ind)
 
 
 def find_liquid(
diff --git a/cloudnetpy/categorize/freezing.py b/cloudnetpy/categorize/freezing.py
index ed87d86..4dc5e31 100644
--- a/cloudnetpy/categorize/freezing.py
+++ b/cloudnetpy/categorize/freezing.py
@@ -90,11 +90,16 @@ def find_t0_alt(temperature: npt.NDArray, height: npt.NDArray) -> npt.NDArray:
 
     Returns:
         1-D array denoting altitudes where the temperature drops below 0 deg C.
+        Profiles without sub-zero temperatures get an altitude above the grid.
 
     """
     alt: npt.NDArray = np.array([])
     for prof in temperature:
-        ind = np.where(prof < T0)[0][0]
+        is_below_zero = prof < T0
+        if not np.any(is_below_zero):
+            alt = np.append(alt, 2 * height[-1] - height[-2])
+            continue
+        ind = np.where(is_below_zero)[0][0]
         if ind == 0:
             alt = np.append(alt, height[0])
         else:
-- 
2.43.0


From cbc1ac9683363107a26c44b159fe35e7550f0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 48/88] fix: categorize crashed when radar echoes are limited
 to the topmost gates

---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 1631036..1a39a30 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -107,7 +107,7 @@ class ClassData:
 
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
         first_gate_with_data = np.argmin(self.z.mask.all(axis=0))
-        gate_number = first_gate_with_data + 3
+        gate_number = min(first_gate_with_data + 3, self.z.shape[1] - 1)
         threshold = {"z": 3, "v": 0, "ldr": -15}
         z = self.z[:, gate_number]
         v = self.v[:, gate_number]
-- 
2.43.0


From 9254ac3827af1eb3632f9783dd12bc7dea4f9d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 49/88] fix: categorize crashed on radar files with pulse
 repetition frequency only

---
 cloudnetpy/categorize/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index 3afddb2..dbd1a7e 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -54,7 +54,7 @@ class Radar(DataSource):
 
         """
         bad_time_indices = []
-        for key, array in self.data.items():
+        for key, array in list(self.data.items()):
             match key:
                 case "ldr" | "sldr" | "Z":
                     array.db2lin()
-- 
2.43.0


From acae10449a2f315ab33ab37de7e6ec9208b577c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 50/88] fix: categorize crashed on lidar files with less than
 two profiles of signal

---
 cloudnetpy/categorize/lidar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/categorize/lidar.py b/cloudnetpy/categorize/lidar.py
index 4ad9066..33487ef 100644
--- a/cloudnetpy/categorize/lidar.py
+++ b/cloudnetpy/categorize/lidar.py
@@ -38,6 +38,9 @@ class Lidar(DataSource):
         # Interpolate beta to new grid but ignore profiles that are completely masked
         beta = self.data["beta"][:]
         indices = [ind for ind, b in enumerate(beta) if ma.all(b) is not ma.masked]
+        if len(indices) < 2:
+            self.data["beta"].data = ma.masked_all((len(time_new), len(height_new)))
+            return list(range(len(time_new)))
         beta_interp = interpolate_2d_nearest(
             self.time[indices],
             self.height,
-- 
2.43.0


From 8783e0a7ec8f6d10d1e535082715800b8fbea1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 51/88] fix: clutter was reported in rainy profiles

---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 1a39a30..b9c6e86 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -103,7 +103,7 @@ class ClassData:
             mask = ma.getmaskarray(self.tw)
             first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
             liquid_rain_only = self.tw[:, first_valid_ind] > T0 + 5
-        return is_rain & liquid_rain_only
+        return is_rain.astype(bool) & liquid_rain_only
 
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
         first_gate_with_data = np.argmin(self.z.mask.all(axis=0))
-- 
2.43.0


From b16ed132482b450d5a8e6382b0e4d2d04e0dc044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 52/88] fix: rain detection was undefined where the disdrometer
 gives no precipitation type

---
 cloudnetpy/categorize/containers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index b9c6e86..1923db5 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -93,16 +93,20 @@ class ClassData:
         ind = ~rain_from_disdrometer.mask
         is_rain[ind] = rain_from_disdrometer[ind]
         # Filter out snowfall:
+        mask = ma.getmaskarray(self.tw)
+        first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
+        liquid_rain_only = self.tw[:, first_valid_ind] > T0 + 5
         if (
             self.data.disdrometer is not None
             and "synop_WaWa" in self.data.disdrometer.data
         ):
             wawa = self.data.disdrometer.data["synop_WaWa"].data
-            liquid_rain_only = (wawa >= 57) & (wawa <= 68)
-        else:
-            mask = ma.getmaskarray(self.tw)
-            first_valid_ind = np.nonzero(np.all(~mask, axis=0))[0][0]
-            liquid_rain_only = self.tw[:, first_valid_ind] > T0 + 5
+            liquid_rain_only = ma.where(
+                ma.getmaskarray(wawa),
+                liquid_rain_only,
+                (wawa >= 57) & (wawa <= 68),
+            )
+        liquid_rain_only = ma.filled(liquid_rain_only, False)
         return is_rain.astype(bool) & liquid_rain_only
 
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
-- 
2.43.0


From e3e93ff8396b76e3cb9501decb4a1958050fc7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 53/88] fix: velocity-based melting layer depended on values
 beneath the mask

---
 cloudnetpy/categorize/melting.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/categorize/melting.py b/cloudnetpy/categorize/melting.py
index 72ab0af..7012c0e 100644
--- a/cloudnetpy/categorize/melting.py
+++ b/cloudnetpy/categorize/melting.py
@@ -130,11 +130,8 @@ def _find_melting_layer_from_v(
     width_prof: npt.NDArray | None,
     height: npt.NDArray,
 ) -> npt.NDArray | None:
-    v = np.copy(v_prof[:-1])
-    v_diff = np.diff(v_prof)
-    v[v_diff < 0] = 0
-    v[v_diff > 0] = 1
-    n_increasing = utils.cumsumr(v)
+    is_increasing = ma.filled(np.diff(v_prof) > 0, False)
+    n_increasing = utils.cumsumr(is_increasing)
     try:
         top = int(np.argmax(n_increasing))
         base = np.where(n_increasing[:top] == 0)[0][-1]
-- 
2.43.0


From 3bcc62fccb5c2e91ff9b2b64ac2e003cb39bd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 54/88] fix: insect filtering around melting layer wrapped
 around the day and marked pixels without signal as falling

---
 cloudnetpy/categorize/classify.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index eeb39cf..15b3f1a 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -270,24 +270,23 @@ def _filter_insects(bits: CategoryBits) -> None:
     # remove around melting layer:
     original_insects = np.copy(is_insects)
     n_gates = 5
+    n_time, n_height = is_insects.shape
     for x, y in zip(*np.where(is_melting_layer), strict=True):
-        try:
-            # change insects to drizzle below melting layer pixel
-            ind1 = np.arange(y - n_gates, y)
-            ind11 = np.where(original_insects[x, ind1])[0]
-            n_drizzle = sum(is_falling[x, :y])
-            if n_drizzle > 5:
-                is_falling[x, ind1[ind11]] = True
-                is_insects[x, ind1[ind11]] = False
-            else:
-                continue
-            # change insects on the right and left of melting layer pixel to drizzle
-            ind1 = np.arange(x - n_gates, x + n_gates + 1)
-            ind11 = np.where(original_insects[ind1, y])[0]
-            is_falling[ind1[ind11], y - 1 : y + 2] = True
-            is_insects[ind1[ind11], y - 1 : y + 2] = False
-        except IndexError:
+        # change insects to drizzle below melting layer pixel
+        ind1 = np.arange(max(y - n_gates, 0), y)
+        ind11 = np.where(original_insects[x, ind1])[0]
+        n_drizzle = sum(is_falling[x, :y])
+        if n_drizzle > 5:
+            is_falling[x, ind1[ind11]] = True
+            is_insects[x, ind1[ind11]] = False
+        else:
             continue
+        # change insects on the right and left of melting layer pixel to drizzle
+        ind1 = np.arange(max(x - n_gates, 0), min(x + n_gates + 1, n_time))
+        ind11 = np.where(original_insects[ind1, y])[0]
+        window = np.ix_(ind1[ind11], np.arange(y - 1, min(y + 2, n_height)))
+        is_falling[window] |= is_insects[window]
+        is_insects[window] = False
     bits.falling = is_falling
     bits.insect = is_insects
 
-- 
2.43.0


From 72ba9b7aadca1258a27f2a97a1d3df6d067aebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 55/88] fix: rain attenuation was reported as corrected where
 the rainfall rate is missing

---
 cloudnetpy/categorize/attenuations/rain_attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/attenuations/rain_attenuation.py b/cloudnetpy/categorize/attenuations/rain_attenuation.py
index 9ae6ced..47825cc 100644
--- a/cloudnetpy/categorize/attenuations/rain_attenuation.py
+++ b/cloudnetpy/categorize/attenuations/rain_attenuation.py
@@ -48,7 +48,7 @@ def calc_rain_attenuation(
         amount=two_way_attenuation,
         error=two_way_attenuation * 0.2,
         attenuated=affected_region,
-        uncorrected=np.zeros_like(affected_region, dtype=bool),
+        uncorrected=affected_region & ma.getmaskarray(specific_attenuation),
     )
 
 
-- 
2.43.0


From 15fcdcf54af80ff222801d291611cd1f99b5b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 56/88] fix: gas attenuation uncertainty was missing from radar
 reflectivity error

---
 cloudnetpy/categorize/radar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index dbd1a7e..c3cb5e5 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -273,6 +273,7 @@ class Radar(DataSource):
 
             z_error = utils.l2norm(
                 z_precision,
+                attenuations.gas.error.filled(0),
                 attenuations.liquid.error.filled(0),
                 attenuations.rain.error.filled(0),
                 attenuations.melting.error.filled(0),
-- 
2.43.0


From eb1430cf3bdd0b684e2035f4f06f83936b0ccd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 57/88] fix: drizzle shape parameter was masked in retrieved
 pixels where it is zero

---
 cloudnetpy/products/drizzle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/drizzle.py b/cloudnetpy/products/drizzle.py
index bf26ab2..b6c3124 100644
--- a/cloudnetpy/products/drizzle.py
+++ b/cloudnetpy/products/drizzle.py
@@ -197,10 +197,12 @@ def _screen_rain(results: dict, classification: DrizzleClassification) -> dict:
 def _append_data(drizzle_data: DrizzleSource, results: dict) -> None:
     """Save retrieved fields to the drizzle_data object."""
     for key, value in results.items():
-        if key != "drizzle_retrieval_status":
-            arr = ma.masked_where(value == 0, value)
-        else:
+        if key == "drizzle_retrieval_status":
             arr = value
+        elif key in ("mu", "v_air"):  # Zero is a valid value
+            arr = ma.masked_where(results["Do"] == 0, value)
+        else:
+            arr = ma.masked_where(value == 0, value)
         drizzle_data.append_data(arr, key)
 
 
-- 
2.43.0


From 0a59836d54a3aa2d356a74df5bf03ceac770425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 58/88] fix: error of drizzle diameter was overwritten by error
 of drizzle velocity for tiny droplets

---
 cloudnetpy/products/drizzle_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_error.py b/cloudnetpy/products/drizzle_error.py
index e88b118..b96a7fe 100644
--- a/cloudnetpy/products/drizzle_error.py
+++ b/cloudnetpy/products/drizzle_error.py
@@ -112,7 +112,7 @@ def _add_supplementary_errors(
         return _stack_errors(n_error, drizzle_indices)
 
     def _calc_v_error() -> ma.MaskedArray:
-        error = results["Do_error"]
+        error = results["Do_error"].copy()
         error[drizzle_indices["tiny"]] *= error[drizzle_indices["tiny"]]
         return error
 
-- 
2.43.0


From e9df591d4cd2c0de45768a40563f5db933383433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 59/88] fix: drizzle status reported a retrieval where the
 velocity deviation is missing

---
 cloudnetpy/products/drizzle_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_tools.py b/cloudnetpy/products/drizzle_tools.py
index 70ff2e1..3f81580 100644
--- a/cloudnetpy/products/drizzle_tools.py
+++ b/cloudnetpy/products/drizzle_tools.py
@@ -109,7 +109,7 @@ class DrizzleClassification(ProductClassification):
     @staticmethod
     def _find_v_sigma(cat_file: str | PathLike) -> npt.NDArray:
         v_sigma = product_tools.read_nc_field(cat_file, "v_sigma")
-        return np.isfinite(v_sigma)
+        return ma.filled(np.isfinite(v_sigma), fill_value=False)
 
     def _find_warm_liquid(self) -> npt.NDArray:
         return self.category_bits.droplet & ~self.category_bits.freezing
-- 
2.43.0


From 6c03b5ffea900b722afc9186c62a6a75b5db3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 60/88] fix: lidar dissipation rate failed when no wind or
 velocity was missing

---
 cloudnetpy/products/epsilon_lidar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index b4c28f4..d584a30 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.typing as npt
 import scipy.constants
 from doppy.product.turbulence import HorizontalWind, Options, Turbulence, VerticalWind
+from numpy import ma
 from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 
 import cloudnetpy
@@ -129,8 +130,8 @@ def _horizontal_wind_from_doppler_lidar_file(
         height = np.array(nc["height"][:].data, dtype=np.float64)
         uwind = np.array(nc["uwind"][:].data, dtype=np.float64)
         vwind = np.array(nc["vwind"][:].data, dtype=np.float64)
-        umask = np.array(nc["uwind"][:].mask, dtype=np.bool_)
-        vmask = np.array(nc["vwind"][:].mask, dtype=np.bool_)
+        umask = ma.getmaskarray(nc["uwind"][:])
+        vmask = ma.getmaskarray(nc["vwind"][:])
         V = np.sqrt(uwind**2 + vwind**2)
         mask = umask | vmask
         if np.all(mask):
@@ -191,7 +192,7 @@ def _vertical_wind_from_doppler_lidar_file(
         time = _datetime64_from_nc_var(nc["time"])
         height = np.array(nc["height"][:].data, dtype=np.float64)
         w = np.array(nc["v"][:].data, dtype=np.float64)
-        mask = np.array(nc["v"][:].mask, dtype=np.bool_)
+        mask = ma.getmaskarray(nc["v"][:])
     if isinstance(mask, np.ndarray) and mask.any():
         w[mask] = np.nan
 
-- 
2.43.0


From 6608c9ca543e0597bb510c2ccbcd357800dcbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 61/88] fix: cloud fraction of model grid boxes without
 observations was zero instead of masked

---
 .../model_evaluation/products/grid_methods.py      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index 364209d..425d88a 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -63,10 +63,10 @@ class ProductGrid:
                 ind = np.outer(x_ind, y_ind)
                 ind_avd = np.outer(x_ind_adv, y_ind)
                 if self._obs_obj.product == "cf":
+                    # Without observations in the window the cell stays masked.
                     data = self._reshape_data_to_window(ind, x_ind, y_ind)
-                    if data is None:
-                        continue
-                    product_dict = self._regrid_cf(product_dict, i, j, data)
+                    if data is not None:
+                        product_dict = self._regrid_cf(product_dict, i, j, data)
                     data_adv = self._reshape_data_to_window(ind_avd, x_ind_adv, y_ind)
                     # No advection window data (e.g. masked model wind collapses
                     # the window); leave the cell unfilled like the standard grid.
@@ -91,12 +91,12 @@ class ProductGrid:
 
     def _cf_method_storage(self) -> tuple[dict, dict]:
         cf_dict = {
-            "cf_V": ma.zeros(self._model_height.shape),
-            "cf_A": ma.zeros(self._model_height.shape),
+            "cf_V": ma.masked_all(self._model_height.shape),
+            "cf_A": ma.masked_all(self._model_height.shape),
         }
         cf_adv_dict = {
-            "cf_V_adv": ma.zeros(self._model_height.shape),
-            "cf_A_adv": ma.zeros(self._model_height.shape),
+            "cf_V_adv": ma.masked_all(self._model_height.shape),
+            "cf_A_adv": ma.masked_all(self._model_height.shape),
         }
         return cf_dict, cf_adv_dict
 
-- 
2.43.0


From e7a0ec033d29ca944841c3e0397cf6855f9a40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 62/88] fix: wind shear of the cirrus filter was computed along
 time instead of height

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 906a1cc..4e50727 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -157,7 +157,10 @@ class AdvanceProductMethods:
         v = self._model_obj.getvar("vwind")
         u = self.remove_extra_levels(u)
         v = self.remove_extra_levels(v)
-        w_shear = self.calculate_wind_shear(self._model_obj.wind, u, v, height)
+        # Model fields are (time, level), the shear is calculated along first axis.
+        w_shear = self.calculate_wind_shear(
+            self._model_obj.wind.T, u.T, v.T, height.T
+        ).T
         return self.calculate_variance_iwc(w_shear, ice_ind)
 
     def calculate_variance_iwc(
-- 
2.43.0


From 09ab6ace7707b6e827435b0646e84e9e5f7457c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 63/88] fix: level-3 file could not be written if the model
 resolution was given for each time

---
 cloudnetpy/model_evaluation/products/model_products.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/model_evaluation/products/model_products.py b/cloudnetpy/model_evaluation/products/model_products.py
index 2e93476..3da2704 100644
--- a/cloudnetpy/model_evaluation/products/model_products.py
+++ b/cloudnetpy/model_evaluation/products/model_products.py
@@ -56,6 +56,7 @@ class ModelManager(DataSource):
         self.date: list = []
         self.wind = self._calculate_wind_speed()
         self.resolution_h = self._get_horizontal_resolution()
+        self.append_data(self.resolution_h, "horizontal_resolution")
 
     def _read_number_of_levels(self) -> int:
         """Number of vertical levels below the altitude limit.
-- 
2.43.0


From 7fad563071676220c98246d8a3f24c61b95463fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 64/88] fix: cirrus-filtered cloud fraction was NaN where the
 model wind is masked

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 4e50727..ddb8036 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -181,7 +181,7 @@ class AdvanceProductMethods:
     ) -> npt.NDArray:
         grand_winds = []
         for w in (wind, u, v):
-            grad_w = np.zeros(w.shape)
+            grad_w = ma.zeros(w.shape)
             grad_w[0, :] = (w[1, :] - w[0, :]) / (height[1, :] - height[0, :])
             grad_w[1:-1, :] = (w[2:, :] - w[:-2, :]) / (height[2:, :] - height[:-2, :])
             grad_w[-1, :] = (w[-1, :] - w[-2, :]) / (height[-1, :] - height[-2, :])
-- 
2.43.0


From 8edddec5bca6811aeed7fdcb304a37e0a9a88f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 65/88] fix: evaluation statistics changed the fields they were
 given, so that later statistics of the same model field differed

---
 cloudnetpy/model_evaluation/plotting/plotting.py             | 4 ++--
 .../model_evaluation/statistics/statistical_methods.py       | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 936b98b..cb0ff9c 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -287,8 +287,8 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
                         ax[j - 1],
                         statistics,
                         day_stat,
-                        model_data,
-                        data,
+                        day_stat.model_data,
+                        day_stat.observation_data,
                         (x, y),
                         variable_info,
                         title=config.title,
diff --git a/cloudnetpy/model_evaluation/statistics/statistical_methods.py b/cloudnetpy/model_evaluation/statistics/statistical_methods.py
index e29e1e3..f4ce9dc 100644
--- a/cloudnetpy/model_evaluation/statistics/statistical_methods.py
+++ b/cloudnetpy/model_evaluation/statistics/statistical_methods.py
@@ -47,8 +47,9 @@ class DayStatistics:
     ) -> None:
         self.method = method
         self.product = product_info
-        self.model_data = model
-        self.observation_data = observation
+        # The methods mask values in place, the given arrays stay as they are.
+        self.model_data = ma.array(model, copy=True)
+        self.observation_data = ma.array(observation, copy=True)
         self._generate_day_statistics()
 
     def _get_method_attr(self) -> tuple[Callable, tuple]:
-- 
2.43.0


From 44eceb9f6d31c57a1e5b37b0db767d23a46b730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 66/88] fix: weather radar conversion without profiles of the
 expected date did not raise ValidTimeStampError

---
 cloudnetpy/instruments/weather_radar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/weather_radar.py b/cloudnetpy/instruments/weather_radar.py
index 059f78a..fa68c3e 100644
--- a/cloudnetpy/instruments/weather_radar.py
+++ b/cloudnetpy/instruments/weather_radar.py
@@ -106,6 +106,8 @@ class WeatherRadar(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From 2e19f10b630958fe6800576a73398b64564e2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 67/88] fix: smoothed plots showed values beneath the mask and
 mixed them with valid values

---
 cloudnetpy/plotting/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index 32c91e6..3a22af2 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -752,8 +752,11 @@ class Plot2D(Plot):
                 figure_data.time, alt * 1e3, sigma_minutes=duration, sigma_metres=0
             )
             valid_time_ind = ~np.all(self._data.mask, axis=1)
-            smoothed_data = uniform_filter(self._data[valid_time_ind, :], sigma_units)
-            self._data[valid_time_ind, :] = smoothed_data
+            data = self._data[valid_time_ind, :]
+            mask = ma.getmaskarray(data)
+            weights = uniform_filter((~mask).astype(float), sigma_units)
+            smoothed_data = uniform_filter(data.filled(0), sigma_units)
+            self._data[valid_time_ind, :] = ma.array(smoothed_data, mask=mask) / weights
 
         if self._data.mask.all() and figure_data.options.raise_on_empty:
             msg = "All data is masked"
-- 
2.43.0


From 3da10eda09aa53ddab3d175f89cb5f30cb1135f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 68/88] fix: statistic figures of volume cloud fraction and
 advection time were titled as area and standard time

---
 cloudnetpy/model_evaluation/plotting/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index cb0ff9c..0615552 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -272,8 +272,7 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
                     "aerror" if config.product == "cf" and stat == "error" else stat
                 )
                 if j > 0:
-                    name_new = ""
-                    name_new = _get_stat_titles(name_new, config.product, variable_info)
+                    name_new = _get_stat_titles(name, config.product, variable_info)
                     day_stat = DayStatistics(
                         statistics,
                         [config.product, config.model_name, name_new],
-- 
2.43.0


From e3d4b1175cf10564ce997876e98cf07e8b91670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 69/88] fix: histogram and profile figures of model evaluation
 were left open, and failed for an odd number of observations

---
 .../model_evaluation/plotting/plotting.py     | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 0615552..854c2eb 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -541,47 +541,46 @@ def initialize_figure(n_subplots: int, stat: str = "") -> tuple[Figure, list[Axe
     """Set up fig and ax object, if subplot."""
     if n_subplots <= 0:
         n_subplots = 1
-    fig, axes = plt.subplots(n_subplots, 1, figsize=(16, 4 + (n_subplots - 1) * 4.8))
-    fig.subplots_adjust(left=0.06, right=0.73, hspace=0.31)
-    if stat == "area":
-        fig.subplots_adjust(left=0.06, right=0.73, hspace=0.33)
-    if stat in ("hist", "vertical"):
-        fig, axes = plt.subplots(1, 1, figsize=(6, 10))
-        fig.subplots_adjust(top=0.85, left=0.08, right=0.75)
-        if n_subplots > 1:
-            fig, axes = plt.subplots(
-                int(n_subplots / 2),
-                2,
-                figsize=(
-                    12 + (n_subplots - (n_subplots / 2 + 1)) * 1,
-                    6 + (n_subplots - (n_subplots / 2 + 1)) * 6,
-                ),
-            )
-            fig.subplots_adjust(
-                top=0.82 + (n_subplots - (n_subplots / 2 + 1)) * 0.025,
-                bottom=0.1,
-                left=0.08,
-                right=0.75,
-                hspace=0.2,
-            )
+    n_rows = (n_subplots + 1) // 2
+    extra = n_subplots - (n_subplots / 2 + 1)
     if stat == "vertical" and n_subplots > 1:
         fig, axes = plt.subplots(
-            int(n_subplots / 2),
-            2,
-            figsize=(
-                12 + (n_subplots - (n_subplots / 2 + 1)) * 1.2,
-                7 + (n_subplots - (n_subplots / 2 + 1)) * 7.3,
-            ),
+            n_rows, 2, figsize=(12 + extra * 1.2, 7 + extra * 7.3), squeeze=False
         )
         fig.subplots_adjust(
-            top=0.842 + (n_subplots - (n_subplots / 2 + 1)) * 0.012,
+            top=0.842 + extra * 0.012,
             bottom=0.1,
             left=0.08,
             right=0.75,
             hspace=0.16,
         )
-    axes_list = [axes] if isinstance(axes, Axes) else axes.flatten().tolist()
-    return fig, axes_list
+    elif stat == "hist" and n_subplots > 1:
+        fig, axes = plt.subplots(
+            n_rows, 2, figsize=(12 + extra * 1, 6 + extra * 6), squeeze=False
+        )
+        fig.subplots_adjust(
+            top=0.82 + extra * 0.025,
+            bottom=0.1,
+            left=0.08,
+            right=0.75,
+            hspace=0.2,
+        )
+    elif stat in ("hist", "vertical"):
+        fig, axes = plt.subplots(1, 1, figsize=(6, 10), squeeze=False)
+        fig.subplots_adjust(top=0.85, left=0.08, right=0.75)
+    else:
+        fig, axes = plt.subplots(
+            n_subplots,
+            1,
+            figsize=(16, 4 + (n_subplots - 1) * 4.8),
+            squeeze=False,
+        )
+        hspace = 0.33 if stat == "area" else 0.31
+        fig.subplots_adjust(left=0.06, right=0.73, hspace=hspace)
+    axes_list = axes.flatten().tolist()
+    for ax in axes_list[n_subplots:]:
+        fig.delaxes(ax)
+    return fig, axes_list[:n_subplots]
 
 
 def init_colorbar(plot: ColorizingArtist, axis: Axes) -> Colorbar:
-- 
2.43.0


From 975d00a0e3e9fa50a81ed01357100988e3dec44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 70/88] fix: an observation drawn alone in model evaluation was
 titled as the model

---
 cloudnetpy/model_evaluation/plotting/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 854c2eb..dd012ea 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -18,6 +18,7 @@ from mpl_toolkits.axes_grid1 import make_axes_locatable
 from numpy import ma
 
 import cloudnetpy.model_evaluation.plotting.plot_tools as p_tools
+from cloudnetpy.model_evaluation.model_metadata import MODEL_PREFIX
 from cloudnetpy.model_evaluation.plotting.plot_meta import ATTRIBUTES, PlotMeta
 from cloudnetpy.model_evaluation.statistics.statistical_methods import DayStatistics
 from cloudnetpy.plotting.plotting import (
@@ -175,7 +176,7 @@ def get_group_plots(config: L3PlotConfig, names: list) -> tuple:
         set_xax(ax[j], include_xlimits=config.include_xlimits)
         if config.title:
             _set_title(ax[j], name, product, variable_info)
-        if j == 0 and config.title:
+        if name.startswith(MODEL_PREFIX) and config.title:
             _set_title(ax[j], config.model, product, variable_info, config.model_name)
         data, x, y = p_tools.read_data_characters(config.nc_file, name)
         plot_colormesh(ax[j], data, (x, y), variable_info)
-- 
2.43.0


From fbae17d517e537bd0d197cc564cf081b0bb25bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 71/88] fix: area figures of model evaluation drew common area
 in the colour of observations when the model had no area of its own

---
 cloudnetpy/model_evaluation/plotting/plotting.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index dd012ea..b53fea9 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -424,17 +424,10 @@ def plot_data_area(
 
     colors = mpl.colormaps["YlGnBu"]
     newcolors = colors(np.linspace(0, 1, 256))
-    c_map = {
-        0: "white",
-        1: "khaki",
-        2: newcolors[90],
-        3: newcolors[140],
-    }
-    unique_values = sorted(np.unique(data))
-    c_list = [c_map[value] for value in unique_values if value in c_map]
-    cmap = ListedColormap(c_list)
+    # No data, only model, both, only observation
+    cmap = ListedColormap(["white", "khaki", newcolors[90], newcolors[140]])
 
-    ax.pcolormesh(*axes, data, cmap=cmap)
+    ax.pcolormesh(*axes, data, cmap=cmap, vmin=-0.5, vmax=3.5)
 
     if title:
         ax.set_title(f"{day_stat.title}", fontsize=14)
-- 
2.43.0


From 5c87a87289e945c4d3a68763f2948d41c788aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 72/88] fix: one observation without common data left the
 following panels of a statistic figure empty

---
 .../model_evaluation/plotting/plotting.py     | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index b53fea9..9234186 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -254,17 +254,17 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
     figs = []
     axes = []
     for stat in stats:
-        try:
-            obs_missing = False
-            model_missing = False
-            variable_info = ATTRIBUTES[config.product]
-            fig, ax = initialize_figure(len(names) - 1, stat)
-            figs.append(fig)
-            axes.append(ax)
-            model_data, _, _ = p_tools.read_data_characters(config.nc_file, names[0])
-            if np.all(ma.getmaskarray(model_data)):
-                model_missing = True
-            for j, name in enumerate(names):
+        obs_missing = False
+        model_missing = False
+        variable_info = ATTRIBUTES[config.product]
+        fig, ax = initialize_figure(len(names) - 1, stat)
+        figs.append(fig)
+        axes.append(ax)
+        model_data, _, _ = p_tools.read_data_characters(config.nc_file, names[0])
+        if np.all(ma.getmaskarray(model_data)):
+            model_missing = True
+        for j, name in enumerate(names):
+            try:
                 data, x, y = p_tools.read_data_characters(config.nc_file, name)
                 if np.all(ma.getmaskarray(data)):
                     obs_missing = True
@@ -293,8 +293,8 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
                         variable_info,
                         title=config.title,
                     )
-        except ValueError:
-            logging.exception("Exception occurred")
+            except ValueError:
+                logging.exception("Exception occurred")
         if stat not in ("hist", "vertical"):
             casedate = set_labels(
                 fig, ax[j - 1], config.nc_file, sub_title=config.title
-- 
2.43.0


From 7181d5bc7996cd0f7f03c20aee8b490ec3e83a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 73/88] fix: evaluation products on the command line ignored
 the categorize, iwc and lwc files made in the same run

---
 cloudnetpy/cli.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index db40214..a693c0c 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -43,6 +43,7 @@ DEFAULT_L3_MODEL: Final = "ecmwf"
 
 def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
     cat_files = {}
+    l2_files = {}
     instrument_prefs = _parse_instrument_preferences(args.instrument)
 
     # Instrument based products
@@ -78,6 +79,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
         _plot(cat_filepath, "categorize", args)
     else:
         cat_filepath = None
+    l2_files["categorize"] = cat_filepath
     cat_products = [p for p in prod_sources if "categorize" in prod_sources[p]]
     for product in cat_products:
         if cat_filepath is None:
@@ -87,6 +89,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             break
         l2_filename = _process_cat_product(product, cat_filepath)
         _plot(l2_filename, product, args)
+        l2_files[product] = l2_filename
 
     # MWR-L1c based products
     mwrpy_products = [p for p in prod_sources if "mwr-l1c" in prod_sources[p]]
@@ -114,7 +117,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             model = args.model or DEFAULT_L3_MODEL
             if args.model is None:
                 logging.info("No model specified, using default '%s'", model)
-            l3_filepath = _process_l3_product(base_product, args, client, model)
+            l3_filepath = _process_l3_product(
+                base_product, l2_files, args, client, model
+            )
             _plot_l3(l3_filepath, base_product, args)
 
 
@@ -140,11 +145,17 @@ def _process_epsilon_radar(
 
 
 def _process_l3_product(
-    product: str, args: argparse.Namespace, client: APIClient, model: str
+    product: str,
+    l2_files: dict,
+    args: argparse.Namespace,
+    client: APIClient,
+    model: str,
 ) -> str | None:
     obs = product.removeprefix("l3-")
     source_product = L3_SOURCE_PRODUCTS[product]
-    product_file = _fetch_product(args, source_product, client)
+    product_file = l2_files.get(source_product) or _fetch_product(
+        args, source_product, client
+    )
     if product_file is None:
         logging.info("No %s data available for %s", source_product, product)
         return None
-- 
2.43.0


From b71f14a322fec9bf5e350eacefecebb444cac040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 74/88] fix: --dl on the command line still ran the later
 processing steps, with missing instrument files

---
 cloudnetpy/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index a693c0c..47cb698 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -71,6 +71,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             _plot(output_filepath, product, args)
             cat_files[product] = output_filepath
 
+    if args.dl:
+        return
+
     prod_sources = _get_product_sources(args.products, client)
 
     # Categorize based products
-- 
2.43.0


From cb893ef17126e87dd8701f13c39b51b0e1ba89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 75/88] fix: instrument preferences that mix PIDs and
 identifiers ignored the PIDs

---
 cloudnetpy/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 47cb698..5a5289c 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -478,7 +478,10 @@ def _get_source_instruments(
         if model is not None:
             models = [model]
         else:
-            models = [p for p in instrument_prefs.get(prod, []) if not _is_pid(p)]
+            models = instrument_prefs.get(prod, [])
+            if any(_is_pid(p) for p in models):
+                # The type of the instrument is not known from its PID.
+                models = []
         all_possible = client.product(prod).source_instrument_ids
         if all_possible and (match := [m for m in models if m in all_possible]):
             source_instruments[prod] = match
-- 
2.43.0


From 69ec6735381913976079cab5347b00767622856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 76/88] fix: output paths on the command line were wrong below
 a folder whose name contains 'categorize' or '.nc'

---
 cloudnetpy/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 5a5289c..f57b987 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -689,7 +689,7 @@ def _plot(
         res.raise_for_status()
         variables = next(var["variables"] for var in res.json() if var["id"] == product)
         variables = [var["id"].split("-")[-1] for var in variables]
-    image_name = str(filepath).replace(".nc", ".png") if args.plot else None
+    image_name = str(Path(filepath).with_suffix(".png")) if args.plot else None
     options = PlotParameters()
     if args.max_y is not None:
         options.max_y = args.max_y
@@ -735,7 +735,8 @@ def _plot_l3(
 
 
 def _process_cat_product(product: str, categorize_file: str) -> str:
-    output_file = categorize_file.replace("categorize", product)
+    cat_path = Path(categorize_file)
+    output_file = str(cat_path.with_name(cat_path.name.replace("categorize", product)))
     module = importlib.import_module("cloudnetpy.products")
     getattr(module, f"generate_{product}")(categorize_file, output_file)
     logging.info("Processed %s: %s", product, output_file)
-- 
2.43.0


From dd93bc497f3d91ad535b1ea358dddc969c9d3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 77/88] fix: mwr and mwr-l1c of the same radiometer were
 written to the same file on the command line

---
 cloudnetpy/cli.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index f57b987..0567ff6 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -292,7 +292,7 @@ def _process_instrument_product(
     args: argparse.Namespace,
     client: APIClient,
 ) -> str | None:
-    output_filepath = _create_instrument_filepath(instrument, args)
+    output_filepath = _create_instrument_filepath(instrument, product, args)
     site_obj = meta[0].site
     site_meta: dict = {
         "name": site_obj.human_readable_name,
@@ -414,13 +414,14 @@ def _get_calibration(
 
 
 def _create_instrument_filepath(
-    instrument: Instrument, args: argparse.Namespace
+    instrument: Instrument, product: str, args: argparse.Namespace
 ) -> str:
     folder = _create_output_folder("instrument", args)
     pid = _shorten_pid(instrument.pid)
-    filename = (
-        f"{args.date.replace('-', '')}_{args.site}_{instrument.instrument_id}_{pid}.nc"
-    )
+    name = instrument.instrument_id
+    if product == "mwr-l1c":
+        name += "-l1c"  # The mwr product of the same instrument has its own file.
+    filename = f"{args.date.replace('-', '')}_{args.site}_{name}_{pid}.nc"
     return str(folder / filename)
 
 
-- 
2.43.0


From f02e9faa9a73a0a4a21a507b6443195b3ae9ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 78/88] fix: categorize on the command line used the portal's
 mwr file instead of the one made in the same run

---
 cloudnetpy/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 0567ff6..05d717d 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -248,9 +248,10 @@ def _process_categorize(
 
     # MWR runs after other downloads because its fallback chain may
     # try to download the same radar file fetched above.
-    mwr_key, mwr_path = fetch_mwr()
-    if mwr_path:
-        input_files[mwr_key] = mwr_path
+    if not input_files.get("mwr"):
+        mwr_key, mwr_path = fetch_mwr()
+        if mwr_path:
+            input_files[mwr_key] = mwr_path
 
     if "model" not in input_files:
         logging.info("No model data available for this date.")
-- 
2.43.0


From 9e67fa1f3e048caff0a029aa692396296f36336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 79/88] fix: --force-download replaced the radar file made in
 the same run by the portal's while looking for liquid water path

---
 cloudnetpy/cli.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 05d717d..7deb6bb 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -227,7 +227,7 @@ def _process_categorize(
 
     def fetch_mwr() -> tuple[str, str | None]:
         try:
-            return "mwr", _fetch_mwr(args, client)
+            return "mwr", _fetch_mwr(args, client, input_files)
         except (CloudnetAPIError, KeyError, ValueError):
             logging.info("LWP data not available, continuing without it")
             return "mwr", None
@@ -271,7 +271,11 @@ def _process_categorize(
     return cat_filepath
 
 
-def _fetch_mwr(args: argparse.Namespace, client: APIClient) -> str | None:
+def _fetch_mwr(
+    args: argparse.Namespace, client: APIClient, input_files: dict
+) -> str | None:
+    # A radar file of this run must not be downloaded over.
+    keep = frozenset(input_files.values())
     mwr_sources = [
         ("mwr-single", None),
         ("mwr", None),
@@ -279,7 +283,7 @@ def _fetch_mwr(args: argparse.Namespace, client: APIClient) -> str | None:
         ("radar", "rpg-fmcw-94"),
     ]
     for product, source in mwr_sources:
-        mwr = _fetch_product(args, product, client, source=source)
+        mwr = _fetch_product(args, product, client, source=source, keep=keep)
         if mwr:
             return mwr
     return None
@@ -596,7 +600,11 @@ def _get_unique_instruments(meta: list[RawMetadata]) -> list[Instrument]:
 
 
 def _fetch_product(
-    args: argparse.Namespace, product: str, client: APIClient, source: str | None = None
+    args: argparse.Namespace,
+    product: str,
+    client: APIClient,
+    source: str | None = None,
+    keep: frozenset = frozenset(),
 ) -> str | None:
     meta = client.files(product_id=product, date=args.date, site_id=args.site)
     if source:
@@ -614,7 +622,8 @@ def _fetch_product(
         meta = [meta[0]]
     suffix = "geophysical" if "geophysical" in meta[0].product.type else "instrument"
     folder = _create_output_folder(suffix, args)
-    return _download_product_file(meta, folder, client, force=args.force_download)
+    force = args.force_download and str(folder / meta[0].filename) not in keep
+    return _download_product_file(meta, folder, client, force=force)
 
 
 def _fetch_model(
-- 
2.43.0


From 8c1530ab07a1dc6b5728bafca18c5fa0e4bf1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 80/88] fix: call mwrpy retrievals with the arguments of the
 installed version

The site argument was removed from mwrpy's level 2 functions, so that the
positional arguments were shifted and no MWR product could be generated.
---
 cloudnetpy/products/mwr_tools.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index a772160..1b01e2e 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -1,5 +1,7 @@
+import inspect
 import os
 import tempfile
+from collections.abc import Callable
 from os import PathLike
 from typing import Literal
 from uuid import UUID
@@ -97,11 +99,15 @@ def _generate_product(
         coeffs = _read_mwrpy_coeffs(mwr_l1c_file, temp_dir)
         try:
             if product == "multi":
-                gen_multi(None, mwr_l1c_file, output_file, coeffs)
-            elif product == "single":
-                gen_single(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                _retrieve(gen_multi, mwr_l1c_file, output_file, coeff_files=coeffs)
             else:
-                gen_lhumpro(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                _retrieve(
+                    gen_single if product == "single" else gen_lhumpro,
+                    mwr_l1c_file,
+                    output_file,
+                    lwp_offset=lwp_offset,
+                    coeff_files=coeffs,
+                )
                 product = "single"
         except MissingInputData as err:
             raise ValidTimeStampError from err
@@ -174,6 +180,17 @@ class Mwr:
         self.nc_l2.instrument_pid = self.nc_l1c.instrument_pid
 
 
+def _retrieve(
+    fun: Callable,
+    mwr_l1c_file: str | PathLike,
+    output_file: str | PathLike,
+    **kwargs: object,
+) -> None:
+    if "site" in inspect.signature(fun).parameters:
+        kwargs["site"] = None  # Older versions of mwrpy need also the site.
+    fun(mwr_l1c_file=mwr_l1c_file, output_file=output_file, **kwargs)
+
+
 def _read_mwrpy_coeffs(mwr_l1c_file: str | PathLike, folder: str) -> list[str]:
     with netCDF4.Dataset(mwr_l1c_file) as nc:
         links = nc.mwrpy_coefficients.split(", ")
-- 
2.43.0


From e511fd5ffd7d2469e324acfee34d7d2d164ce0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 81/88] fix: generate MWR products from L1c files without
 instrument PID

hatpro2l1c does not write the PID, so that its files could not be processed.
---
 cloudnetpy/products/mwr_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index 1b01e2e..6c1bb23 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -177,7 +177,7 @@ class Mwr:
         )
         self.nc_l2.source_file_uuids = self.nc_l1c.file_uuid
         self.nc_l2.mwrpy_version = mwrpy_version
-        self.nc_l2.instrument_pid = self.nc_l1c.instrument_pid
+        output.copy_global(self.nc_l1c, self.nc_l2, ("instrument_pid",))
 
 
 def _retrieve(
-- 
2.43.0


From 11b49c951a3be135cdf97588d7563ac0aa2bb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 82/88] fix: do not use failed downloads as MWR retrieval
 coefficients

---
 cloudnetpy/products/mwr_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index 6c1bb23..48e1c34 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -197,7 +197,9 @@ def _read_mwrpy_coeffs(mwr_l1c_file: str | PathLike, folder: str) -> list[str]:
     coeffs = []
     for link in links:
         full_path = os.path.join(folder, link.split("/")[-1])
+        res = requests.get(link, timeout=10)
+        res.raise_for_status()
         with open(full_path, "wb") as f:
-            f.write(requests.get(link, timeout=10).content)
+            f.write(res.content)
         coeffs.append(full_path)
     return coeffs
-- 
2.43.0


From db3034923d5bd28d7e1921fcde5f97cc7c098cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 83/88] fix: Kinetic energy of parsivel2nc and Leipzig files is
 telegram number 34

---
 cloudnetpy/disdronator/parsivel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index 00f22ec..e667d31 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -121,7 +121,7 @@ PARSIVEL2NC_KEYS = {
     "n_particles": 11,
     "rainfall_rate": 1,
     "radar_reflectivity": 7,
-    "E_kin": 24,
+    "E_kin": 34,
     "visibility": 8,
     "synop_WaWa": 3,
     "synop_WW": 4,
@@ -203,7 +203,7 @@ LEIPZIG_KEYS = {
     "Sig_Laser": 10,
     "N_Particles": 11,
     "State_Sensor": 18,
-    "E_kin": 24,
+    "E_kin": 34,
     "V_Sensor": 17,
     "I_Heating": 16,
     "Error_Code": 25,
-- 
2.43.0


From 8838de872d9c85f17f8bd72f86dec8a6c6a39c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 84/88] fix: Keep missing values of NetCDF disdrometer files
 masked

---
 cloudnetpy/disdronator/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/utils.py b/cloudnetpy/disdronator/utils.py
index 307dc50..13a4faf 100644
--- a/cloudnetpy/disdronator/utils.py
+++ b/cloudnetpy/disdronator/utils.py
@@ -12,12 +12,12 @@ def convert_to_numpy(
 ) -> dict:
     output = {}
     for key, value in data.items():
-        arr = np.array(value)
+        arr = ma.array(value) if ma.is_masked(value) else np.array(value)
         if fill_values is not None and key in fill_values:
             arr = ma.masked_where(arr == fill_values[key], arr)
         if int_keys is not None and key in int_keys:
             new_arr = arr.astype(np.int32)
-            if not np.all(arr == new_arr):
+            if not ma.allequal(arr, new_arr):
                 msg = "Cannot convert non-integer float to integer"
                 raise ValueError(msg)
             arr = new_arr
-- 
2.43.0


From 9aee74348cdbb10f9e1f02389e635708e7d77b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 85/88] fix: Read also older Granada Parsivel files in
 disdronator

---
 cloudnetpy/disdronator/parsivel.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index e667d31..faab223 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -109,6 +109,24 @@ GRANADA_HEADERS: dict[bytes, str | int | None] = {
     b"N": 90,
     b"V": 91,
     b"spectrum": 93,
+    # Headers of older files:
+    b"rainIntensity": 1,
+    b"snowIntensity": 35,
+    b"accPrec": 24,
+    b"weatherCodeWaWa": 3,
+    b"radarReflectivity": 7,
+    b"morVisibility": 8,
+    b"kineticEnergy": 34,
+    b"signalAmplitude": 10,
+    b"sensorTemperature": 12,
+    b"pbcTemperature": 26,
+    b"rightTemperature": 27,
+    b"leftTemperature": 28,
+    b"heatingCurrent": 16,
+    b"sensorVoltage": 17,
+    b"sensorStatus": 18,
+    b"errorCode": 25,
+    b"numberParticles": 11,
 }
 
 # parsivel2nc
-- 
2.43.0


From a2a9ec8d1e1a675b5668797f07acbcd0b36ca951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 86/88] =?UTF-8?q?fix:=20Mask=20values=20missing=20from=20s?=
 =?UTF-8?q?ingle=20records=20of=20Hyyti=C3=A4l=C3=A4=20Parsivel=20files?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cloudnetpy/disdronator/parsivel.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index faab223..218f7f5 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -7,6 +7,7 @@ import cftime
 import netCDF4
 import numpy as np
 import numpy.typing as npt
+from numpy import ma
 
 from cloudnetpy.disdronator.utils import convert_to_numpy
 
@@ -423,7 +424,19 @@ def _read_hyytiala(filename: str | PathLike) -> ParsivelOutput:
         for key in data:
             data[key].append(record.get(key))
         time.append(timestamp)
-    return time, data
+    return time, {key: _mask_missing(values) for key, values in data.items()}
+
+
+def _mask_missing(values: list) -> list | ma.MaskedArray:
+    """Masks records where the value is missing."""
+    if all(value is not None for value in values):
+        return values
+    template = np.asarray(next(value for value in values if value is not None))
+    output = ma.masked_all((len(values), *template.shape), dtype=template.dtype)
+    for i, value in enumerate(values):
+        if value is not None:
+            output[i] = value
+    return output
 
 
 def _read_parsivel2nc(filename: str | PathLike) -> ParsivelOutput:
-- 
2.43.0


From 4d07727905d154da4a8c5470bd789e9b1fc9142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 87/88] fix: Missing angles of one radar profile do not affect
 its neighbours

A masked elevation or azimuth angle masked also the comparisons of the
next profile, so that a tilted profile after it was kept, and the first
profile was dropped when angles of the second were missing.
---
 cloudnetpy/instruments/nc_radar.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 4b6eb61..5e62e5d 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -124,19 +124,24 @@ class NcRadar(DataSource, CloudnetInstrument):
             msg = "Less than two profiles with valid zenith / azimuth angles"
             raise ValidTimeStampError(msg)
 
-        elevation_diff = ma.diff(elevation, prepend=elevation[1])
-        is_stable = np.abs(elevation - 90) < elevation_threshold
-        is_stable &= np.abs(elevation_diff) < elevation_diff_threshold
+        # Masked values indicate missing scanning info
+        # (assume vertically pointing)
+        elevation_diff = ma.diff(elevation, prepend=elevation[1:2])
+        is_stable = ma.filled(
+            np.abs(elevation - 90) < elevation_threshold, fill_value=True
+        )
+        is_stable &= ma.filled(
+            np.abs(elevation_diff) < elevation_diff_threshold, fill_value=True
+        )
 
         if not ma.getmaskarray(azimuth).all():
-            azimuth_diff = ma.diff(azimuth, prepend=azimuth[1])
+            azimuth_diff = ma.diff(azimuth, prepend=azimuth[1:2])
             azimuth_diff[azimuth_diff > 180] -= 360
             azimuth_diff[azimuth_diff < -180] += 360
-            is_stable &= np.abs(azimuth_diff) < azimuth_diff_threshold
+            is_stable &= ma.filled(
+                np.abs(azimuth_diff) < azimuth_diff_threshold, fill_value=True
+            )
 
-        # Masked values indicate missing scanning info
-        # (assume vertically pointing)
-        is_stable = np.array(ma.filled(is_stable, fill_value=True))
         n_removed = np.count_nonzero(~is_stable)
 
         if n_removed >= len(elevation) - 1:
-- 
2.43.0


From cff35e3bad1a92804558914ddbc4e18c63de23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:04 +0000
Subject: [PATCH 88/88] fix: Skip incomplete lines of TOA5 files

A truncated line contributed to some columns only and so shifted the
values of other records, or made reading of the file fail.
---
 cloudnetpy/instruments/toa5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/toa5.py b/cloudnetpy/instruments/toa5.py
index 35050df..1f49af4 100644
--- a/cloudnetpy/instruments/toa5.py
+++ b/cloudnetpy/instruments/toa5.py
@@ -32,6 +32,8 @@ def read_toa5(
                 row_template[header[: header.index("(")]] = []
 
         for data_line in reader:
+            if len(data_line) < len(header_line):
+                continue  # Incomplete line
             row: dict[str, Any] = {key: [] for key in row_template}
             for key, value in zip(header_line, data_line, strict=False):
                 parsed_value: Any = value
-- 
2.43.0

