From 28fbaca6f34112321adde21944f95b7095903705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:47 +0000
Subject: [PATCH 001/117] fix: interpolate runs whose raw data does not carry a
 default row index

The mask selecting regular cycles was built with a fresh 0..n-1 index, so
structuring any raw table with other row labels (e.g. a filtered one) raised
an unalignable-indexer error.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..4d3f7aa 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -709,7 +709,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             diag_mask = self.raw_data.cycle_index.isin(self.diagnostic.all_ix)
             reg_mask = ~diag_mask
         else:
-            reg_mask = pd.Series([True] * self.raw_data.shape[0])
+            reg_mask = pd.Series(True, index=self.raw_data.index)
 
         reg_cycles = self.raw_data[reg_mask].cycle_index.unique()
 
-- 
2.43.0


From 2b7c7051673debe42bfdde7d8390acd74c81373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:47 +0000
Subject: [PATCH 002/117] fix: do not classify two-record charge steps as
 discharge

When every charge capacity change of a step is discarded as a jump the step
direction is decided by the discharge capacity alone; an increasing discharge
capacity means the step is discharging, not charging.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 4d3f7aa..e72ffbf 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1353,7 +1353,7 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = not avg_dchg_delta > 0
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From de5e3ceca9558c092c3666bb7ffe51be5cc3f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 003/117] fix: report each cycle's own charge duration in the
 summary

The durations were labelled 0..n-1 but assigned to rows labelled by cycle
index, so any run not starting at cycle 0 or with missing cycles reported
another cycle's duration.
---
 beep/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index e72ffbf..caaf285 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -827,6 +827,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce"),
             pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
         )
+        # Summary rows are labelled by cycle, not by position
+        time_diff.index = merged.cycle_index
         summary["charge_duration"] = np.round(
             time_diff / np.timedelta64(1, "s"), 2)
 
-- 
2.43.0


From 22a13d20e1798f93e47490951c9eeeeedbd12ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 004/117] fix: remove the temporary time column from the raw
 data after summarizing

DataFrame.drop returns a new frame; the result was discarded, so structuring
left an extra column in the raw data (and in everything serialized from it).
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index caaf285..8e41b21 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -853,7 +853,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From ada0444f904c2243a73d2d122e30c0ccfc0269af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 005/117] fix: keep the whole CV segment when charge is
 constant voltage from its start

With the onset found at the first interval the index i-1 wrapped around to the
last record, reducing the segment to a single point.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 8e41b21..99e11f3 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1482,7 +1482,7 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
             i = i+1
 
         # Filter for CV phase
-        return charge.loc[charge.test_time >= charge.test_time.iat[i-1]]
+        return charge.loc[charge.test_time >= charge.test_time.iat[max(i - 1, 0)]]
 
 
 def get_CV_time(CV):
-- 
2.43.0


From a288a65c9232c4e82566c5124b62fc7292bfb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 006/117] fix: report no CV segment for charges that have none

The search ran off the end and the last two constant current records were
reported as the CV segment instead of an empty one.
---
 beep/structure/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 99e11f3..6d020cd 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1481,6 +1481,10 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
         while i < len(dV) and (dt[i] < dt_tol or abs(dV[i]/dt[i]) > dVdt_tol or abs(dI[i]/dt[i]) < dIdt_tol):
             i = i+1
 
+        # No constant voltage segment in this charge
+        if i == len(dV):
+            return charge.iloc[0:0]
+
         # Filter for CV phase
         return charge.loc[charge.test_time >= charge.test_time.iat[max(i - 1, 0)]]
 
-- 
2.43.0


From 4b2e435111b2c24be241aee772e4d0eb10dad2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 007/117] fix: measure pauses independently of the host time
 zone

UTC timestamps were converted with time.mktime, which interprets them as local
time; gaps spanning a daylight-saving switch of the host were off by an hour.
---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 6d020cd..e3120fd 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -5,7 +5,7 @@ import os
 import abc
 import json
 import copy
-import time
+import calendar
 
 import pandas as pd
 import numpy as np
@@ -1442,7 +1442,7 @@ def get_max_paused_over_threshold(group, paused_threshold=3600):
     """
     date_time_objs = pd.to_datetime(group["date_time_iso"], format="mixed")
     date_time_float = [
-        time.mktime(t.timetuple()) if t is not pd.NaT else float("nan")
+        calendar.timegm(t.utctimetuple()) if t is not pd.NaT else float("nan")
         for t in date_time_objs
     ]
     date_time_float = pd.Series(date_time_float)
-- 
2.43.0


From d95b69ee73f43713f2833280e12b3c321f470bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 008/117] fix: load an unstructured datapath as unstructured

Loading a datapath saved before structuring built empty structured tables, so it
claimed to be structured.
---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index e3120fd..6c3a45c 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From 5762ded95e4744371b1792ef99bc160ceccb5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 009/117] fix: keep the full metadata of runs saved without raw
 data

The file carries the metadata, but loading reduced it to three fields when the
raw data had been omitted.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 6c3a45c..a2d413e 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -434,7 +434,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # support loads when raw_data not available
         if any([k not in d for k in ("raw_data", "metadata")]):
             raw_data = None
-            metadata = {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
+            metadata = d.get("metadata") or {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
             is_legacy = True
         else:
             raw_data = pd.DataFrame(d["raw_data"])
-- 
2.43.0


From e056fd96abdf3134575f071697897dd6c146210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 010/117] fix: record excluded cycles among the structuring
 parameters

Provenance lacked them, so the recorded parameters did not reproduce the result.
---
 beep/structure/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index a2d413e..38c46d6 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -562,7 +562,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             "nominal_capacity": nominal_capacity,
             "full_fast_charge": full_fast_charge,
             "charge_axis": charge_axis,
-            "discharge_axis": discharge_axis
+            "discharge_axis": discharge_axis,
+            "exclude_cycles": exclude_cycles
         }
 
     @StructuringDecorators.must_not_be_legacy
-- 
2.43.0


From fa60a199dee3290cc64db87106bcdffdd58ff61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 011/117] fix: drop diagnostic results of an earlier
 structuring

Restructuring after clearing the diagnostic configuration kept the diagnostic
tables of the previous run, so those cycles appeared in both outputs.
---
 beep/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 38c46d6..fc2b4d8 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -536,6 +536,8 @@ class BEEPDatapath(abc.ABC, MSONable):
                 voltage_resolution=diagnostic_resolution
             )
         else:
+            self.diagnostic_summary = None
+            self.diagnostic_data = None
             logger.info("Diagnostic not set; interpolating aging cycles only.")
 
         logger.info(
-- 
2.43.0


From f8085d5714e5383a84288dfcc6c2f3c1a4882aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 012/117] fix: validation reasons name the violated threshold
 and the offending value

A minimum that is not low enough was reported against the max_at_least rule, and
both threshold rules quoted the first record instead of the extreme one.
---
 beep/structure/validate.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index c573068..819f2fb 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -182,8 +182,7 @@ class SimpleValidator:
             if max_at_least_rule is not None:
                 comp = np.where(dataframe[column_name].max() < max_at_least_rule)
                 if comp[0].size > 0:
-                    index = comp[0][0]
-                    value = dataframe[column_name].iloc[index]
+                    value = dataframe[column_name].max()
                     reason = (
                         "{} needs to reach at least {} for processing, instead found:"
                         "value={}".format(column_name, max_at_least_rule, value)
@@ -194,11 +193,10 @@ class SimpleValidator:
             if min_is_below_rule is not None:
                 comp = np.where(dataframe[column_name].min() > min_is_below_rule)
                 if comp[0].size > 0:
-                    index = comp[0][0]
-                    value = dataframe[column_name].iloc[index]
+                    value = dataframe[column_name].min()
                     reason = (
                         "{} needs to reach under {} for processing, instead found:"
-                        "value={}".format(column_name, max_at_least_rule, value)
+                        "value={}".format(column_name, min_is_below_rule, value)
                     )
                     return False, reason
 
-- 
2.43.0


From 31a4e4262bd4e02ebac51666f2a9532b23782157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 013/117] fix: keep the resolution of Arbin timestamps

Epoch seconds were rounded to float32, so the derived ISO timestamps were off by
up to a minute and durations came out as multiples of 128 s.
---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
-- 
2.43.0


From a948f00b77a52d0d857c0e9963211330a67395e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 014/117] fix: step time of a Battery Archive record that
 starts the last step

The final record always continued the previous step's time, and a file with a
single record could not be loaded.
---
 beep/structure/battery_archive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..285bb3d 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -85,7 +85,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         start_times = df["test_time (s)"].loc[step_change_ix]
         arrays = [None] * len(step_change_ix)
 
-        final_ix = [df.shape[0] - 1]
+        final_ix = [df.shape[0]]
         step_change_ix_buffered = np.append(step_change_ix[1:], final_ix)
 
         for i, scix in enumerate(step_change_ix_buffered):
@@ -93,9 +93,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
             n_repeats = scix - prev_scix
             arrays[i] = np.repeat(start_times.loc[prev_scix], n_repeats)
 
-        # include the final data point, which is not a real step change
         subtractor = np.concatenate(arrays, axis=0)
-        subtractor = np.append(subtractor, [subtractor[-1]])
 
         df["step_time"] = df["test_time (s)"] - subtractor
 
-- 
2.43.0


From d375b34968f8493fb61e4891d2a3217d5697c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 015/117] fix: make BioLogic runs serializable

The protocol digest was stored as bytes, which JSON cannot hold, so no run with
a protocol could be saved.
---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 91baba0..45434d7 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -199,7 +199,7 @@ class BiologicDatapath(BEEPDatapath):
                 if flag_protocol_start:
                     if line == "":
                         flag_protocol = True
-                        protocol = hashlib.md5(protocol_text.encode()).digest()
+                        protocol = hashlib.md5(protocol_text.encode()).hexdigest()
                         metadata["protocol"] = protocol
                     else:
                         protocol_text += line + "\n"
-- 
2.43.0


From daba658bf27972e2a10a6cdb4faeece008a168e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 016/117] fix: refer discharge energy of charge-less Novonix
 cycles to energy

The reference for both conventions was the highest capacity reading.
---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..3d84c96 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -152,7 +152,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From 5b238a5985807e2d46dedd49f7ba77ec4b4ef6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 017/117] fix: do not carry the previous cycle's capacity into
 an unfinished step

A run that stops during the first step of a cycle had the whole previous cycle
added to that step's capacity and energy.
---
 beep/structure/maccor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..ba7e7ac 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -239,6 +239,11 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # Update any dangling step without an end
         last_index = quantity_agg.index[-1]
         if end_step_inds[-1] < last_index:
+            if (
+                data.loc[begin_step_ind - 1, "cycle_index"]
+                != data.loc[begin_step_ind, "cycle_index"]
+            ):
+                cycle_sum = 0.0
             quantity_agg[begin_step_ind:] += cycle_sum
         return quantity_agg
 
-- 
2.43.0


From bd95fc0a9786c42ddf8a527567d8057b94604f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 018/117] fix: load Maccor EIS files

tqdm is already the progress bar callable.
---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index ba7e7ac..16cdafd 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From e934c87444b7a04df5001850b76739542165d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 019/117] fix: accept lists of paths

Paths may hold lists (EIS files do), but a saved run with such a list could not
be loaded again.
---
 beep/structure/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index fc2b4d8..46aeada 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -189,9 +189,10 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # paths may include "raw", "metadata", and "structured", as well as others.
         if paths:
-            for path_ref, path in paths.items():
-                if path and not os.path.isabs(path):
-                    raise ValueError(f"{path_ref}: '{path}' is not absolute! All paths must be absolute.")
+            for path_ref, path_or_paths in paths.items():
+                for path in path_or_paths if isinstance(path_or_paths, (list, tuple)) else [path_or_paths]:
+                    if path and not os.path.isabs(path):
+                        raise ValueError(f"{path_ref}: '{path}' is not absolute! All paths must be absolute.")
             self.paths = paths
         else:
             self.paths = {"raw": None}
-- 
2.43.0


From 119f718a32a2eee5fa49ca7603c3d8dec5368dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 020/117] fix: serialize EIS spectra with dictionary metadata

Maccor spectra carry a plain dictionary, which as_dict treated as a dataframe.
---
 beep/structure/base_eis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base_eis.py b/beep/structure/base_eis.py
index e69ed5f..9f0e4d3 100644
--- a/beep/structure/base_eis.py
+++ b/beep/structure/base_eis.py
@@ -61,7 +61,7 @@ class EIS(MSONable):
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
             "data": self.data.to_dict("list"),
-            "metadata": self.metadata.to_dict()
+            "metadata": self.metadata.to_dict() if isinstance(self.metadata, pd.DataFrame) else self.metadata
         }
 
     @classmethod
@@ -77,7 +77,9 @@ class EIS(MSONable):
         """
         data = pd.DataFrame(d["data"])
         data = data.sort_index()
-        metadata = pd.DataFrame(d["metadata"])
+        metadata = d["metadata"]
+        if all(isinstance(column, dict) for column in metadata.values()):
+            metadata = pd.DataFrame(metadata)
         return cls(data, metadata)
 
 
-- 
2.43.0


From 2dd0e30e0f31c4ed3984215ed609838008601120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 021/117] fix: label Indigo columns by their own block

Values were labelled by overall column order, which differs from the order in
which the typed blocks are stored.
---
 beep/structure/indigo.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 9e989ab..15b16b2 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -34,20 +34,16 @@ class IndigoDatapath(BEEPDatapath):
         d0 = hdf.get('time_series_data')
         d1 = np.array(d0.get('axis0'))
         d2 = np.array(d0.get('axis1'))
-        # d3 = np.array(d0.get('block0_items'))
         d4 = np.array(d0.get('block0_values'))
-        # d5 = np.array(d0.get('block1_items'))
         d6 = np.array(d0.get('block1_values'))
-        # d7 = np.array(d0.get('block2_items'))
         d8 = np.array(d0.get('block2_values'))
         d9 = np.concatenate((d4, d6, d8), axis=1)
         d10 = pd.DataFrame(d9)
         d11 = d10.set_axis(d2, axis="index")
-        d1_string = []
-        for i in d1:
-            j = i.decode("utf-8")
-            d1_string.append(j)
-        data = d11.set_axis(d1_string, axis="columns")
+        d1_string = [i.decode("utf-8") for i in d1]
+        # The blocks hold the columns grouped by type, in their own order
+        d9_string = [i.decode("utf-8") for b in range(3) for i in np.array(d0.get(f'block{b}_items'))]
+        data = d11.set_axis(d9_string, axis="columns")[d1_string]
         metadata = dict()
 
         if len(list(data["cell_id"].unique())) > 1:
-- 
2.43.0


From 8706ee2add63588028ad5bd722a6778c6952c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 022/117] fix: convert Indigo energies from joules to
 watt-hours

Capacities are converted to ampere-hours, and every other cycler reports energies
in watt-hours.
---
 beep/structure/indigo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 15b16b2..a4de985 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -67,12 +67,12 @@ class IndigoDatapath(BEEPDatapath):
                 abs(data.cell_coulomb_count_c) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_capacity"] = 0
-        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 0, "charge_energy"] = 0
-        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_energy"] = 0
         data["internal_resistance"] = data.cell_voltage_v / data.cell_current_a
-- 
2.43.0


From 2bb22bbd49e12fc8b59247104494b0f507f70b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:51 +0000
Subject: [PATCH 023/117] fix: report cycle life as a cycle number on loaded
 runs

The row label was returned, which is the cycle number on a freshly structured run
but only the row position after saving and loading.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 46aeada..c49151d 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1163,7 +1163,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
             cycle_life = self.structured_summary[
                 self.structured_summary.discharge_capacity < threshold * max_capacity
-            ].index[0]
+            ].cycle_index.iloc[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
             cycle_life = len(self.structured_summary) + 1
-- 
2.43.0


From 9225e7a2165e1610410e2cacac320b33d9369d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:51 +0000
Subject: [PATCH 024/117] fix: cycle life of runs that end exactly on the
 threshold

The run counted as degraded, but no cycle was below the threshold, so the lookup
raised an IndexError.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c49151d..b0a8f64 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1160,7 +1160,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             max_capacity = 1.1
 
         # If capacity falls below 80% of initial capacity by end of run
-        if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
+        if self.structured_summary.discharge_capacity.iloc[-1] < threshold * max_capacity:
             cycle_life = self.structured_summary[
                 self.structured_summary.discharge_capacity < threshold * max_capacity
             ].cycle_index.iloc[0]
-- 
2.43.0


From 81f4096d04f90ffe98df1779120103ba10ddba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 025/117] fix: forecast capacities on intervals that do not
 divide the cycle range

---
 beep/structure/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index b0a8f64..ae8763a 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1183,11 +1183,9 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             pandas.DataFrame:
         """
-        discharge_capacities = pd.DataFrame(
-            np.zeros((1, int((cycle_max - cycle_min) / cycle_interval)))
-        )
         counter = 0
         cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
+        discharge_capacities = pd.DataFrame(np.zeros((1, len(cycle_indices))))
         for cycle_index in cycle_indices:
             try:
                 discharge_capacities[counter] = self.structured_summary.discharge_capacity.iloc[
-- 
2.43.0


From a416b6db8680670a577752d325f4b18195335fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 026/117] fix: do not wrap Maccor step times of a day or longer

---
 beep/protocol/maccor.py | 77 +++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..ed7c5ea 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,22 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def format_step_time(time_s):
+    """
+    Formats a duration as a maccor step time, HH:MM:SS. The hours are not
+    limited to a day.
+
+    Args:
+        time_s (float): duration in seconds
+
+    Returns:
+        str: formatted duration
+    """
+    minutes, seconds = divmod(int(time_s), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -392,9 +407,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -418,18 +431,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -466,9 +475,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -521,9 +528,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -814,9 +819,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -851,9 +854,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -881,18 +882,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -932,9 +929,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -1101,9 +1096,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1113,9 +1106,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1125,9 +1116,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1137,9 +1126,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1163,9 +1150,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From de0ca113545ea2ff0485dbf9cb283a7f5640a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 027/117] fix: write Maccor procedures in the requested
 encoding

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index ed7c5ea..7ec292f 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -155,7 +155,7 @@ class Procedure(DashOrderedDict):
         contents = "\n".join([line0, line1, remainder])
         contents = self.fixup_empty_elements(contents)
         contents += "\n"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding=encoding) as f:
             f.write(contents)
 
     @staticmethod
-- 
2.43.0


From 3a10ee35e987a17ad23b5f1aafa6d275bca6df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:26 +0000
Subject: [PATCH 028/117] fix: name waveforms after their file, not their
 directory

---
 beep/protocol/maccor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 7ec292f..c250c32 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -346,8 +346,7 @@ class Procedure(DashOrderedDict):
 
         assert steps[waveform_idx]["StepType"] == "FastWave"
         assert waveform_filename.split(".")[-1].lower() == "mwf"
-        local_name = waveform_filename.split(".")[0]
-        _, local_name = os.path.split(local_name)
+        local_name, _ = os.path.splitext(os.path.basename(waveform_filename))
         assert len(local_name) < 25, str(len(local_name))
 
         steps[waveform_idx]["StepValue"] = local_name
-- 
2.43.0


From 454a30a0ae511b70099fd2654250baafcd38dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 029/117] fix: do not change the default waveform settings when
 generating driving profiles

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index c250c32..3ff1eac 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1327,7 +1327,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = dict(MACCOR_WAVEFORM_CONFIG)
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 966bb4cae8aeec33f0375bc166b2adef38e97d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 030/117] fix: do not change the waveform a Maccor waveform
 file is generated from

---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 3ff1eac..cdfe0c7 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1455,6 +1455,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
     if mwf_config is None:
         mwf_config = MACCOR_WAVEFORM_CONFIG
 
+    df = df.copy()
     if "power" in df.columns:
         df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
-- 
2.43.0


From a82f95dd33a4d7dadbfd6f258fc70a45edfaffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 031/117] fix: refuse charging windows that are not in
 increasing order

---
 beep/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index de13813..cf754aa 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -103,7 +103,7 @@ class RapidChargeWave:
         np.array: array with the multistep current as a function of the uniform time basis
         np.array: array with the corresponding uniformly spaced time values
         """
-        assert np.all(np.diff(mesh_points)) > 0
+        assert np.all(np.diff(mesh_points) > 0)
         current_smooth, time_smooth, current_multistep, time_multistep = \
             self.get_input_currents_both_to_final_soc(charging_c_rates, mesh_points)
         end_time_smooth = int(np.round(np.max(time_smooth), 0))
-- 
2.43.0


From 63fccaa4510eccea9338f121dbf9974f19667c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 032/117] fix: keep the name files of protocols generated
 within the same minute

---
 beep/protocol/generate_protocol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 486d231..76a8be8 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -219,6 +219,13 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
     names_dir = os.path.join(output_directory, "names")
     os.makedirs(names_dir, exist_ok=True)
 
+    # Do not overwrite the names from another call within the same minute
+    namefile_base, namefile_ext = os.path.splitext(namefile)
+    duplicate = 0
+    while os.path.exists(os.path.join(names_dir, namefile)):
+        duplicate += 1
+        namefile = "{}_{}{}".format(namefile_base, duplicate, namefile_ext)
+
     with open(os.path.join(names_dir, namefile), "w", newline="") as outputfile:
         wr = csv.writer(outputfile)
         for name in names:
-- 
2.43.0


From 84d0ca3b65678df9bc308ab9818c1a227469f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:41 +0000
Subject: [PATCH 033/117] fix: read Arbin schedule values that contain brackets
 or end in spaces

---
 beep/protocol/arbin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..b5958b4 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -59,9 +59,10 @@ class Schedule(DashOrderedDict):
             text = f.read()
             text = text.decode(encoding)
 
-        split_text = re.split(r"\[(.+)\]", text)
+        # Section headings take up a whole line, values may contain brackets
+        split_text = re.split(r"(?:^|(?<=[\r\n]))\[([^\r\n]+)\][ \t]*(?=[\r\n]|$)", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
-            body_lines = re.split(r"[\r\n]+", body.strip())
+            body_lines = [line for line in re.split(r"[\r\n]+", body) if line.strip()]
             body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
             heading = heading.replace("_", ".")
             obj.set(heading, body_dict)
-- 
2.43.0


From b6686a1c9e99c414d10c9b10ac48197b29421044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:41 +0000
Subject: [PATCH 034/117] fix: write Arbin schedules with numeric limit values

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index b5958b4..02f0198 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -100,7 +100,7 @@ class Schedule(DashOrderedDict):
         for section_title, body_data in data_tuples:
             section_header = "[{}]".format(section_title)
             body = linesep.join(
-                ["=".join([key, value]) for key, value in body_data.items()]
+                ["=".join([key, str(value)]) for key, value in body_data.items()]
             )
             blocks.append(linesep.join([section_header, body]))
         contents = linesep.join(blocks) + linesep
-- 
2.43.0


From 139babaa8c85c85f685cdcb8f90945047e2217f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 035/117] fix: find the Do step of loops at the start of a
 Maccor procedure when converting to Arbin

---
 beep/protocol/maccor_to_arbin.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..2c5e0ad 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -124,14 +124,17 @@ class ProcedureToSchedule:
             step_name_list.append(str(indx + 1) + "-" + str(step["StepNote"]))
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
+                do_index = None
                 i = 1
-                while (indx - i) > 1:
-                    if self.procedure_dict_steps[abs(indx - i)][
+                while (indx - i) >= 0:
+                    if self.procedure_dict_steps[indx - i][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
-                        do_index = abs(indx - i)
+                        do_index = indx - i
                         break
                     i = i + 1
+                if do_index is None:
+                    raise ValueError("No matching Do step for {} at step {}".format(step["StepType"], indx + 1))
                 step_flow_ctrl.update({indx: step_name_list[do_index + 1]})
         return step_name_list, step_flow_ctrl
 
-- 
2.43.0


From c5a9190d0690d10b62f1cdbc4246a892713bccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 036/117] fix: keep single end conditions when converting
 Maccor steps to Arbin

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2c5e0ad..475e770 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -328,7 +328,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
-- 
2.43.0


From 9fd0722b5f53744e8a116d36fa47804bf23938b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 037/117] fix: number Arbin logging limits after the step
 limits for any number of end conditions

---
 beep/protocol/maccor_to_arbin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 475e770..8577f2e 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -365,23 +365,23 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
+            # Logging limits are numbered after the step limits
+            limit_start = blank_step["m_uLimitNum"]
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
                 report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
                 limit_key = "Limit{}".format(str(report_index + limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
+            elif isinstance(step_abs["Reports"]["ReportEntry"], list):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From 2732801c815997be5bdce34babb12d10c3966ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 038/117] fix: do not change the Maccor procedure that is
 converted to Arbin

---
 beep/protocol/maccor_to_arbin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 8577f2e..775ff92 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -198,6 +198,7 @@ class ProcedureToSchedule:
             os.path.join(PROTOCOL_SCHEMA_DIR, "arbin_schedule_schema.yaml")
         )
         blank_step = OrderedDict(ARBIN_SCHEMA["step_blank_body"])
+        step_abs = deepcopy(step_abs)  # Loop steps get an additional end condition
 
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
-- 
2.43.0


From 6db6f6e8d8ebad56074ec0758f384be9b83f1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 039/117] fix: keep the voltage limit of C-rate discharges when
 converting to Arbin

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 775ff92..a930159 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -236,6 +236,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From 7f986e5d7f2703643eb210e4ae513355e9f9535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 040/117] fix: reverse both comparisons of discharge currents
 when converting to Arbin

---
 beep/protocol/maccor_to_arbin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index a930159..a8f3383 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -459,7 +459,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
@@ -478,7 +478,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
-- 
2.43.0


From 046dc3f41e580e1b47040138d3277ee479644cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 041/117] fix: convert Maccor step times of a day or longer to
 Arbin

---
 beep/protocol/maccor_to_arbin.py | 47 ++++++++++++--------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index a8f3383..aa1babc 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -15,7 +15,6 @@
 
 import os
 import re
-from datetime import datetime
 from copy import deepcopy
 from beep.protocol import PROTOCOL_SCHEMA_DIR
 from collections import OrderedDict
@@ -394,6 +393,22 @@ class ProcedureToSchedule:
 
         return blank_step
 
+    @staticmethod
+    def step_time_to_seconds(step_time):
+        """
+        Converts a maccor step time to seconds. Hours are not limited to a day and
+        empty parts are zero, e.g. "::.1"
+
+        Args:
+            step_time (str): step time in the format H:M:S
+
+        Returns:
+            float: number of seconds
+
+        """
+        hours, minutes, seconds = [part.strip() or "0" for part in step_time.split(":")]
+        return round(int(hours) * 3600 + int(minutes) * 60 + float(seconds), 6)
+
     def add_blank_limit(self):
         """
         Minor helper function to add a limit that immediately advances to the next step.
@@ -489,20 +504,7 @@ class ProcedureToSchedule:
         elif end["EndType"] == "StepTime":
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in end["Value"]:
-                nofrag, frag = end["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    end["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(self.step_time_to_seconds(end["Value"]))
         elif end["EndType"] == "Loop Cnt":
             loop_counter = int(re.search(r"\d+", step_type).group())
             limit["Equation0_szLeft"] = "TC_Counter{}".format(loop_counter)
@@ -553,19 +555,6 @@ class ProcedureToSchedule:
         elif report["ReportType"] == "StepTime":
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in report["Value"]:
-                nofrag, frag = report["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(self.step_time_to_seconds(report["Value"]))
 
         return limit
-- 
2.43.0


From dc1edd8c6a1b163e3fa5d36624975d04b2bcbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:58 +0000
Subject: [PATCH 042/117] fix: keep the steps of every technique out of the
 metadata of Biologic settings

---
 beep/protocol/biologic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..192d5fc 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -63,7 +63,7 @@ class Settings(DashOrderedDict):
         obj = cls()
         split_text = re.split(r"\r?\n|\r\n?", text)
 
-        extra_lines = list(range(len(split_text)))
+        lines_to_parse = list(range(len(split_text)))
         technique_lines = [
             indx for indx, val in enumerate(split_text) if "Technique" in val
         ]
@@ -76,7 +76,7 @@ class Settings(DashOrderedDict):
             end = start + step_entry_length
             technique_pos.append((technique_num, start, end))
             lines_to_parse = [
-                i for i in extra_lines if i not in list(range(start, end))
+                i for i in lines_to_parse if i not in list(range(start, end))
             ]
 
         section = "Metadata"
-- 
2.43.0


From 5791483797cd4bf90ce075d94c59f6e68a9b9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:58 +0000
Subject: [PATCH 043/117] fix: read Biologic settings with colons in lines that
 are not key value pairs

---
 beep/protocol/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 192d5fc..1d21be8 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -82,7 +82,7 @@ class Settings(DashOrderedDict):
         section = "Metadata"
         metadata = []
         for line_num in lines_to_parse:
-            if ":" in split_text[line_num]:
+            if " : " in split_text[line_num]:
                 if "Technique" in split_text[line_num]:
                     metadata.append(
                         [
-- 
2.43.0


From 34062588e3ad5f5f47a2c6d58460edf687c321ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:38 +0000
Subject: [PATCH 044/117] fix: do not take text mentioning techniques for a
 technique in Biologic settings

---
 beep/protocol/biologic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 1d21be8..3ede7f8 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -65,7 +65,7 @@ class Settings(DashOrderedDict):
 
         lines_to_parse = list(range(len(split_text)))
         technique_lines = [
-            indx for indx, val in enumerate(split_text) if "Technique" in val
+            indx for indx, val in enumerate(split_text) if val.startswith("Technique : ")
         ]
         technique_pos = []
         for technique_start_line in technique_lines:
@@ -83,7 +83,7 @@ class Settings(DashOrderedDict):
         metadata = []
         for line_num in lines_to_parse:
             if " : " in split_text[line_num]:
-                if "Technique" in split_text[line_num]:
+                if line_num in technique_lines:
                     metadata.append(
                         [
                             "_".join(split_text[line_num].split(" : ", 1)),
@@ -150,7 +150,7 @@ class Settings(DashOrderedDict):
         blocks = []
         meta_data_keys = list(data["Metadata"].keys())
         for indx, meta_key in enumerate(meta_data_keys):
-            if "Technique_" in meta_key:
+            if meta_key.startswith("Technique_"):
                 blocks.append(
                     " : ".join([meta_key.split("_")[0], data["Metadata"][meta_key]])
                 )
-- 
2.43.0


From 6511eb7fc70919b1f340154ee7a8718b75bac668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 045/117] fix: do not truncate fractional times when converting
 Maccor to Biologic

---
 beep/protocol/maccor_to_biologic_mb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..0972953 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -168,17 +168,17 @@ class MaccorToBiologicMb:
         secs = 0.0 if sec_str == "" else float(sec_str)
 
         if mins == 0.0 and secs == 0.0:
-            return "{:.3f}".format(int(hours)), "h"
+            return "{:.3f}".format(hours), "h"
 
         if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
+            total_time_min = hours * 60 + mins
             return "{:.3f}".format(total_time_min), "mn"
 
         if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
+            total_time_sec = hours * 60 * 60 + mins * 60 + secs
             return "{:.3f}".format(total_time_sec), "s"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        total_time_ms = hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From 4a054f6f0b86eb89946e4ebe79453b975f4d7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 046/117] fix: apply every sequence mapper when converting
 Maccor to Biologic

---
 beep/protocol/maccor_to_biologic_mb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 0972953..8faec06 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -846,13 +846,13 @@ class MaccorToBiologicMb:
         for i, seq in enumerate(seqs):
             mapped_seq = seq
 
-            mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_max_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From 4ccff8a635a26c5b032d07633ad070cf253fe60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 047/117] fix: filter single end entries by the voltage and
 current limits of the Biologic conversion

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 8faec06..f8d74f6 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -685,7 +685,7 @@ class MaccorToBiologicMb:
             if end_entries is None:
                 return step
 
-            end_entries = end_entries if type(end_entries) is not list else end_entries
+            end_entries = [end_entries] if type(end_entries) is not list else end_entries
             filtered_end_entries = []
             for idx, end_entry in enumerate(end_entries):
                 if pred(end_entry, idx, step_num):
-- 
2.43.0


From 195236c3bb9f505065d726dc9428475e686a8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 048/117] fix: count every cycle advance of a repeated loop in
 the Biologic cycle advancement rules

---
 beep/protocol/maccor_to_biologic_mb.py | 50 +++++++++++++-------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index f8d74f6..688799d 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1117,36 +1117,34 @@ class MaccorToBiologicMb:
                         raise Exception("Unclosed loop at step {}".format(step_num))
 
                     # we need to trace the loop to find the cycle advancement
-                    if adv_cycle_count > 0:
-                        if prev_measurement_step_num == -1:
+                    looped_cycle_advances = adv_cycle_count
+                    for j in range(prev_loop_open + 1, i + 1):
+                        looped_step_num = j + tp.step_num_offset + 1
+                        looped_step_type = get(tp.steps[j], "StepType")
+                        if looped_step_type == "AdvCycle":
+                            looped_cycle_advances += 1
+                            continue
+                        elif looped_cycle_advances == 0:
+                            break
+
+                        if looped_step_num == step_num:
+                            raise Exception("Loop end step {} contains no measurement steps".format(step_num))
+                        elif (
+                            tp.seq_nums_by_step_num[looped_step_num][0]
+                            == tp.seq_nums_by_step_num[prev_measurement_step_num][-1]
+                        ):
                             raise Exception(
                                 (
-                                    "Loop end at step {} contains advance cycle with" + "no physical step in loop body"
-                                ).format(step_num)
+                                    "step {} is the only measurement step in a loop that advances cycle index,"
+                                    + " correct cycle index computation impossible"
+                                ).format(prev_measurement_step_num)
                             )
 
-                        looped_cycle_advances = adv_cycle_count
-                        for j in range(prev_loop_open + 1, i + 1):
-                            looped_step_num = j + tp.step_num_offset
-                            if looped_step_num == step_num:
-                                raise Exception("Loop end step {} contains no measurement steps".format(step_num))
-                            elif looped_step_num == prev_measurement_step_num:
-                                raise Exception(
-                                    (
-                                        "step {} is the only measurement step in a loop that advances cycle index,"
-                                        + " correct cycle index computation impossible"
-                                    ).format(prev_measurement_step_num)
-                                )
-
-                            looped_step_type = get(tp.steps[j], "StepType")
-                            if looped_step_type == "Adv Cycle":
-                                looped_cycle_advances += 1
-                            else:
-                                # assumption that step is measurement because there are
-                                # no interleaved loops and only other logical step is adv cycle
-                                transition = (prev_measurement_step_num, looped_step_num)
-                                cycle_advances_by_step_transition[transition] = looped_cycle_advances
-                                break
+                        # assumption that step is measurement because there are
+                        # no interleaved loops and only other logical step is adv cycle
+                        transition = (prev_measurement_step_num, looped_step_num)
+                        cycle_advances_by_step_transition[transition] = looped_cycle_advances
+                        break
 
                     prev_loop_open = -1
                 else:
-- 
2.43.0


From 68a678bd85f603e90b8bc4aea4b56fe14b9d14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 049/117] fix: count cycle advances at the start of a repeated
 technique in the Biologic rules

---
 beep/protocol/maccor_to_biologic_mb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 688799d..6e70f38 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1085,6 +1085,7 @@ class MaccorToBiologicMb:
             )
 
             cycle_advances_on_tech_start = adv_cycle_count
+            cycle_advances_at_body_start = 0
             adv_cycle_count = 0
 
             cycle_advances_by_step_transition = {}
@@ -1152,6 +1153,7 @@ class MaccorToBiologicMb:
                     assert get(step, "Reports.ReportEntry") is not None
 
                     if prev_measurement_step_num == -1:
+                        cycle_advances_at_body_start = adv_cycle_count
                         cycle_advances_on_tech_start += adv_cycle_count
                     elif adv_cycle_count > 0:
                         transition = (prev_measurement_step_num, step_num)
@@ -1159,7 +1161,8 @@ class MaccorToBiologicMb:
                     prev_measurement_step_num = step_num
                     adv_cycle_count = 0
 
-            cycle_advances_on_tech_loop = adv_cycle_count
+            # looping back also passes the advances ahead of the first measurement step
+            cycle_advances_on_tech_loop = adv_cycle_count + cycle_advances_at_body_start
 
             # TODO we should also check GOTO transitions as well
             # these should be done _after_ the Next Step and Loop cases
-- 
2.43.0


From 86884bc718bacec71637735c147e334179c222a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:50 +0000
Subject: [PATCH 050/117] fix: keep the end conditions of split steps in both
 parts of the Biologic conversion

---
 beep/protocol/maccor_to_biologic_mb.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 6e70f38..68349af 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -347,9 +347,14 @@ class MaccorToBiologicMb:
                         + str(end_step_num)
                     )
 
+                # a split step hands over to its next part with the last end entry of the part
+                hands_over = i < len(step_parts) - 1 and lim_num == num_end_entries
+
                 goto_seq = -1
-                if goto_step_num == step_num + 1:
+                if hands_over:
                     goto_seq = seq_num + 1
+                elif goto_step_num == step_num + 1:
+                    goto_seq = seq_nums_by_step_num[step_num][-1] + 1
                 elif goto_step_num == end_step_num:
                     goto_seq = END_SEQ_NUM
                 else:
@@ -357,7 +362,7 @@ class MaccorToBiologicMb:
 
                 new_seq["lim{}_seq".format(lim_num)] = goto_seq
 
-                if goto_step_num != step_num + 1:
+                if goto_seq != seq_num + 1:
                     new_seq["lim{}_action".format(lim_num)] = "Goto sequence"
 
                 if end_type == "StepTime":
@@ -891,7 +896,7 @@ class MaccorToBiologicMb:
                 )
 
             step_part_1 = copy.deepcopy(step)
-            end_entries = get(step_part_1, "EndsEndEntries")
+            end_entries = get(step_part_1, "Ends.EndEntry")
             if end_entries is None:
                 end_entries = []
             elif not isinstance(end_entries, list):
@@ -899,7 +904,7 @@ class MaccorToBiologicMb:
 
             filtered_end_entries = []
             for end_entry in end_entries:
-                if get(end_entry, "EndType") != lim:
+                if get(end_entry, "EndType") != acceptable_limit:
                     filtered_end_entries.append(end_entry)
 
             oper = ""
-- 
2.43.0


From acd4c3e64d1f3b39c29c3e56d5a3becf6da674dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:40 +0000
Subject: [PATCH 051/117] fix: send jumps to the start of a Biologic loop to
 its Maccor Do step

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..028cdf0 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -744,7 +744,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From e0af3a679f92d3a9f5666995f8659635faafa6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:40 +0000
Subject: [PATCH 052/117] fix: refuse all overlapping Biologic loops when
 converting to Maccor

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 028cdf0..968f11d 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -546,7 +546,7 @@ class BiologicMbToMaccorProcedure:
             loop_is_inactive = seq["ctrl_repeat"] == "0"
 
             # handle loops
-            if is_loop_seq and not loop_is_inactive and loop_to >= curr_loop_start:
+            if is_loop_seq and not loop_is_inactive and seq_num >= curr_loop_start:
                 # Biologic does not have nested loops, maccor does not allow
                 # you to loop back into already completed loops
                 # to handle this we're disallowing any overlapping loops
-- 
2.43.0


From 0599a0e049602081413553f5dcb22a11c8332602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:40 +0000
Subject: [PATCH 053/117] fix: give each featurizer its own copy of its
 hyperparameters

---
 beep/features/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/base.py b/beep/features/base.py
index b70a596..cae1c29 100644
--- a/beep/features/base.py
+++ b/beep/features/base.py
@@ -63,14 +63,14 @@ class BEEPFeaturizer(MSONable, abc.ABC):
         # If no hyperparameters are specified, use defaults
         if hyperparameters:
             if all(k in hyperparameters for k in self.DEFAULT_HYPERPARAMETERS):
-                self.hyperparameters = hyperparameters
+                self.hyperparameters = copy.deepcopy(hyperparameters)
             else:
                 raise BEEPFeaturizationError(
                     f"Features cannot be created with incomplete set of "
                     f"hyperparameters {hyperparameters.keys()} < "
                     f"{self.DEFAULT_HYPERPARAMETERS.keys()}!")
         else:
-            self.hyperparameters = self.DEFAULT_HYPERPARAMETERS
+            self.hyperparameters = copy.deepcopy(self.DEFAULT_HYPERPARAMETERS)
 
         if not (structured_datapath is None or structured_datapath.is_structured):
             raise BEEPFeaturizationError("BEEPDatapath input is not structured!")
-- 
2.43.0


From d8a55d1854284a4cebaf739becce67a573a54fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:40 +0000
Subject: [PATCH 054/117] fix: serialize a feature matrix of no featurizers

---
 beep/features/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/base.py b/beep/features/base.py
index cae1c29..e44b0d9 100644
--- a/beep/features/base.py
+++ b/beep/features/base.py
@@ -308,7 +308,7 @@ class BEEPFeatureMatrix(MSONable):
 
             # Core parts of BEEPFeaturizer
             "featurizers": [f.as_dict() for f in self.featurizers],
-            "matrix": self.matrix.to_dict("list"),
+            "matrix": self.matrix.to_dict("list") if self.matrix is not None else None,
         }
 
     @classmethod
-- 
2.43.0


From 78f02fb1c8ef70d6fba22f4b1ba3557412346cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 055/117] fix: take a column only once when it is a feature and
 a split column in the data splitter

---
 beep/prediction/beep_data_splitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..3e96608 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -131,6 +131,8 @@ class BEEPDataSplitter(MSONable):
 
         retain_columns = features + (split_columns if split_columns is not None else []) + \
             (exclusion_columns if exclusion_columns is not None else []) 
+        # A column may serve as feature and as split or exclusion column
+        retain_columns = list(dict.fromkeys(retain_columns))
         X = self.feature_matrix.matrix[retain_columns]
         y = self.feature_matrix.matrix[targets]
 
-- 
2.43.0


From ee7be1a93c1e84f4f4d7d03e8f04c5541779d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 056/117] fix: save the imputation and exclusion settings of
 the data splitter

---
 beep/prediction/beep_data_splitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 3e96608..8f77776 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -225,6 +225,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -333,10 +335,13 @@ class BEEPDataSplitter(MSONable):
             "train_feature_drop_nan_thresh": self.train_feature_drop_nan_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_nan_thresh,
             "drop_nan_training_targets": self.drop_nan_training_targets,
+            "impute_strategy": self.impute_strategy,
             "homogenize_features": self.homogenize_features,
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -351,10 +356,13 @@ class BEEPDataSplitter(MSONable):
             train_feature_drop_nan_thresh=d["train_feature_drop_nan_thresh"],
             train_sample_drop_nan_thresh=d["train_sample_drop_nan_thresh"],
             drop_nan_training_targets=d["drop_nan_training_targets"],
+            impute_strategy=d.get("impute_strategy", "median"),
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5),
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From c1dc10ac06e5fe94708f4fb46f078d8e7755fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 057/117] fix: coalesce homogenized features without renaming
 the caller's columns

---
 beep/model.py                         | 7 +++++--
 beep/prediction/beep_data_splitter.py | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..d1ee944 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -445,8 +445,11 @@ class BEEPLinearModelExperiment(MSONable):
 
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
-        cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
-        X.columns = cols_stripped
+        cols_stripped = [d.join(c.split(d)[:2]) for c in X.columns]
+        X = X.set_axis(cols_stripped, axis=1)
+        if not X.columns.is_unique:
+            # coalesce the same feature from different hyperparameters
+            X = X.groupby(level=0, axis=1, sort=False).first()
         return X
 
     @staticmethod
diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8f77776..a543d04 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -297,7 +297,10 @@ class BEEPDataSplitter(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:2]) for c in X.columns]
-        X.columns = cols_stripped
+        X = X.set_axis(cols_stripped, axis=1)
+        if not X.columns.is_unique:
+            # coalesce the same feature from different hyperparameters
+            X = X.groupby(level=0, axis=1, sort=False).first()
         return X
 
     @staticmethod
-- 
2.43.0


From 6ff8b1cc69fdc22b12de586db7519af066d1c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 058/117] fix: drop sparse training features by the feature
 threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index d1ee944..bd9ff1c 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From fffc934f698a30c910d7e284535afb833a4bdb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 059/117] fix: ignore extra features when dropping sparse
 prediction samples

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index bd9ff1c..e8b0853 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From f9408d57b4ec2d86f075eae4fb123b339db1a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 060/117] fix: report only the samples which were dropped from
 a prediction

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index e8b0853..7014bdb 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From e6f162905a2724b5d6fb2242b4791834692a0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 061/117] fix: give the linear models an integer default
 max_iter

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 7014bdb..0334b85 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -100,7 +100,7 @@ class BEEPLinearModelExperiment(MSONable):
             drop_nan_training_targets: bool = False,
             impute_strategy: str = "median",
             kfold: int = 5,
-            max_iter: int = 1e6,
+            max_iter: int = 1000000,
             tol: float = 1e-4,
             # only relevant for elasticnet
             l1_ratio: Union[Tuple[float], List[float]] = (
-- 
2.43.0


From 56c3ea4413e4b4df0d016d2ac48089fa3a9d2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 062/117] fix: accept an array of alphas for ridge models

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 0334b85..7c008ea 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -265,7 +265,7 @@ class BEEPLinearModelExperiment(MSONable):
 
             # Ridge has to have alphas set by hand as it has no
             # default alphas
-            if not kwargs["alphas"]:
+            if kwargs["alphas"] is None or len(kwargs["alphas"]) == 0:
                 kwargs["alphas"] = (1e-3, 1e-2, 1e-1, 1, 10, 100, 1000)
         else:
             raise NotImplementedError(f"Unsupported model '{self.model_name}'")
-- 
2.43.0


From a45806e51f95d6b8585a26e76c1dff5d1862d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 063/117] fix: reload models of several targets as multi-task
 models

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 7c008ea..8578628 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -551,7 +551,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         # Hack sklearn a little bit to serialize these models to json
         modelcls = {
-            "elasticnet": ElasticNet,
+            "elasticnet": MultiTaskElasticNet if o.multi else ElasticNet,
             "lasso": Lasso,
             "ridge": Ridge
         }[d["model_name"]]
-- 
2.43.0


From 6fcc89623e6dd66b64c8b3b5ae48eade99323a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 064/117] fix: save the scaler a linear model was trained with

---
 beep/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index 8578628..2cd3271 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -513,6 +513,11 @@ class BEEPLinearModelExperiment(MSONable):
                 "coef_": self.model.coef_.tolist(),
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
+                "scaler": {
+                    "mean_": self.scaler.mean_.tolist(),
+                    "scale_": self.scaler.scale_.tolist(),
+                    "var_": self.scaler.var_.tolist(),
+                },
             },
 
         }
@@ -562,6 +567,10 @@ class BEEPLinearModelExperiment(MSONable):
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
+
+        # The model only works with the scaler it was trained with
+        for param, value in model_params.get("scaler", {}).items():
+            setattr(o.scaler, param, np.asarray(value))
         return o
 
     @classmethod
-- 
2.43.0


From 52e83a999fea688206cadac542ae1b87f6db9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 065/117] fix: keep features and targets aligned when reloading
 a dataset

---
 beep/prediction/beep_data_splitter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index a543d04..56fc846 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -53,10 +53,12 @@ class BEEPDataset(MSONable):
 
     @classmethod
     def from_dict(cls, d):
-        dataset = cls(pd.DataFrame.from_dict(d["train_X"]), pd.DataFrame.from_dict(
-            d["train_y"]), pd.DataFrame.from_dict(d["test_X"]), pd.DataFrame.from_dict(d["test_y"]))
+        train_X, train_y, test_X, test_y = [
+            pd.DataFrame.from_dict(d[k]) for k in ("train_X", "train_y", "test_X", "test_y")
+        ]
 
-        return dataset
+        # pandas may reorder the rows, features and targets must stay aligned
+        return cls(train_X, train_y.loc[train_X.index], test_X, test_y.loc[test_X.index])
 
 
 class BEEPDataSplitter(MSONable):
-- 
2.43.0


From 4c83cf38221e278ea34b3cfb3ff3ad4074e29261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:23 +0000
Subject: [PATCH 066/117] fix: save an array of alphas so that it can be loaded

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2cd3271..1aad913 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -495,7 +495,7 @@ class BEEPLinearModelExperiment(MSONable):
             "target_matrix": self.target_matrix.as_dict(),
             "targets": self.targets,
             "model_name": self.model_name,
-            "alphas": self.alphas,
+            "alphas": list(self.alphas) if self.alphas is not None else None,
             "train_feature_drop_nan_thresh": self.train_feature_drop_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_thresh,
             "predict_sample_nan_thresh": self.predict_sample_nan_thresh,
-- 
2.43.0


From 7085c6316de8dfbb645e8269112aa5e713396a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 067/117] fix: label summary statistics by the statistics
 requested, in any number and order

---
 beep/features/core.py | 48 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..5f81100 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -151,7 +151,8 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # TODO: extend this dataframe and uncomment energy features when
         #   structuring is refactored
-        X = pd.DataFrame(np.zeros((1, 28)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 4 * n_stats)))
 
         reg_cycle_comp_num = self.hyperparameters.get("cycle_comp_num")
         cycle_comp_1 = self.datapath.structured_data[
@@ -167,7 +168,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QcDiff = Qc100_1.values - Qc10_1.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.loc[0, 0 * n_stats:1 * n_stats - 1] = self.get_summary_statistics(QcDiff)
 
         Qd100_1 = cycle_comp_1[
             cycle_comp_1.step_type == "discharge"].discharge_capacity
@@ -176,7 +177,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QdDiff = Qd100_1.values - Qd10_1.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.loc[0, 1 * n_stats:2 * n_stats - 1] = self.get_summary_statistics(QdDiff)
 
         # # Charging Energy features
         Ec100_1 = cycle_comp_1[cycle_comp_1.step_type == "charge"].charge_energy
@@ -184,7 +185,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EcDiff = Ec100_1.values - Ec10_1.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.loc[0, 2 * n_stats:3 * n_stats - 1] = self.get_summary_statistics(EcDiff)
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
@@ -194,7 +195,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.loc[0, 3 * n_stats:4 * n_stats - 1] = self.get_summary_statistics(EdDiff)
 
         quantities = [
             "charging_capacity",
@@ -233,25 +234,25 @@ class CycleSummaryStats(BEEPFeaturizer):
             raise ValueError(
                 f"Unsupported statistics in {stats_names}: supported statistics are {supported_stats}")
 
-        stats = []
+        stats = {}
 
         if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
+            stats["var"] = np.log10(np.absolute(np.var(array)))
         if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
+            stats["min"] = np.log10(np.absolute(min(array)))
         if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
+            stats["mean"] = np.log10(np.absolute(np.mean(array)))
         if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
+            stats["skew"] = np.log10(np.absolute(skew(array)))
         if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
+            stats["kurtosis"] = np.log10(
+                np.absolute(kurtosis(array, fisher=False, bias=False)))
         if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
+            stats["abs"] = np.log10(np.sum(np.absolute(array)))
         if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+            stats["square"] = np.log10(np.sum(np.square(array)))
 
-        return np.asarray(stats)
+        return np.asarray([stats[s] for s in stats_names])
 
 
 class DiagnosticSummaryStats(CycleSummaryStats):
@@ -367,7 +368,8 @@ class DiagnosticSummaryStats(CycleSummaryStats):
 
         diag_intrp = self.datapath.diagnostic_data
 
-        X = pd.DataFrame(np.zeros((1, 54)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
 
         # Calculate the cycles and the steps for the selected diagnostics
         cycles = diag_intrp.cycle_index[diag_intrp.cycle_type ==
@@ -414,7 +416,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QcDiff = Qc_1.values - Qc_0.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.loc[0, 0 * n_stats:1 * n_stats - 1] = self.get_summary_statistics(QcDiff)
 
         # Discharging Capacity features
         Qd_1 = diag_intrp.discharge_capacity[mask_pos_1_discharge]
@@ -422,7 +424,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QdDiff = Qd_1.values - Qd_0.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.loc[0, 1 * n_stats:2 * n_stats - 1] = self.get_summary_statistics(QdDiff)
 
         # Charging Energy features
         Ec_1 = diag_intrp.charge_energy[mask_pos_1_charge]
@@ -430,7 +432,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EcDiff = Ec_1.values - Ec_0.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.loc[0, 2 * n_stats:3 * n_stats - 1] = self.get_summary_statistics(EcDiff)
 
         # Discharging Energy features
         Ed_1 = diag_intrp.discharge_energy[mask_pos_1_discharge]
@@ -438,7 +440,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EdDiff = Ed_1.values - Ed_0.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.loc[0, 3 * n_stats:4 * n_stats - 1] = self.get_summary_statistics(EdDiff)
 
         # Charging dQdV features
         dQdVc_1 = diag_intrp.charge_dQdV[mask_pos_1_charge]
@@ -446,7 +448,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVcDiff = dQdVc_1.values - dQdVc_0.values
         dQdVcDiff = dQdVcDiff[~np.isnan(dQdVcDiff)]
 
-        X.loc[0, 28:34] = self.get_summary_statistics(dQdVcDiff)
+        X.loc[0, 4 * n_stats:5 * n_stats - 1] = self.get_summary_statistics(dQdVcDiff)
 
         # Discharging Capacity features
         dQdVd_1 = diag_intrp.discharge_dQdV[mask_pos_1_discharge]
@@ -454,9 +456,9 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVdDiff = dQdVd_1.values - dQdVd_0.values
         dQdVdDiff = dQdVdDiff[~np.isnan(dQdVdDiff)]
 
-        X.loc[0, 35:41] = self.get_summary_statistics(dQdVdDiff)
+        X.loc[0, 5 * n_stats:6 * n_stats - 1] = self.get_summary_statistics(dQdVdDiff)
 
-        X.loc[0, 42:53], names = self.get_summary_diff(
+        X.loc[0, 6 * n_stats:], names = self.get_summary_diff(
             self.hyperparameters["diag_pos_list"]
         )
 
-- 
2.43.0


From 53433ba29c37f5fdbccf40a7272bc64507e13631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 068/117] fix: take the discharging energy features from the
 discharge steps

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 5f81100..5052f99 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -189,9 +189,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From 8fc97342cf51e9a9bd404b557fb83d3663687d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 069/117] fix: respect n_nominal_cycles in the fast charge
 features

---
 beep/features/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 5052f99..f23f4f7 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -540,9 +540,6 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
@@ -652,7 +649,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         )
         labels.append("internal_resistance_difference_cycles_2:100")
 
-        # Nominal capacity
+        # For nominal capacity, use median discharge capacity of first n cycles
         end = self.hyperparameters["n_nominal_cycles"]
         X[20] = np.median(summary.discharge_capacity.iloc[0: end])
         labels.append("nominal_capacity_by_median")
-- 
2.43.0


From e3fdcc90b11540ec70dcdf6c8c3d3097c6358603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 070/117] fix: respect init_pred_cycle in the fast charge
 features

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index f23f4f7..d582b0f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -578,7 +578,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == self.hyperparameters["init_pred_cycle"] - 1]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
-- 
2.43.0


From 1d725c3447605cd95d81fc165a5702825e03ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 071/117] fix: leave the features of an empty discharge
 difference missing rather than zero

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index d582b0f..0b4e550 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -592,7 +592,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             X[9] = np.log10(np.abs(kurtosis(Qd_diff)))  # Kurtosis
             X[10] = np.log10(np.abs(Qd_diff[0]))  # First difference
         else:
-            X[5:11] = np.nan
+            X[list(range(5, 11))] = np.nan
 
         labels.append("abs_min_discharge_capacity_difference_cycles_2:100")
         labels.append("abs_mean_discharge_capacity_difference_cycles_2:100")
-- 
2.43.0


From 12faf466183cc7cd564ae83759da341dc04d11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 072/117] fix: look up parameters in the table of the project
 only, not of projects with longer names

---
 beep/deprecated/parameters_lookup.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/beep/deprecated/parameters_lookup.py b/beep/deprecated/parameters_lookup.py
index 266c999..5fb8491 100644
--- a/beep/deprecated/parameters_lookup.py
+++ b/beep/deprecated/parameters_lookup.py
@@ -28,6 +28,25 @@ def get_project_sequence(path):
     return file_parts
 
 
+def get_project_files(path, project_name):
+    """
+    Finds the files in a directory which belong to a project, not to other
+    projects with a name that starts with the name of this project
+
+    Args:
+        path (str): location to look for files
+        project_name (str): name of the project
+
+    Returns:
+        ([str]): paths of the files
+
+    """
+    return [
+        f for f in glob(os.path.join(path, project_name + "*"))
+        if not os.path.basename(f)[len(project_name):][:1].isalnum()
+    ]
+
+
 def get_protocol_parameters(filepath, parameters_path):
     """
     Helper function to get the project parameters for a file given the filename
@@ -44,7 +63,7 @@ def get_protocol_parameters(filepath, parameters_path):
     project_name_list = get_project_sequence(filepath)
     project_name = project_name_list[0]
     path = os.path.abspath(parameters_path)
-    project_parameter_files = glob(os.path.join(path, project_name + "*"))
+    project_parameter_files = get_project_files(path, project_name)
     assert len(project_parameter_files) <= 1, (
             "Found too many parameter files for: " + project_name
     )
@@ -81,8 +100,8 @@ def get_diagnostic_parameters(
             diagnostic cycle
 
     """
-    project_diag_files = glob(
-        os.path.join(diagnostic_parameter_path, project_name + "*")
+    project_diag_files = get_project_files(
+        diagnostic_parameter_path, project_name
     )
     assert len(project_diag_files) <= 1, (
             "Found too many diagnostic parameter files for: " + project_name
-- 
2.43.0


From 6392bf66eea533557747f2859d3f97385e77b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 073/117] fix: keep the diagnostic data of the run when
 featurizing its diagnostics

---
 beep/features/core.py               | 42 ++++++++++++-----------------
 beep/features/featurizer_helpers.py | 26 ++++++++++++++++++
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 0b4e550..1caf302 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -41,25 +41,21 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
-                'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
-                  'cycle_index_filter']))
-        ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
-            ["cycle_index", "step_index", "step_index_counter"]
-        ).filter(lambda x: ~x["test_time"].isnull().all())
+        datapath = featurizer_helpers.get_filtered_datapath(
+            self.datapath,
+            self.hyperparameters['test_time_filter_sec'],
+            self.hyperparameters['cycle_index_filter']
+        )
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +66,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -356,17 +352,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
-                'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
-                  'cycle_index_filter']))
-        ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
-            ["cycle_index", "step_index", "step_index_counter"]
-        ).filter(lambda x: ~x["test_time"].isnull().all())
+        datapath = featurizer_helpers.get_filtered_datapath(
+            self.datapath,
+            self.hyperparameters['test_time_filter_sec'],
+            self.hyperparameters['cycle_index_filter']
+        )
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         n_stats = len(self.hyperparameters["statistics"])
         X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
@@ -376,13 +368,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..b161492 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -6,6 +6,7 @@ Helper functions for generating features in beep.featurize module
 All methods are currently lumped into this script.
 """
 import os
+import copy
 import calendar
 
 import pandas as pd
@@ -627,6 +628,31 @@ def get_step_index(pcycler_run, cycle_type="hppc", diag_pos=0, parameters_path=P
     return step_indices_annotated
 
 
+def get_filtered_datapath(datapath, test_time_filter_sec, cycle_index_filter):
+    """
+    Gets the datapath without the low cycle numbers at the end of the test, corresponding to the
+    "final" diagnostic, and without the steps that have no data. The datapath given stays as it is.
+
+    Args:
+        datapath (beep.structure.base.BEEPDatapath): processed data
+        test_time_filter_sec (float): test time which starts the end of the test
+        cycle_index_filter (int): cycle numbers below are low
+
+    Returns:
+        beep.structure.base.BEEPDatapath: shallow copy with the filtered diagnostic data
+    """
+    data = datapath.diagnostic_data
+    data = data[
+        ~((data.test_time > test_time_filter_sec) &
+          (data.cycle_index < cycle_index_filter))
+    ]
+    filtered = copy.copy(datapath)
+    filtered.diagnostic_data = data.groupby(
+        ["cycle_index", "step_index", "step_index_counter"]
+    ).filter(lambda x: ~x["test_time"].isnull().all())
+    return filtered
+
+
 def check_diagnostic_validation(datapath):
     if not hasattr(datapath, "diagnostic_summary") & hasattr(
             datapath, "diagnostic_data"
-- 
2.43.0


From b12d62550429b6e990b696961fcbab557b058bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:44 +0000
Subject: [PATCH 074/117] fix: refuse runs without the rate tests for the
 diagnostic summary differences

---
 beep/features/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 1caf302..94b1d30 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -290,10 +290,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         val, msg = featurizer_helpers.check_diagnostic_validation(self.datapath)
         if val:
             df = self.datapath.diagnostic_summary
-            df = df[
-                df.cycle_type == self.hyperparameters["diagnostic_cycle_type"]]
-            if df.cycle_index.nunique() >= max(
-                    self.hyperparameters["diag_pos_list"]) + 1:
+            # The summary differences need the rate tests of each position, too
+            n_cycles = [
+                df[df.cycle_type == cycle_type].cycle_index.nunique()
+                for cycle_type in (self.hyperparameters["diagnostic_cycle_type"],
+                                   "rpt_0.2C", "rpt_1C", "rpt_2C")
+            ]
+            if min(n_cycles) >= max(self.hyperparameters["diag_pos_list"]) + 1:
                 return True, None
             else:
                 return False, "Diagnostic cycles insufficient for featurization"
-- 
2.43.0


From daf3d52093bf24ff26743fcc0233102ec56794d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 075/117] fix: refuse to extrapolate to the threshold when
 extrapolation is off

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 94b1d30..8333fba 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -834,7 +834,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
-- 
2.43.0


From 8c7b14fbdb3c07f1c43c9ef7c426d6e6a3afdf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 076/117] fix: find the threshold on the diagnostics of the
 requested cycle type and metric only

---
 beep/features/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index 8333fba..d184b91 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -820,6 +820,8 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        df = df[(df["cycle_type"] == cycle_type) & (df["metric"] == metric)]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
-- 
2.43.0


From 217de63c27a53c7871e6cff5de0d12491b519994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 077/117] fix: interpolate the threshold over any number of
 axes

---
 beep/features/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index d184b91..f985ba4 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -877,13 +877,10 @@ class DiagnosticProperties(BEEPFeaturizer):
 
         x_to_threshold = []
         for indx, x_linspace in enumerate(x_linspaces):
-            print(f_axis[indx])
-            print(x_linspace)
-
             crossing_array = abs(f_axis[indx](x_linspace) - threshold)
             x_to_threshold.append(x_linspace[np.argmin(crossing_array)])
 
-        if ~(x_to_threshold[0] > 0) or ~(x_to_threshold[1] > 0):
+        if not all(x > 0 for x in x_to_threshold):
             raise BEEPFeaturizationError(
                 "DiagnosticProperties data does not have a positive value "
                 "to threshold"
-- 
2.43.0


From 9608ba7db1965aa82be230d3304fb024a54a3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:31 +0000
Subject: [PATCH 078/117] fix: accept charges without constant voltage in the
 exclusion criteria

---
 beep/features/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index f985ba4..215c2a7 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1048,6 +1048,9 @@ class ExclusionCriteria(BEEPFeaturizer):
                 charge_data = cycle_data[(self.datapath.structured_data.step_type == "charge")]
 
                 CV_segment = get_CV_segment_from_charge(charge_data)
+                if CV_segment.empty:
+                    # A charge without constant voltage has no early onset of it
+                    continue
 
                 CV_onset_time = float(CV_segment["test_time"].iloc[0])
 
-- 
2.43.0


From 79155259a2017895a0d79a42fb86da75f7b8d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 079/117] fix: take the mean of the last points of the rests in
 HPPC, not a single point

---
 beep/features/featurizer_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index b161492..8724c95 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -35,7 +35,7 @@ def list_minus(list1, list2):
 def get_hppc_ocv_helper(cycle_hppc_0, step_num):
     """
     this helper function takes in a cycle and a step number
-    and returns a list that stores the mean of the last five points of voltage in different
+    and returns a list that stores the mean of the last ten points of voltage in different
     step counter indexes (which is basically the soc window)
     """
     chosen1 = cycle_hppc_0[cycle_hppc_0.step_index == step_num]
@@ -44,7 +44,7 @@ def get_hppc_ocv_helper(cycle_hppc_0, step_num):
     for i in range(len(step_index_counters)):
         df_i = chosen1.loc[chosen1.step_index_counter == step_index_counters[i]]
         voltage1.append(
-            df_i["voltage"].iloc[-10].mean()
+            df_i["voltage"].iloc[-10:].mean()
         )  # take the mean of the last 10 points of the voltage value
     return voltage1
 
-- 
2.43.0


From 7553bea0999680164176c1b3677d1cf3bc670871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 080/117] fix: take the step numbers from the HPPC cycle which
 is compared

---
 beep/features/featurizer_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 8724c95..3c74c96 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -255,7 +255,7 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos, parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0


From c4bc12872573b051bc5a3a361f8c9762af933ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 081/117] fix: use the given parameters for the diffusion
 features

---
 beep/features/core.py               | 3 ++-
 beep/features/featurizer_helpers.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 215c2a7..02a9ca7 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -49,7 +49,8 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"],
+            parameters_path=self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 3c74c96..931d77d 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -392,7 +392,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -406,8 +406,8 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path=parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From e0d908bc2608dd5b4a29fc1cbccc790eb16c9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 082/117] fix: tell the cycler of a file from its name, not
 from its directories

---
 beep/structure/cli.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index df2e6b7..59b0588 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -15,6 +15,7 @@
 
 """
 
+import os
 import re
 
 from monty.serialization import loadfn
@@ -58,17 +59,19 @@ def auto_load(filename):
         (beep.structure.base.BEEPDatapath): The datapath child class corresponding to this file.
 
     """
-    if re.match(ARBIN_CONFIG["file_pattern"], filename) or re.match(FastCharge_CONFIG["file_pattern"], filename):
+    # the directories do not say which cycler a file is from
+    name = os.path.basename(filename)
+    if re.match(ARBIN_CONFIG["file_pattern"], name) or re.match(FastCharge_CONFIG["file_pattern"], name):
         return ArbinDatapath.from_file(filename)
-    elif re.match(MACCOR_CONFIG["file_pattern"], filename) or re.match(xTesladiag_CONFIG["file_pattern"], filename):
+    elif re.match(MACCOR_CONFIG["file_pattern"], name) or re.match(xTesladiag_CONFIG["file_pattern"], name):
         return MaccorDatapath.from_file(filename)
-    elif re.match(INDIGO_CONFIG["file_pattern"], filename):
+    elif re.match(INDIGO_CONFIG["file_pattern"], name):
         return IndigoDatapath.from_file(filename)
-    elif re.match(BIOLOGIC_CONFIG["file_pattern"], filename):
+    elif re.match(BIOLOGIC_CONFIG["file_pattern"], name):
         return BiologicDatapath.from_file(filename)
-    elif re.match(NEWARE_CONFIG["file_pattern"], filename):
+    elif re.match(NEWARE_CONFIG["file_pattern"], name):
         return NewareDatapath.from_file(filename)
-    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, filename):
+    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, name):
         return BatteryArchiveDatapath.from_file(filename)
     else:
         raise ValueError("{} does not match any known file pattern".format(filename))
-- 
2.43.0


From 267ec373653690212104a5d3a13a14ec4e871ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 083/117] fix: recognize Battery Archive files whose names look
 like Maccor names

---
 beep/structure/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index 59b0588..1e72bbd 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -61,7 +61,9 @@ def auto_load(filename):
     """
     # the directories do not say which cycler a file is from
     name = os.path.basename(filename)
-    if re.match(ARBIN_CONFIG["file_pattern"], name) or re.match(FastCharge_CONFIG["file_pattern"], name):
+    if re.match(BatteryArchiveDatapath.FILE_PATTERN, name):
+        return BatteryArchiveDatapath.from_file(filename)
+    elif re.match(ARBIN_CONFIG["file_pattern"], name) or re.match(FastCharge_CONFIG["file_pattern"], name):
         return ArbinDatapath.from_file(filename)
     elif re.match(MACCOR_CONFIG["file_pattern"], name) or re.match(xTesladiag_CONFIG["file_pattern"], name):
         return MaccorDatapath.from_file(filename)
@@ -71,8 +73,6 @@ def auto_load(filename):
         return BiologicDatapath.from_file(filename)
     elif re.match(NEWARE_CONFIG["file_pattern"], name):
         return NewareDatapath.from_file(filename)
-    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, name):
-        return BatteryArchiveDatapath.from_file(filename)
     else:
         raise ValueError("{} does not match any known file pattern".format(filename))
 
-- 
2.43.0


From f30584a3cb73137685d857ed26197970531db79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 084/117] fix: exit with an error when a command is interrupted
 or its featurizer is unknown

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..bcadd57 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -899,7 +899,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1320,7 +1320,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1483,7 +1483,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 4bd5cbeea4b74887baaf57af612cfa50459f41ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 085/117] fix: refuse to write several structured files to the
 same output

---
 beep/cmd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index bcadd57..3310ded 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -518,6 +518,13 @@ def structure(
                 for f in files
             ]
 
+    outputs = {}
+    for f, output_file in zip(files, output_files):
+        if outputs.setdefault(output_file, f) != f:
+            raise ValueError(
+                f"Both '{outputs[output_file]}' and '{f}' would be written to '{output_file}'!"
+            )
+
     if automatic and not protocol_parameters_dir:
         logger.warning(
             "--automatic was passed but no protocol parameters "
-- 
2.43.0


From 88b1ec2c9804896a7db0dcf392bfe4d720f245c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 086/117] fix: keep the order of local and s3 files, prefer
 local ones and do not mix up s3 files of the same name

---
 beep/cmd.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 3310ded..68b1709 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -445,39 +445,43 @@ def structure(
 
         # local files matching globs are pre-expanded by Click
         s3_keys_matched = []
-        local_files = []
+        all_files = []
         for maybe_glob in files:
+            # local files are prioritized over identical paths in s3
+            if os.path.exists(maybe_glob):
+                all_files.append(maybe_glob)
             # add direct matches
-            if "*" not in maybe_glob:
+            elif "*" not in maybe_glob:
                 if maybe_glob in s3_keys:
                     s3_keys_matched.append(maybe_glob)
-                else:
-                    local_files.append(maybe_glob)
+                all_files.append(maybe_glob)
             else:
                 # its a glob, and real local globs will
                 # be pre-expanded by click, so the only
                 # valid globs will be on s3. All remaining
                 # globs are invalid/bad paths
                 matching_files = fnmatch.filter(s3_keys, maybe_glob)
-                if matching_files:
-                    s3_keys_matched += matching_files
-                else:
-                    local_files.append(maybe_glob)
+                s3_keys_matched += matching_files
+                all_files += matching_files or [maybe_glob]
 
         logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
-        local_files_from_s3 = []
-        for s3k in s3_keys_matched:
+        local_files_from_s3 = {}
+        for s3k in dict.fromkeys(s3_keys_matched):
             s3k_basename = os.path.basename(s3k)
             pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
             pardir = os.path.abspath(pardir)
             if not os.path.exists(pardir):
                 os.makedirs(pardir)
             s3k_local_fullname = os.path.join(pardir, s3k_basename)
+            if s3k_local_fullname in local_files_from_s3.values():
+                raise ValueError(f"Several s3 files would be saved to '{s3k_local_fullname}'!")
             logger.info(f"Fetching {s3k} from {s3_bucket}")
             download_s3_object(s3_bucket, s3k, s3k_local_fullname)
             logger.info(f"Fetched s3 file {s3k_basename} to {s3k_local_fullname}")
-            local_files_from_s3.append(s3k_local_fullname)
-        files = local_files + local_files_from_s3
+            local_files_from_s3[s3k] = s3k_local_fullname
+
+        # keep the order in which the files were given
+        files = [local_files_from_s3.get(f, f) for f in all_files]
 
     files = [os.path.abspath(f) for f in files]
 
-- 
2.43.0


From b4270cc7ba402e4203aba62537d0ab80ddfdf658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 087/117] fix: save the automatically named feature matrix to
 the output directory

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 68b1709..b095181 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -940,7 +940,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From 7794770632da245efda6abea474559700a009d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 088/117] fix: save the intermediates of a featurizer applied
 several times to different files

---
 beep/cmd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index b095181..ed87ede 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -847,6 +847,7 @@ def featurize(
     }
     i = 0
     bfs = []
+    intermediates = set()
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
@@ -901,6 +902,13 @@ def featurize(
                 if save_intermediates:
                     intermediate_filename = f"{fclass_name}-{os.path.basename(file)}"
                     output_path = os.path.join(output_dir, intermediate_filename)
+                    # the same featurizer may be applied several times
+                    n_same = 1
+                    while output_path in intermediates:
+                        n_same += 1
+                        intermediate_filename = f"{fclass_name}-{n_same}-{os.path.basename(file)}"
+                        output_path = os.path.join(output_dir, intermediate_filename)
+                    intermediates.add(output_path)
                     dumpfn(f, output_path)
                     logger.info(
                         f"{log_prefix}: Featurizer {fclass_name} features for '{file}' written to '{output_path}'")
-- 
2.43.0


From 68d85e8eddedfea88c83f6568dd7f526ecc8765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:08 +0000
Subject: [PATCH 089/117] fix: report files which cannot be loaded for
 featurization and go on with the others

---
 beep/cmd.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index ed87ede..2cd9843 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -852,18 +852,34 @@ def featurize(
         log_prefix = f"File {i + 1} of {n_files}"
 
         t0_file = time.time()
-        logger.debug(f"Hashing file '{file}' to MD5")
         op_result = {
             "walltime": None,
-            "processed_md5_chksum": md5sum(file),
+            "processed_md5_chksum": None,
+            "traceback": None,
             "featurizers": []
         }
 
-        logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
-        logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        structured_datapath = None
+        try:
+            logger.debug(f"Hashing file '{file}' to MD5")
+            op_result["processed_md5_chksum"] = md5sum(file)
+
+            logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
+            structured_datapath = auto_load_processed(file)
+            logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not be loaded: ({tbinfo[0].__name__}): {file}")
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
 
-        for fclass, f_hyperparams in fclass_tuples:
+        # files which cannot be loaded do not keep the others from being featurized
+        for fclass, f_hyperparams in fclass_tuples if structured_datapath is not None else []:
             fclass_name = fclass.__name__
             op_subresult = {
                 "featurizer_name": fclass_name,
-- 
2.43.0


From 16ce5364e414131941612c9cbc9708b5fc5e2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:08 +0000
Subject: [PATCH 090/117] fix: explore the alphas requested for training

---
 beep/cmd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 2cd9843..f456d03 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1109,7 +1109,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1284,7 +1284,9 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
+    if any(a is not None for a in alpha_params):
+        if any(a is None for a in alpha_params):
+            raise ValueError("--alpha-lower, --alpha-upper and --n-alphas must be specified together.")
         alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
     else:
         alphas = None
-- 
2.43.0


From f0822038a720a3ec397f7eb25f00b168ff449c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:08 +0000
Subject: [PATCH 091/117] fix: pass the training thresholds and l1 ratios by
 the names the model knows

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index f456d03..30e9975 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1295,15 +1295,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From 74eee5a19deef2a5ae97dcbb4c1f010c619fda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:08 +0000
Subject: [PATCH 092/117] fix: let a prediction threshold of zero override that
 of the model

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 30e9975..a3e9daa 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1504,7 +1504,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From 2a318ffed4556eb15ebb08ed7e2899e9490b6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:08 +0000
Subject: [PATCH 093/117] fix: report the protocols which could not be
 generated

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index a3e9daa..09db066 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1619,7 +1619,7 @@ def protocol(
     output_files, failures, result, message = [], [], "", {}
     try:
         results = generate_protocol_files_from_csv(csv_file, output_directory=output_dir)
-        output_files, file_generation_failures, result, message = results
+        output_files, failures, result, message = results
 
         if result == "error" or failures:
             msg = message["comment"]
@@ -1637,8 +1637,8 @@ def protocol(
     for of in output_files:
         status_json["protocol"][of] = {"generated": True}
 
-    for f in failures:
-        status_json["protocol"][f] = {"generated": False}
+    # protocols which were not generated have no file
+    status_json["failures"] = failures
 
     status_json["walltime"] = t1 - t0
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
-- 
2.43.0


From f97f0203542cf0ab1ee510300fc08cb8bff87e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:12 +0000
Subject: [PATCH 094/117] fix: keep every message of the json-lines log on one
 line of valid json

---
 beep/__init__.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/beep/__init__.py b/beep/__init__.py
index 08c1639..e4e5259 100644
--- a/beep/__init__.py
+++ b/beep/__init__.py
@@ -4,6 +4,8 @@ Top-level module for beep.  Put anything that should
 be available in the beep namespace here.
 """
 import os
+import copy
+import json
 import logging
 import sys
 from functools import partial
@@ -69,7 +71,22 @@ logger = logging.getLogger("beep")
 logger.handlers = []
 logger.filters = []
 formatter_stdout = logging.Formatter(**HUMAN_LOG_FMT)
-formatter_jsonl = logging.Formatter(**JSON_LOG_FMT)
+
+
+class _JSONLinesFormatter(logging.Formatter):
+    """Formatter which keeps any message on one line of valid json."""
+
+    def format(self, record):
+        text = record.getMessage()
+        if record.exc_info:
+            text += "\n" + self.formatException(record.exc_info)
+        escaped = copy.copy(record)
+        escaped.msg = json.dumps(text)[1:-1]
+        escaped.args = escaped.exc_info = escaped.exc_text = None
+        return super().format(escaped)
+
+
+formatter_jsonl = _JSONLinesFormatter(**JSON_LOG_FMT)
 
 # Stdout log will always be enabled
 hdlr = logging.StreamHandler(sys.stdout)
-- 
2.43.0


From 8fcb446c603e9e86c8b4c83920b133ddc94bc626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:31 +0000
Subject: [PATCH 095/117] fix: report that no feature matrix is created when no
 featurizer could be applied

---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 09db066..4df2a92 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -46,6 +46,7 @@ from beep.features.base import (
     BEEPFeaturizer,
     BEEPFeaturizationError,
     BEEPFeatureMatrix,
+    BEEPFeatureMatrixError,
 )
 from beep.features.core import (
     HPPCResistanceVoltageFeatures,
@@ -958,6 +959,8 @@ def featurize(
     feature_matrix_status = {}
     try:
         feature_matrix = BEEPFeatureMatrix(bfs)
+        if feature_matrix.matrix is None:
+            raise BEEPFeatureMatrixError("No featurizer could be applied to any file.")
         default_filename = f"FeatureMatrix-{datetime.datetime.now().strftime('%Y-%d-%m_%H.%M.%S.%f')}.json.gz"
 
         # Output filename specification overrides output dir
-- 
2.43.0


From 09a778748115ef3a754dc2b7e65a04f4fbdf6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:56 +0000
Subject: [PATCH 096/117] fix: find project tables in directories whose name
 holds glob characters

---
 beep/deprecated/parameters_lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/deprecated/parameters_lookup.py b/beep/deprecated/parameters_lookup.py
index 5fb8491..d792ee1 100644
--- a/beep/deprecated/parameters_lookup.py
+++ b/beep/deprecated/parameters_lookup.py
@@ -1,4 +1,4 @@
-from glob import glob
+from glob import escape, glob
 import os
 
 import pandas as pd
@@ -42,7 +42,7 @@ def get_project_files(path, project_name):
 
     """
     return [
-        f for f in glob(os.path.join(path, project_name + "*"))
+        f for f in glob(os.path.join(escape(path), escape(project_name) + "*"))
         if not os.path.basename(f)[len(project_name):][:1].isalnum()
     ]
 
-- 
2.43.0


From 2538b35974f4b5feedb98ac7de43e47e503d62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:56 +0000
Subject: [PATCH 097/117] fix: samples with unknown exclusion criteria are not
 included

---
 beep/prediction/beep_data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 56fc846..b870f8c 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -146,7 +146,7 @@ class BEEPDataSplitter(MSONable):
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
 
         if exclusion_columns is not None:
-            X[exclusion_columns] = X[exclusion_columns].fillna(value=False, axis='columns')
+            X[exclusion_columns] = X[exclusion_columns].fillna(value=False, axis='columns').astype(bool)
 
         X = self._impute_df(X, method=impute_strategy)
 
-- 
2.43.0


From 69f7b3f544db35d28d9a7abb0787cf6ba6c1af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:21 +0000
Subject: [PATCH 098/117] fix: lock the state of charge of the lower voltage
 limit when the anode loses material

---
 beep/features/intracell_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index debff2b..cfd43f9 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -720,9 +720,9 @@ class IntracellAnalysis:
         #  Update degradation shifts for LAM_NE
         lower_voltage_limit = self.LOWER_VOLTAGE
         ne_soc_setpoint = ne_pristine['SOC_aligned'].loc[
-            np.argmin((pe_pristine['Voltage_aligned']
-                       - ne_pristine[
-                           'Voltage_aligned'] - lower_voltage_limit))]  # SOC at which the lower voltage limit is hit
+            np.argmin(np.abs(pe_pristine['Voltage_aligned']
+                             - ne_pristine[
+                                 'Voltage_aligned'] - lower_voltage_limit))]  # SOC at which the lower voltage limit is hit
         ne_translation += lam_ne * ne_soc_setpoint / 100  # correction for shrinkage to ensure the locking of the
         # lower voltage SOC
         ne_shrinkage += lam_ne  # shrinkage of NE capacity due to LAM_NE
-- 
2.43.0


From d5e266f2cb7180ce2ae1822248e648742ceefc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 099/117] fix: fit emulated degradation by dQdV when dQdV is
 the error type

---
 beep/features/intracell_analysis_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis_v2.py b/beep/features/intracell_analysis_v2.py
index 4c19e3a..58fa5d2 100644
--- a/beep/features/intracell_analysis_v2.py
+++ b/beep/features/intracell_analysis_v2.py
@@ -798,7 +798,7 @@ class IntracellAnalysisV2:
             elif error_type == 'dVdQ':
                 return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
             elif error_type == 'dQdV':
-                return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
+                return self._get_error_from_degradation_matching_dqdv(x, *params)[0]
             else:
                 return self._get_error_from_degradation_matching_v_q(x, *params)[0]
         except RuntimeError:
-- 
2.43.0


From 7a7e299a0b94e5cc42361f30e7075f690a0d7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 100/117] fix: pass losses to the degradation model by name

---
 beep/features/intracell_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index cfd43f9..4ba128c 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -971,7 +971,8 @@ class IntracellAnalysis:
 
         pe_pristine, ne_pristine, real_full_cell_with_degradation = params
 
-        pe_out, ne_out = self._impose_degradation(pe_pristine, ne_pristine, lli, lam_pe, lam_ne)
+        pe_out, ne_out = self._impose_degradation(pe_pristine, ne_pristine,
+                                                  lli=lli, lam_pe=lam_pe, lam_ne=lam_ne)
         emulated_full_cell_with_degradation = pd.DataFrame()
         emulated_full_cell_with_degradation['SOC_aligned'] = pe_out['SOC_aligned'].copy()
         emulated_full_cell_with_degradation['Voltage_aligned'] = pe_out['Voltage_aligned'] - ne_out['Voltage_aligned']
-- 
2.43.0


From 64833b0a9226d2ec1658236dd4013a55c621de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 101/117] fix: intracell features of runs with a single
 diagnostic do not validate

---
 beep/features/intracell_losses.py    | 18 ++++++++++++++++++
 beep/features/intracell_losses_v2.py | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/beep/features/intracell_losses.py b/beep/features/intracell_losses.py
index e8ce774..13904e3 100644
--- a/beep/features/intracell_losses.py
+++ b/beep/features/intracell_losses.py
@@ -142,6 +142,24 @@ class IntracellFeatures(IntracellCycles):
             and code used to produce features
     """
 
+    def validate(self):
+        """
+        As for all cycles, and there have to be a first and a second diagnostic.
+
+        Returns:
+            bool: True/False indication of ability to proceed with feature generation
+        """
+        val, msg = super().validate()
+        if val:
+            summary = self.datapath.diagnostic_summary
+            n_diagnostics = (
+                (summary.cycle_type == self.hyperparameters["diagnostic_cycle_type"]) &
+                (summary.discharge_capacity > IntracellAnalysis.THRESHOLD)
+            ).sum()
+            if n_diagnostics < 2:
+                return False, "Fewer than two diagnostics above threshold for matching cycle type"
+        return val, msg
+
     def create_features(self):
         """
         Args:
diff --git a/beep/features/intracell_losses_v2.py b/beep/features/intracell_losses_v2.py
index ab0413d..66bbc51 100644
--- a/beep/features/intracell_losses_v2.py
+++ b/beep/features/intracell_losses_v2.py
@@ -157,6 +157,24 @@ class IntracellFeaturesV2(IntracellCyclesV2):
             and code used to produce features
     """
 
+    def validate(self):
+        """
+        As for all cycles, and there have to be a first and a second diagnostic.
+
+        Returns:
+            bool: True/False indication of ability to proceed with feature generation
+        """
+        val, msg = super().validate()
+        if val:
+            summary = self.datapath.diagnostic_summary
+            n_diagnostics = (
+                (summary.cycle_type == self.hyperparameters["diagnostic_cycle_type"]) &
+                (summary.discharge_capacity > IntracellAnalysisV2.THRESHOLD)
+            ).sum()
+            if n_diagnostics < 2:
+                return False, "Fewer than two diagnostics above threshold for matching cycle type"
+        return val, msg
+
     def create_features(self):
         """
         Args:
-- 
2.43.0


From dde98f12ab4f680c94806747be1056bb734962d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 102/117] fix: upload transferred files whole and with their
 own encoding and line ends

---
 beep/utils/project_transfer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 384583b..e398492 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -15,7 +15,6 @@ Options:
 
 from botocore.exceptions import ClientError
 import os
-import shutil
 import boto3
 from monty.tempfile import ScratchDir
 
@@ -83,15 +82,18 @@ class ProjectTransfer:
                 s3.download_file(
                     self.bucket, object_name, os.path.join(scratch_dir, name)
                 )
-                from_file = open(os.path.join(scratch_dir, name))
-                line = from_file.readline()
-                line = line.replace(self.input_project, self.output_project)
                 to_file_name = os.path.join(
                     scratch_dir, name.replace(self.input_project, self.output_project)
                 )
-                to_file = open(to_file_name, "w")
-                to_file.write(line)
-                shutil.copyfileobj(from_file, to_file)
+                # bytes, as the files have various encodings and line ends
+                with open(os.path.join(scratch_dir, name), "rb") as from_file:
+                    line, rest = from_file.readline(), from_file.read()
+                line = line.replace(
+                    self.input_project.encode(), self.output_project.encode()
+                )
+                # closed before the upload, which reads the file
+                with open(to_file_name, "wb") as to_file:
+                    to_file.write(line + rest)
                 if self.dry_run:
                     output_bucket = "beep-sync-test-stage"
                 else:
-- 
2.43.0


From 19c4ee2c0fdff9737a8736c45295cc1e51c01455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 103/117] fix: list a project when a page of the listing has no
 objects

---
 beep/utils/project_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index e398492..424d802 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -62,7 +62,7 @@ class ProjectTransfer:
         paginator = client.get_paginator("list_objects_v2")
         result = paginator.paginate(Bucket=bucket, Delimiter="/", Prefix=prefix)
         for response in result:
-            object_names = object_names + response["Contents"]
+            object_names = object_names + response.get("Contents", [])
         return object_names
 
     def download_and_modify(self, object_names):
-- 
2.43.0


From d58a1cfbb2af531a80840b58e830ea38517bd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 104/117] fix: give dV/dQ, not dQ/dV, over voltage in the
 initial half-cell matching

---
 beep/features/intracell_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index 4ba128c..3c2bf9b 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -284,10 +284,10 @@ class IntracellAnalysis:
          emulated_full_cell_interped) = self.halfcell_initial_matching_v2(x, *params)
 
         # Calculate dVdQ from full cell profiles
-        dv_dq_real = pd.DataFrame(np.gradient(df_real_interped['SOC_aligned'], df_real_interped['Voltage_aligned']),
+        dv_dq_real = pd.DataFrame(np.gradient(df_real_interped['Voltage_aligned'], df_real_interped['SOC_aligned']),
                                   columns=['dVdQ'])
         dv_dq_emulated = pd.DataFrame(
-            np.gradient(emulated_full_cell_interped['SOC_aligned'], emulated_full_cell_interped['Voltage_aligned']),
+            np.gradient(emulated_full_cell_interped['Voltage_aligned'], emulated_full_cell_interped['SOC_aligned']),
             columns=['dVdQ'])
 
         # Include original data
-- 
2.43.0


From 09642028d2f619d0a0b38f5d727b1b1867529b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 105/117] fix: accumulate maccor counters over a step which is
 repeated by a loop

---
 beep/structure/maccor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 16cdafd..1a3f005 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -210,7 +210,10 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # For waveform discharges, maccor seems to trigger ending_status within a step multiple times
         # As a fix, compute the actual step change using diff() on step_index and set end_step to be
         # a logical AND(step_change, end_step)
+        # The same step may also be repeated by a loop, which starts its counters again
         is_step_change = data['step_index'].diff(periods=-1).fillna(value=0) != 0
+        is_step_change |= data['cycle_index'].diff(periods=-1).fillna(value=0) != 0
+        is_step_change |= (data['step_time'].diff(periods=-1).fillna(value=0) > 0) & data['_wf_chg_cap'].isna()
         end_step_inds = end_step.index[np.logical_and(list(end_step), list(is_step_change))]
         # If no end steps, quantity not reset, return it without modifying
         if end_step_inds.size == 0:
-- 
2.43.0


From 13ece88d19fbfe0d9dcfc140eb75ae64d4a193da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 106/117] fix: find maccor impedance files in directories whose
 name holds glob characters

---
 beep/structure/maccor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 1a3f005..fe76663 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -2,7 +2,7 @@
 """
 import os
 from datetime import datetime
-from glob import glob
+from glob import glob, escape
 
 import pandas as pd
 import numpy as np
@@ -158,7 +158,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         if not paths:
             # todo: replace with logging
             print(f"Looking in directory {self.paths['raw']} for EIS runs, as no paths specified to `load_eis`.")
-            eis_pattern = ".*.".join(self.paths["raw"].rsplit(".", 1))
+            eis_pattern = ".*.".join(escape(str(self.paths["raw"])).rsplit(".", 1))
             paths = glob(eis_pattern)
 
         eis_runs = []
-- 
2.43.0


From 72cbbaf36eb2820c7ae35b619865f3062e22e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 107/117] fix: give the times of novonix runs in seconds

---
 beep/structure/novonix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3d84c96..ac2231c 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -79,6 +79,10 @@ class NovonixDatapath(BEEPDatapath):
         name_map = {i: map[i]['beep_name'] for i in map}
         data.rename(name_map, axis="columns", inplace=True)
 
+        # novonix gives times in hours
+        for column in ("test_time", "step_time"):
+            data[column] = data[column] * 3600
+
         # Temperatures with unicode symbol do not work on windows with mapping
         data['Temperature (°C)'] = data['Temperature (°C)'].astype('float')
         data['Circuit Temperature (°C)'] = data[
-- 
2.43.0


From ee1d9d8e51d23534ea0bb0bae665a3735794a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 108/117] fix: keep the date and time of battery archive
 records in UTC and to the second

---
 beep/structure/battery_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 285bb3d..10d2d93 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -50,7 +50,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         "charge_energy": "float64",
         "discharge_energy": "float64",
         "temperature": "float32",
-        "date_time": "float32",
+        "date_time": "float64",
     }
 
     FILE_PATTERN = ".*timeseries\\.csv"
@@ -102,7 +102,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         # convert date time string to
         dts = df["date_time"].apply(lambda x: datetime.strptime(x, dtfmt))
 
-        df["date_time"] = dts.apply(lambda x: x.timestamp())
+        df["date_time"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).timestamp())
         df["date_time_iso"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).isoformat())
 
         for column, dtype in cls.DATA_TYPES.items():
-- 
2.43.0


From 493fa49ee9a141199a7efe0cb430437943e94cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 109/117] fix: do not count the charge of novonix cycles as
 discharged while at rest

---
 beep/structure/novonix.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index ac2231c..e4c2f3e 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -1,6 +1,7 @@
 import os
 from datetime import datetime
 
+import numpy as np
 import pandas as pd
 
 from beep.structure.base import BEEPDatapath
@@ -173,6 +174,13 @@ class NovonixDatapath(BEEPDatapath):
             discharge_data = data[target_column].loc[ix]
             data.loc[ix, target_column] = cycle_metric_max - discharge_data
 
+        # At rest nothing more is withdrawn in the cycle, whatever was charged before
+        rest = data["step_type_name"] == "rest"
+        for target_column in ("discharge_capacity", "discharge_energy"):
+            data.loc[rest, target_column] = np.nan
+            withdrawn = data.groupby("cycle_index")[target_column].ffill().fillna(0)
+            data.loc[rest, target_column] = withdrawn.loc[rest]
+
         data.drop(columns=["cycle_chg_max_capacity", "cycle_chg_max_energy"],
                   inplace=True)
 
-- 
2.43.0


From df01fdce7d407cb42ec88b9dcd29403dd8c7c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 110/117] fix: keep repeated and free-text metadata lines of
 biologic settings

---
 beep/protocol/biologic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 3ede7f8..f554c3b 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -96,6 +96,9 @@ class Settings(DashOrderedDict):
                 metadata.append(["line{}".format(line_num), "blank"])
             else:
                 metadata.append([split_text[line_num], None])
+            # Lines of the same name (e.g. comments of several lines) are kept whole, by line number
+            if metadata[-1][0] in [name for name, _ in metadata[:-1]]:
+                metadata[-1] = ["line{}".format(line_num), split_text[line_num]]
         meta = OrderedDict(metadata)
         obj.set("{}".format(section), meta)
 
@@ -167,12 +170,12 @@ class Settings(DashOrderedDict):
                 continue
             elif data["Metadata"][meta_key] is None:
                 line = meta_key
-            elif data["Metadata"][meta_key] == "blank":
-                line = ""
+            elif re.fullmatch(r"line\d+", meta_key):
+                value = data["Metadata"][meta_key]
+                line = "" if value == "blank" else value
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
             blocks.append(line)
-            data.unset(data["Metadata"][meta_key])
 
         contents = linesep.join(blocks)
 
-- 
2.43.0


From 33a5e7ffb7c2511b792bb9c21eac9a81d52878e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 111/117] fix: leave the parameters given to the charging
 procedure unchanged

---
 beep/protocol/maccor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index cdfe0c7..7c1901d 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -751,7 +751,8 @@ class Procedure(DashOrderedDict):
         dc_idx = 1
         obj.insert_resistance_regcyclev2(dc_idx, reg_param)
 
-        # Set variables necessary to use regcyclev3 function
+        # Set variables necessary to use regcyclev3 function, in a copy of the parameters given
+        reg_param = reg_param.copy()
         reg_param["charge_constant_current_1"] = 1
         reg_param["charge_constant_current_2"] = reg_param["charge_current_param_4"]
         reg_param["charge_percent_limit_1"] = reg_param["charge_fast_soc_limit"]
-- 
2.43.0


From afdff1234dd90eca46e515554dfd9e2fb7ee7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 112/117] fix: write no Biologic settings when their cycle
 advancement rules cannot be made

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 68349af..cec6404 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1264,12 +1264,12 @@ class MaccorToBiologicMb:
         protocol_str = self._diagnostic_file_str_from_technique_partitions_post_conversion(
             technique_partitions_post_conversion
         )
+        cycle_advancement_rules = self._create_cycle_advancement_rules(technique_partitions_post_conversion)
         protocol_fp = os.path.join(out_dir, out_filename + ".mps")
         with open(protocol_fp, "wb") as f:
             print("writing {}".format(protocol_fp))
             f.write(protocol_str.encode("ISO-8859-1"))
 
-        cycle_advancement_rules = self._create_cycle_advancement_rules(technique_partitions_post_conversion)
         advancement_serializer = CycleAdvancementRulesSerializer()
 
         advancement_rules_fps = []
-- 
2.43.0


From 2e30e06ae69f4d0078d7e8640417dc29680c9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 113/117] fix: count cycle advances after leaving a split step
 from its first part

---
 beep/protocol/maccor_to_biologic_mb.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index cec6404..b1faaf8 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1179,14 +1179,11 @@ class MaccorToBiologicMb:
 
             cycle_advances_by_seq_transition = {}
             for (s_, t_), cycle_advances in cycle_advances_by_step_transition.items():
-                # exit from last seq of split, enter at first seq of split
-                if t_ == 33:
-                    print(tp.technique_num)
-                    print(tp.seq_nums_by_step_num)
-                s = tp.seq_nums_by_step_num[s_][-1]
+                # exit from any seq of split, enter at first seq of split
                 t = tp.seq_nums_by_step_num[t_][0]
-                transition = (s, t)
-                cycle_advances_by_seq_transition[transition] = cycle_advances
+                for s in tp.seq_nums_by_step_num[s_]:
+                    if s != t:
+                        cycle_advances_by_seq_transition[(s, t)] = cycle_advances
 
             cycle_advancement_rules.append(
                 CycleAdvancementRules(
-- 
2.43.0


From 0bf9b2522576ea35c30c3d837f883a392bf21f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 114/117] fix: name the file of an inspected featurizer

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 4df2a92..12895c7 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1732,7 +1732,7 @@ def inspect(file):
                 print("\tNo object.")
 
     elif isinstance(o, BEEPFeaturizer):
-        print("\n\nBEEP Featurizer: {file}\n\n")
+        print(f"\n\nBEEP Featurizer: {file}\n\n")
 
         print("\nFile paths:")
         pprint.pprint(o.paths)
-- 
2.43.0


From e111f06001c354c0e2002a53b0a239d822312b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 115/117] fix: a run made without imputed columns loads back
 without them

---
 beep/structure/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index ae8763a..142c274 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -197,6 +197,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         else:
             self.paths = {"raw": None}
 
+        self.impute_missing = impute_missing
         if impute_missing:
             # support legacy operation
             if raw_data is not None:
@@ -388,6 +389,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             "raw_data": self.raw_data.to_dict("list"),
             "metadata": self.metadata.raw,
             "paths": self.paths,
+            "impute_missing": self.impute_missing,
 
             # For backwards compatibility
             # All this data is in the "metadata" key, this is just for redundancy
@@ -442,7 +444,13 @@ class BEEPDatapath(abc.ABC, MSONable):
             metadata = d.get("metadata")
             is_legacy = False
 
-        datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
+        datapath = cls(
+            raw_data=raw_data,
+            metadata=metadata,
+            paths=paths,
+            schema=schema,
+            impute_missing=d.get("impute_missing", True)
+        )
         datapath._is_legacy = is_legacy
 
         structured_data = d["cycles_interpolated"]
-- 
2.43.0


From 546e38932522d2dde4cc14643c0e1d6ba84eaa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 116/117] fix: the choice made for indeterminate steps is kept
 when a run is saved

---
 beep/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 142c274..8c09cbc 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -390,6 +390,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             "metadata": self.metadata.raw,
             "paths": self.paths,
             "impute_missing": self.impute_missing,
+            "indeterminate_step_default_charge": self.indeterminate_step_default_charge,
 
             # For backwards compatibility
             # All this data is in the "metadata" key, this is just for redundancy
@@ -452,6 +453,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             impute_missing=d.get("impute_missing", True)
         )
         datapath._is_legacy = is_legacy
+        datapath.indeterminate_step_default_charge = d.get("indeterminate_step_default_charge", True)
 
         structured_data = d["cycles_interpolated"]
         structured_summary = d["summary"]
-- 
2.43.0


From 8b395f5a4942d6c395bf9c583cfb5ea0d73b5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 117/117] fix: a run of diagnostic cycles only can be
 structured

---
 beep/structure/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 8c09cbc..d0df1d1 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -735,12 +735,12 @@ class BEEPDatapath(abc.ABC, MSONable):
         # If any regular cycle contains a waveform step, interpolate on test_time.
         if self.raw_data[reg_mask]. \
                 groupby(["cycle_index", "step_index"]). \
-                apply(step_is_waveform_dchg).any():
+                apply(step_is_waveform_dchg).to_numpy().any():
             discharge_axis = 'test_time'
 
         if self.raw_data[reg_mask]. \
                 groupby(["cycle_index", "step_index"]). \
-                apply(step_is_waveform_chg).any():
+                apply(step_is_waveform_chg).to_numpy().any():
             charge_axis = 'test_time'
 
         interpolated_discharge = self.interpolate_step(
@@ -876,6 +876,9 @@ class BEEPDatapath(abc.ABC, MSONable):
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
             get_max_paused_over_threshold)
 
+        # Without regular cycles, the columns added above bring rows of diagnostic ones
+        summary = summary[summary.index.isin(reg_cycles)].copy()
+
         # Add CV_time, CV_current, CV_capacity summary stats
         CV_time = []
         CV_current = []
@@ -899,8 +902,9 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         summary = self._cast_dtypes(summary, "summary")
 
-        # Avoid returning empty summary dataframe for single cycle raw_data
-        if summary.shape[0] == 1:
+        # Avoid returning empty summary dataframe for single cycle raw_data,
+        # and looking for the last cycle of none
+        if summary.shape[0] <= 1:
             return summary
 
         last_voltage = self.raw_data.loc[
-- 
2.43.0

