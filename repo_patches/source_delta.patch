From 229845b0ca27e4fc914134b6e8462edf9627d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 01/68] fix: sample-interval of reader counted one interval too
 many

n timestamps span n-1 intervals, samplerate was already derived that way.
A reopened file got 9999 ns instead of 10000 ns for appended data.
---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..19e04eb 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -179,7 +179,7 @@ class Reader:
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
             duration_s = self._cal.time.raw_to_si(duration_raw)
-            self.sample_interval_s = duration_s / sample_count
+            self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From 51eb8e2af6a675d407c4fc8b7b3fbf5097b774c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 02/68] fix: reader did not find the config stored by the
 writer

Writer.store_config() uses the root-attributes, reader only looked in the data-group.
---
 shepherd_core/shepherd_core/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 19e04eb..e5c9293 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -255,8 +255,10 @@ class Reader:
         return ""
 
     def get_config(self) -> Dict:
-        if "config" in self.h5file["data"].attrs:
-            return yaml.safe_load(self.h5file["data"].attrs["config"])
+        for node in [self.h5file, self.h5file["data"]]:
+            # ⤷ .store_config() of the writer puts it in root
+            if "config" in node.attrs:
+                return yaml.safe_load(node.attrs["config"])
         return {}
 
     def get_hostname(self) -> str:
-- 
2.43.0


From 1bc5bd3809e121e744608d7364ddcdd23388636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 03/68] fix: timediff-check crashed for short files & ignored
 jumps between blocks

Files with less than two buffers have no time-deltas (IndexError).
The delta between the last buffer of one block and the first of the next was never looked at.
---
 shepherd_core/shepherd_core/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index e5c9293..9df173a 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -541,8 +541,9 @@ class Reader:
         )
 
         def calc_timediffs(idx_start: int) -> list:
+            # +1 -> include first buffer of next block, to not miss a jump in between
             ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
+                idx_start : (idx_start + self.max_elements + 1) : self.samples_per_buffer
             ]
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
@@ -567,7 +568,8 @@ class Reader:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
             )
-        return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)
+        diff_expected = round(0.1 / self.samples_per_buffer, 6)
+        return all(diff == diff_expected for diff in diffs)
 
     def count_errors_in_log(self, group_name: str = "sheep", min_level: int = 40) -> int:
         if group_name not in self.h5file:
-- 
2.43.0


From 68bc40640a6eac41f9e6d798db99cc4c709f0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 04/68] fix: voltage-step of ivcurves was derived from
 unconverted & wrapped raw-values

Result is documented to be in volts and the most often used delta.
---
 shepherd_core/shepherd_core/reader.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 9df173a..cf84377 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -289,16 +289,16 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
-            diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
+            # raw values are unsigned -> cast avoids overflow for falling voltages
+            dsv = self.ds_voltage[0:2000].astype(np.int64)
+            diffs_np, counts_np = np.unique(np.abs(np.diff(dsv)), return_counts=True)
+            counts_np = counts_np[diffs_np > 0]
+            diffs_np = diffs_np[diffs_np > 0]
             # static voltages have 0 steps, so
-            if len(diffs_ls) == 0:
+            if len(diffs_np) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
-        if voltage_step is not None:
-            voltage_step = 1e-3 * voltage_step
-        return voltage_step
+            return float(diffs_np[counts_np.argmax()] * self._cal.voltage.gain)
+        return 1e-3 * voltage_step
 
     def get_hrv_config(self) -> dict:
         """Essential info for harvester.
-- 
2.43.0


From da253bae626db17a41592862a9bfef189bd0f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 05/68] fix: mean & std of long datasets were averaged over
 blocks of unequal size

---
 shepherd_core/shepherd_core/reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index cf84377..5ea5bb4 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -505,7 +505,7 @@ class Reader:
         )
 
         def _calc_statistics(data: np.ndarray) -> list:
-            return [np.mean(data), np.min(data), np.max(data), np.std(data)]
+            return [np.mean(data), np.min(data), np.max(data), np.var(data), data.shape[0]]
 
         stats_list = [
             _calc_statistics(cal.raw_to_si(dset[i : i + self.max_elements])) for i in job_iter
@@ -513,12 +513,17 @@ class Reader:
         if len(stats_list) < 1:
             return {}
         stats_nd = np.stack(stats_list)
+        # blocks differ in size, total variance = mean of variances + variance of means
+        mean = np.average(stats_nd[:, 0], weights=stats_nd[:, 4])
+        variance = np.average(
+            stats_nd[:, 3] + (stats_nd[:, 0] - mean) ** 2, weights=stats_nd[:, 4]
+        )
         stats: Dict[str, float] = {
             # TODO: wrong calculation for ndim-datasets with n>1
-            "mean": float(stats_nd[:, 0].mean()),
+            "mean": float(mean),
             "min": float(stats_nd[:, 1].min()),
             "max": float(stats_nd[:, 2].max()),
-            "std": float(stats_nd[:, 3].mean()),  # TODO: sooo wrong :)
+            "std": float(math.sqrt(variance)),
             "si_converted": si_converted,
         }
         return stats
-- 
2.43.0


From c5c7b1050550654cda1eab82333553f83a42fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 06/68] fix: reader crashed on empty gpio-traces

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 5ea5bb4..ad3e6b8 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -680,6 +680,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if data.size < 1:
+            return np.zeros(0, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
-- 
2.43.0


From 12db7c800f98049b2557daaf2e20101de6446dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 07/68] fix: gpio-lookup by name crashed for unknown pins &
 ignored exact matches

'gpio1' was resolved to 'gpio10' if that pin is listed first.
---
 shepherd_core/shepherd_core/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index ad3e6b8..83c67f5 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -667,6 +667,9 @@ class Reader:
         if "gpio" not in self.h5file:
             return None
         descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
+        for desc_name, desc in descriptions.items():
+            if name == desc["name"]:
+                return int(desc_name)
         for desc_name, desc in descriptions.items():
             if name in desc["name"]:
                 return int(desc_name)
@@ -697,7 +700,8 @@ class Reader:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
             pin_dict = {value["name"]: key for key, value in descriptions.items()}
         else:
-            pin_dict = {name: self.get_gpio_pin_num(name)}
+            pin_num = self.get_gpio_pin_num(name)
+            pin_dict = {} if pin_num is None else {name: pin_num}
 
         for pin_name, pin_num in pin_dict.items():
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
-- 
2.43.0


From 3fb61007924adfc3ac21105c3fd79dbad488c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 08/68] fix: uart-decoder altered the array handed in by the
 caller

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..ae54452 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -72,7 +72,8 @@ class Uart:
             # TODO: if float fails load as str -
             #  cast first col as np.datetime64 with ns-resolution, convert to delta
         else:
-            self.events_sig = content
+            self.events_sig = content.astype(float)
+            # ⤷ copy, as data is altered below
 
         # verify table
         if self.events_sig.shape[1] != 2:
-- 
2.43.0


From 49ce448e36b473b498bc56a87706619db765fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 09/68] fix: uart-decoder dropped the most significant bit of
 each frame

7 bit frames and symbols >= 0x80 were decoded wrong.
---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index ae54452..7a3f8c1 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -219,6 +219,8 @@ class Uart:
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
+                        # all remaining bits of the frame are high
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
                         content.append([t_start, chr(symbol)])
                         t_start = None
                         symbol = 0
@@ -233,7 +235,7 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
+                    chunk = min(steps, self.frame_length - pos_df)
                     lshift = min(pos_df, self.frame_length - 1)
                     symbol += (2 ** round(chunk) - 1) << lshift
                 pos_df += round(steps)
-- 
2.43.0


From d9dfebdd7f935e6dfe4614e354907c9be6139bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 10/68] fix: uart-decoder lost symbols when splitting text into
 lines

- symbol following a lone CR was swallowed
- text after the last line-break was dropped (ValueError if there was none at all)
---
 .../shepherd_core/decoder_waveform/uart.py     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 7a3f8c1..cae3de9 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -269,21 +269,23 @@ class Uart:
         t_start = None
         line = ""
         for time, symbol in self.events_symbols:
-            if symbol == "\n" or semi_stop:
-                if symbol == "\n":
-                    line += symbol
+            if semi_stop and symbol != "\n":
+                # previous line ended with a lone \r, current symbol starts a new one
                 content.append((t_start, line))
-                semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
-                    continue
-            if symbol == "\r":
-                semi_stop = True
+            semi_stop = symbol == "\r"
 
             if t_start is None:
                 t_start = time
             line += symbol
+            if symbol == "\n":
+                content.append((t_start, line))
+                t_start = None
+                line = ""
+        if len(line) > 0:
+            # unfinished last line
+            content.append((t_start, line))
         self.events_lines = np.concatenate(content).reshape((len(content), 2))
         return self.events_lines
 
-- 
2.43.0


From a5349b3bd9f9dfa3d29985908da5c259ff73cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 11/68] fix: uart-decoder lost symbols with a maximal low-phase
 due to float-rounding

start-bit + all but the last data-bit low equals the frame-length, which was taken for a pause.
---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index cae3de9..f84d8c8 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -215,7 +215,7 @@ class Uart:
         content = []
 
         for time, value, steps in self.events_sig:
-            if steps > self.frame_length:
+            if round(steps) > self.frame_length:
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
-- 
2.43.0


From be77203302c47e06adad0a76041d9b00d80aa574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 12/68] fix: sub-second part of durations was lost when storing
 models

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 2 ++
 shepherd_core/shepherd_core/writer.py                    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..1b681b7 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -32,6 +32,8 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
+    if data.microseconds != 0:
+        return dumper.represent_float(data.total_seconds())
     return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
 
 
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..7462d4d 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,6 +42,8 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
+    if data.microseconds != 0:
+        return dumper.represent_float(data.total_seconds())
     return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
 
 
-- 
2.43.0


From 9d773c5f15ead8710e94c06f5c5778e18ca7d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 13/68] fix: models with IPv6-address or URL could not be
 stored

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 1b681b7..916aebf 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,8 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
+from pydantic_core import Url
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -47,6 +50,9 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2int, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
+yaml.add_representer(Url, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From f27cd6c89c7b9dac85c471bb85f9a35e054969bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 14/68] fix: harvester-fixtures cv33 & cv10 shared the same id

---
 .../data_models/content/virtual_harvester_fixture.yaml          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
index 9fc270a..0ee7603 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
@@ -88,7 +88,7 @@
 
 - datatype: VirtualHarvesterConfig
   parameters:
-    id: 2102
+    id: 2103
     name: cv10
     inherit_from: cv20
     voltage_mV: 1000
-- 
2.43.0


From 0ac4cf9263c2c82e0a1b3eb7ba5a5591c5fd31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 15/68] fix: circles in the inheritance of fixtures ended in
 endless recursion

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..26355ba 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -107,6 +107,9 @@ class Fixture:
                         msg,
                     )
                 chain.append(base_name)
+            if str(fixture_name).lower() in {str(_name).lower() for _name in chain[1:]}:
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             fixture_base = copy.copy(self[fixture_name])
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
             fixture_base["name"] = fixture_name
-- 
2.43.0


From 0cf2787b14cb4e7683d774492f9015a49e42c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 16/68] fix: hash of models with timezone-aware dates changed
 after loading from file

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 916aebf..4c2ad4c 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -1,6 +1,7 @@
 """Shepherds base-model that brings a lot of default functionality."""
 
 import hashlib
+import json
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
@@ -172,4 +173,6 @@ class ShpModel(BaseModel):
         return cls(**shp_wrap.parameters)
 
     def get_hash(self) -> str:
-        return hashlib.sha3_224(str(self.model_dump()).encode("utf-8")).hexdigest()
+        # str() of elements is - different to repr() - independent of the timezone-implementation
+        content = json.dumps(self.model_dump(), default=str)
+        return hashlib.sha3_224(content.encode("utf-8")).hexdigest()
-- 
2.43.0


From 6d9e40d5d135547b057486c228a8395842c7c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 17/68] fix: fixtures with uuid could not be queried by their
 id

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 26355ba..7fb188b 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -10,6 +10,7 @@ from typing import Dict
 from typing import Mapping
 from typing import Optional
 from typing import Union
+from uuid import UUID
 
 import yaml
 from pydantic import validate_call
@@ -154,7 +155,7 @@ class Fixture:
         return base
 
     def query_id(self, _id: int) -> dict:
-        if isinstance(_id, int) and _id in self.elements_by_id:
+        if isinstance(_id, (int, UUID)) and _id in self.elements_by_id:
             return self.elements_by_id[_id]
         msg = f"Initialization of {self.model_type} by ID failed - {_id} is unknown!"
         raise ValueError(msg)
-- 
2.43.0


From 50fac83e5240d14d4505afc0c7a263e958ffe705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 18/68] fix: tiny output-efficiencies crashed the conversion of
 the virtual source

---
 .../shepherd_core/data_models/content/virtual_source.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_source.py b/shepherd_core/shepherd_core/data_models/content/virtual_source.py
index 2cc900e..7b41d6e 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_source.py
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_source.py
@@ -346,7 +346,7 @@ class ConverterPRUConfig(ShpModel):
                 [min(255, round(256 * ival)) for ival in il] for il in data.LUT_input_efficiency
             ],
             LUT_out_inv_efficiency_n4=[
-                min((2**14), round((2**4) / value)) if (value > 0) else (2**14)
+                round(min(2**14, (2**4) / value)) if (value > 0) else (2**14)
                 for value in data.LUT_output_efficiency
             ],
         )
-- 
2.43.0


From 82bb76be76b7eacd7fe5b42891e0776d0dc5b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 19/68] fix: linear extrapolation of the harvester yielded
 negative currents

---
 shepherd_core/shepherd_core/vsource/virtual_harvester_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index 41cf950..4904698 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -144,7 +144,8 @@ class VirtualHarvesterModel:
         self.voltage_last = _voltage_uV
         self.current_last = _current_nA
         self.compare_last = compare_now
-        return self.voltage_hold, self.current_hold
+        # Next line is Python-specific (model unsigned int)
+        return max(0, self.voltage_hold), max(0, self.current_hold)
 
     def ivcurve_2_mppt_voc(self, _voltage_uV: int, _current_nA: int) -> Tuple[int, int]:
         self.interval_step = self.interval_step + 1
-- 
2.43.0


From 7b46cf058d117c2d0f53892ff6469401ec2e2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 20/68] fix: diode-path of the converter created energy below
 the storage-voltage

---
 shepherd_core/shepherd_core/vsource/virtual_converter_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
index 8d0c1f5..50a66f4 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
@@ -127,6 +127,7 @@ class VirtualConverterModel:
             # TODO: vdrop in case of v_input > v_storage (non-boost)
         elif self.enable_storage:
             # no boost, but cap, for ie. diode+cap (+resistor)
+            V_inp_too_low = input_voltage_uV < self.V_mid_uV
             V_diff_uV = (
                 (input_voltage_uV - self.V_mid_uV) if (input_voltage_uV >= self.V_mid_uV) else 0
             )
@@ -139,7 +140,7 @@ class VirtualConverterModel:
             # IF input==ivcurve request new CV
             if self.feedback_to_hrv:
                 self.V_input_request_uV = self.V_mid_uV + V_res_drop_uV + self._cfg.V_input_drop_uV
-            elif input_voltage_uV < self.V_mid_uV:
+            elif V_inp_too_low:
                 # without feedback there is no usable energy here
                 input_voltage_uV = 0
         else:
-- 
2.43.0


From de79252cecee11657aec7c7c8010a5009334fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 21/68] fix: target with constant power crashed while its
 supply is switched off

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..81932dc 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From c634e828a6aedc6e2d9d17b07b763d1e3ca67db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 22/68] fix: solver of the diode-target did not converge for
 low voltages

---
 .../shepherd_core/vsource/target_model.py     | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index 81932dc..a5cf276 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -12,7 +12,6 @@ TODO: add more targets
 import math
 from abc import ABC
 from abc import abstractmethod
-from contextlib import suppress
 
 
 class TargetABC(ABC):
@@ -79,22 +78,23 @@ class DiodeTarget(TargetABC):
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
         if pwr_good or not self.ctrl:
-            V_CC = voltage_uV * 1e-6
-            V_D = V_CC / 2
-            I_R = I_D = 0
-            # there is no direct formular, but this iteration converges fast
-            for _ in range(10):
-                # low voltages tend to produce log(x<0)=err
-                with suppress(ValueError):
-                    V_D = self.c1 * math.log(1 + (V_CC - V_D) / (self.R_Ohm * self.I_S))
+            V_CC = max(0.0, voltage_uV * 1e-6)
+            # there is no direct formula, but the solution can be bisected as
+            # with rising V_D the current of the resistor falls & the one of the diode rises
+            V_min = 0.0
+            V_max = min(V_CC, self.c1 * math.log1p(V_CC / (self.R_Ohm * self.I_S)))
+            I_R = I_D = 0.0
+            for _ in range(60):
+                V_D = (V_min + V_max) / 2
                 # both currents are positive and should be identical
                 I_R = max(0.0, (V_CC - V_D) / self.R_Ohm)
                 I_D = max(0.0, self.I_S * math.expm1(V_D / self.c1))
-                with suppress(ZeroDivisionError):
-                    if abs(I_R / I_D - 1) < 1e-6:
-                        break
-                # take mean of both currents and determine a new V_D
-                V_D = V_CC - self.R_Ohm * (I_R + I_D) / 2
+                if abs(I_R - I_D) <= 1e-9 * I_R:
+                    break
+                if I_D > I_R:
+                    V_max = V_D
+                else:
+                    V_min = V_D
             return 1e9 * (I_R + I_D) / 2  # = nA
         return 0
 
-- 
2.43.0


From dda5e0b7023b52d473eef6efb1c7b048b1c0e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 23/68] fix: start-address in vector-table of msp430-images was
 never checked

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..93fffe2 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -51,10 +51,10 @@ def is_hex_msp430(file: Path) -> bool:
         ih = IntelHex(file.as_posix())
         if ih.minaddr() != 0x4000:
             return False
-        if 0xFFFE not in ih.addresses():
+        if not {0xFFFE, 0xFFFF}.issubset(ih.addresses()):
             return False
         value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
-        if 0x4000 > value >= 0xFF80:
+        if not 0x4000 <= value < 0xFF80:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-- 
2.43.0


From 5149ce0fdec4cf25a2511438826ae8665100f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 24/68] fix: size of hex-images was mistaken for the size of
 the python-object

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 93fffe2..192970a 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -58,7 +58,7 @@ def is_hex_msp430(file: Path) -> bool:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-        return ih.get_memory_size() <= 270_000
+        return len(ih.addresses()) <= 270_000
     return False
 
 
@@ -71,9 +71,8 @@ def is_hex_nrf52(file: Path) -> bool:
     """
     if is_hex(file):
         ih = IntelHex(file.as_posix())
-        # conservative test for now - should be between 0 and 1 MB + 256 kB,
-        # but lately showed much higher values > 4 MB
-        return ih.get_memory_size() > 0
+        # conservative test for now - should be between 0 and 1 MB + 256 kB
+        return len(ih.addresses()) > 0
     return False
 
 
-- 
2.43.0


From 72a5ac65143664da46f89895f80264de41108aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 25/68] fix: undecodable firmware raised an error past the
 validation

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..438dd32 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -14,6 +14,7 @@ from pydantic import validate_call
 from typing_extensions import Annotated
 from typing_extensions import Self
 from typing_extensions import Unpack
+from zstandard import ZstdError
 
 from ... import fw_tools
 from ...logger import logger
@@ -74,7 +75,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         }:
             try:
                 _hash = fw_tools.base64_to_hash(values.get("data"))
-            except ValueError:
+            except (ValueError, ZstdError):
                 raise ValueError("Embedded Firmware seems to be faulty") from None
             if values.get("data_hash") is not None and _hash != values.get("data_hash"):
                 raise ValueError("Embedded Firmware and Hash do not match!")
-- 
2.43.0


From 199a43f828107457bdbb38044295d0c024032ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 26/68] fix: hash-comparison of non-embedded firmware crashed

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 438dd32..5952f88 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -145,9 +145,14 @@ class Firmware(ContentModel, title="Firmware of Target"):
         if self.data_hash is None:
             return True
 
+        if path is None and self.data_type in {FirmwareDType.path_hex, FirmwareDType.path_elf}:
+            path = Path(self.data)
+
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
             match = self.data_hash == hash_new
+        elif self.data_type in {FirmwareDType.path_hex, FirmwareDType.path_elf}:
+            match = False
         else:
             hash_new = fw_tools.base64_to_hash(self.data)
             match = self.data_hash == hash_new
-- 
2.43.0


From cbf38bb0ad97cf77ac6fc86b018367e9b6c2f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 27/68] fix: search for targets crashed on active observers
 without cape

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..472d1b6 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,7 +93,7 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
+            if not _observer.active or _observer.cape is None or not _observer.cape.active:
                 # skip decommissioned setups
                 continue
             if _observer.has_target(target_id):
-- 
2.43.0


From b03c30051dd5996a5f29da60bd4ac35604666b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 28/68] fix: capes & targets used twice in testbed were not
 detected

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 472d1b6..f1f75c9 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -67,11 +67,11 @@ class Testbed(ShpModel):
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
-                capes.append(_obs.cape)
+                capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-                targets.append(_obs.target_a)
+                targets.append(_obs.target_a.id)
             if _obs.target_b is not None:
-                targets.append(_obs.target_b)
+                targets.append(_obs.target_b.id)
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
-- 
2.43.0


From d3da859808231d032bb18cbf51476ca7e697b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 29/68] fix: target without id crashed instead of failing the
 validation

---
 shepherd_core/shepherd_core/data_models/testbed/target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/target.py b/shepherd_core/shepherd_core/data_models/testbed/target.py
index f64a94b..ca5d893 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/target.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/target.py
@@ -55,7 +55,7 @@ class Target(ShpModel, title="Target Node (DuT)"):
                 # ⤷ this will raise if default is faulty
             elif isinstance(values.get(_mcu), dict):
                 values[_mcu] = MCU(**values[_mcu])
-        if values.get("testbed_id") is None:
-            values["testbed_id"] = values.get("id") % 2**16
+        if values.get("testbed_id") is None and values.get("id") is not None:
+            values["testbed_id"] = int(values.get("id")) % 2**16
 
         return values
-- 
2.43.0


From 01cb88c2f9348961fe9cad6c074b686a16923eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 30/68] fix: mcu with 5 V programming-voltage is valid but
 could not be programmed

---
 shepherd_core/shepherd_core/data_models/task/programming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/programming.py b/shepherd_core/shepherd_core/data_models/task/programming.py
index e54470e..98395c6 100644
--- a/shepherd_core/shepherd_core/data_models/task/programming.py
+++ b/shepherd_core/shepherd_core/data_models/task/programming.py
@@ -30,7 +30,7 @@ class ProgrammingTask(ShpModel):
     mcu_port: MCUPort = 1
     mcu_type: SafeStr
     # ⤷ must be either "nrf52" or "msp430" ATM, TODO: clean xp to tasks
-    voltage: Annotated[float, Field(ge=1, lt=5)] = 3
+    voltage: Annotated[float, Field(ge=1, le=5)] = 3
     datarate: Annotated[int, Field(gt=0, le=1_000_000)] = 200_000
     protocol: ProgrammerProtocol
 
-- 
2.43.0


From fe75025686fbbb1262f94ad4186db6955c8e308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 31/68] fix: rounding-errors resulted in additional gpio-events

---
 .../shepherd_core/data_models/experiment/observer_features.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
index 1fa133d..658cb16 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
@@ -115,8 +115,7 @@ class GpioEvent(ShpModel, title="Config for a GPIO-Event"):
         return self
 
     def get_events(self) -> np.ndarray:
-        stop = self.delay + self.count * self.period
-        return np.arange(self.delay, stop, self.period)
+        return self.delay + self.period * np.arange(self.count)
 
 
 class GpioActuation(ShpModel, title="Config for GPIO-Actuation"):
-- 
2.43.0


From e8bac876118d8b10ee31d59adfede2031ee85c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 32/68] fix: tasks altered the dict handed in by the caller

---
 shepherd_core/shepherd_core/data_models/task/emulation.py | 1 +
 shepherd_core/shepherd_core/data_models/task/harvest.py   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/task/emulation.py b/shepherd_core/shepherd_core/data_models/task/emulation.py
index 579bd44..d3ef73d 100644
--- a/shepherd_core/shepherd_core/data_models/task/emulation.py
+++ b/shepherd_core/shepherd_core/data_models/task/emulation.py
@@ -98,6 +98,7 @@ class EmulationTask(ShpModel):
     @model_validator(mode="before")
     @classmethod
     def pre_correction(cls, values: dict) -> dict:
+        values = copy.copy(values)
         # convert & add local timezone-data
         has_time = values.get("time_start") is not None
         if has_time and isinstance(values["time_start"], (int, float)):
diff --git a/shepherd_core/shepherd_core/data_models/task/harvest.py b/shepherd_core/shepherd_core/data_models/task/harvest.py
index 1cf1610..06d881f 100644
--- a/shepherd_core/shepherd_core/data_models/task/harvest.py
+++ b/shepherd_core/shepherd_core/data_models/task/harvest.py
@@ -1,5 +1,6 @@
 """Config for the Observer in Harvest-Mode to record IV data from a harvesting-source."""
 
+import copy
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
@@ -57,6 +58,7 @@ class HarvestTask(ShpModel):
     @model_validator(mode="before")
     @classmethod
     def pre_correction(cls, values: dict) -> dict:
+        values = copy.copy(values)
         # convert & add local timezone-data, TODO: used twice, refactor
         has_time = values.get("time_start") is not None
         if has_time and isinstance(values["time_start"], (int, float)):
-- 
2.43.0


From 4a7e4ffee736422f4c75e93b62dece5b9831e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 33/68] fix: documented compression-level 1 was refused

---
 shepherd_core/shepherd_core/data_models/task/emulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/task/emulation.py b/shepherd_core/shepherd_core/data_models/task/emulation.py
index d3ef73d..ee7bc2b 100644
--- a/shepherd_core/shepherd_core/data_models/task/emulation.py
+++ b/shepherd_core/shepherd_core/data_models/task/emulation.py
@@ -33,6 +33,12 @@ class Compression(str, Enum):
     lzf = default = "lzf"  # not native hdf5
     gzip1 = gzip = 1  # higher compr & load
     null = None
+    @classmethod
+    def _missing_(cls, value: object) -> Optional["Compression"]:
+        if isinstance(value, int) and not isinstance(value, bool) and value == 1:
+            return cls.gzip1  # str-enum -> value is "1"
+        return None
+
     # NOTE: lzf & external file-compression (xz or zstd) work better than gzip
     #       -> even with additional compression
 
-- 
2.43.0


From e1d3471838a23b5b6bd4581e8591f5dfbca6509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 34/68] fix: local time was off by one hour outside of the
 daylight saving time

---
 shepherd_core/shepherd_core/data_models/base/timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 69ff3b5..086fe7c 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -8,7 +8,7 @@ from datetime import timezone
 
 def local_tz() -> timezone:
     """Query the local timezone of the user."""
-    if time.daylight:
+    if time.daylight and time.localtime().tm_isdst > 0:
         return timezone(timedelta(seconds=-time.altzone), time.tzname[1])
     return timezone(timedelta(seconds=-time.timezone), time.tzname[0])
 
-- 
2.43.0


From df35abb69cba3238afcd49c2a02453f9ff54eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 35/68] fix: collisions of node-ids were searched in target-ids
 instead of the ids used for the firmware

---
 .../shepherd_core/data_models/experiment/experiment.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/experiment.py b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
index fcc6493..59b8e32 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/experiment.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
@@ -71,16 +71,17 @@ class Experiment(ShpModel, title="Config of an Experiment"):
     @staticmethod
     def _validate_targets(configs: Iterable[TargetConfig]) -> None:
         target_ids = []
+        testbed_ids = {}
         custom_ids = []
         for _config in configs:
             for _id in _config.target_IDs:
                 target_ids.append(_id)
-                Target(id=_id)
+                testbed_ids[_id] = Target(id=_id).testbed_id
                 # ⤷ this can raise exception for non-existing targets
             if _config.custom_IDs is not None:
                 custom_ids = custom_ids + _config.custom_IDs[: len(_config.target_IDs)]
             else:
-                custom_ids = custom_ids + _config.target_IDs
+                custom_ids = custom_ids + [testbed_ids[_id] for _id in _config.target_IDs]
         if len(target_ids) > len(set(target_ids)):
             raise ValueError("Target-ID used more than once in Experiment!")
         if len(target_ids) > len(set(custom_ids)):
-- 
2.43.0


From b72a31c155b5e8f6456dd673ea34d97a53f84936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 36/68] fix: blockwise downsampling restarted decimation and
 drifted for odd factors

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..af0fb7b 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,7 +203,8 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
+        # blocks contain a multiple of the factor, so decimation continues seamlessly
+        iblock_len = min(max(self.max_elements // ds_factor, 1) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
-- 
2.43.0


From ed69317c39eceae92bd446674f6bb295e218ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 37/68] fix: downsampled traces started with a transient from
 zero

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index af0fb7b..4ddca36 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -224,7 +224,8 @@ class Reader(CoreReader):
             ftype="butter",
         )
         # filter state - needed for sliced calculation
-        f_state = np.zeros((filter_.shape[0], 2))
+        # starting in steady-state avoids a transient (from zero) at the beginning
+        f_state = signal.sosfilt_zi(filter_) * float(data_src[start_n])
 
         slice_len = 0
         for _iter in trange(
-- 
2.43.0


From f35b0008345e4d53627b411d14c3b80fd795debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 38/68] fix: downsampling into a provided numpy-array failed

---
 shepherd_data/shepherd_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 4ddca36..a29abfc 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -210,8 +210,10 @@ class Reader(CoreReader):
         dest_len = math.floor(data_len / ds_factor)
         if data_dst is None:
             data_dst = np.empty((dest_len,))
-        elif isinstance(data_dst, (h5py.Dataset, np.ndarray)):
+        elif isinstance(data_dst, h5py.Dataset):
             data_dst.resize((dest_len,))
+        elif isinstance(data_dst, np.ndarray):
+            data_dst.resize((dest_len,), refcheck=False)
 
         # 8th order butterworth filter for downsampling
         # note: cheby1 does not work well for static outputs
-- 
2.43.0


From 4c3bb9513affdd8d34ad70e73bbd3d40faa2d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 39/68] fix: fractional downsample-factors were mislabeled in
 file-name and attribute

---
 shepherd_data/shepherd_data/reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index a29abfc..5233b4d 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -287,6 +287,7 @@ class Reader(CoreReader):
                 "Cut & downsample for %s failed because factor < 1",
                 self.file_path.name,
             )
+        ds_factor = math.floor(ds_factor)  # as used for downsampling
         if ((end_sample - start_sample) / ds_factor) < 1000:
             raise ValueError(
                 "Cut & downsample for %s failed because resulting sample-size is too small",
-- 
2.43.0


From d905bfd45eb9f66f47c124e3226a241dd1c1f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 40/68] fix: cutting and plotting lost the end of recordings
 due to rounded runtime

---
 shepherd_data/shepherd_data/reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 5233b4d..30d2760 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -262,13 +262,14 @@ class Reader(CoreReader):
         - ".downsample_x"
         when applicable.
         """
-        # prepare cut
+        # prepare cut (self.runtime_s is rounded and could omit or add samples)
+        runtime_s = self.ds_time.shape[0] / self.samplerate_sps
         if not isinstance(start_s, (float, int)):
             start_s = 0
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = runtime_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(runtime_s, end_s)
 
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
@@ -295,7 +296,7 @@ class Reader(CoreReader):
             )
 
         # assemble file-name of output
-        if start_s != 0.0 or end_s != self.runtime_s:
+        if start_s != 0.0 or end_s != runtime_s:
             start_str = f"{start_s:.3f}".replace(".", "s")
             end_str = f"{end_s:.3f}".replace(".", "s")
             cut_str = f".cut_{start_str}_to_{end_str}"
@@ -475,12 +476,13 @@ class Reader(CoreReader):
         """
         if self.get_datatype() == "ivcurve":
             self._logger.warning("Plot-Function was not written for IVCurves.")
+        runtime_s = self.ds_time.shape[0] / self.samplerate_sps
         if not isinstance(start_s, (float, int)):
             start_s = 0
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = runtime_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(runtime_s, end_s)
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
         if end_sample - start_sample < 5:
-- 
2.43.0


From 15911b20d217d540a52365ee7b4d56097901a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 41/68] fix: csv-export shifted values without calibration by
 one

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 30d2760..2b0ccb4 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From 0d472f50d33c1d417977f54e06ed8a72004269f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 42/68] fix: log-export crashed for groups with nested elements

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 2b0ccb4..ea6997e 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -109,7 +109,7 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [key for key in h5_group if isinstance(h5_group[key], h5py.Dataset)]
         datasets.remove("time")
         with log_path.open("w", encoding="utf-8-sig") as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-- 
2.43.0


From 0a71272689bc4de6db37d67fcb21371b53811296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 43/68] fix: header of exported waveforms ignored the separator

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 83c67f5..bf16caa 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -720,7 +720,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From 1d478123691e1524073231757e78757c3798bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 44/68] fix: downsample-command kept factor of first file for
 all others

---
 shepherd_data/shepherd_data/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..132213b 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -330,11 +330,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
-                if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                factor = ds_factor
+                if factor is None and sample_rate is not None and sample_rate >= 1:
+                    factor = shpr.samplerate_sps / sample_rate
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(factor, (float, int)) and factor >= 1:
+                    ds_list = [factor]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From ac983e5928a3467200e38e0281619e34b5af8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 45/68] fix: validate-command reported success for unreadable
 files

---
 shepherd_data/shepherd_data/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 132213b..8245d49 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -89,6 +89,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
         except TypeError:
+            valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
 
-- 
2.43.0


From 0fb1744ea7840b195efc5408c7591f67ee52d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 46/68] fix: commands crashed on faulty files instead of
 skipping them

---
 shepherd_data/shepherd_data/cli.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 8245d49..745012b 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -88,7 +88,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 valid_dir &= valid_file
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
-        except TypeError:
+        except (TypeError, KeyError):
             valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
@@ -158,7 +158,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -203,7 +203,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except (TypeError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -244,7 +244,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except (TypeError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -274,7 +274,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except (TypeError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -343,7 +343,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except (TypeError, ValueError, KeyError):  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -422,7 +422,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except (TypeError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From d4b015c4512139354e76bad5a2e2b2d5f73f8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 47/68] fix: multiplot-command crashed without plottable data

---
 shepherd_data/shepherd_data/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 745012b..de4c4f2 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -426,6 +426,9 @@ def plot(
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
+        if len(data) < 1:
+            logger.error("No data to plot!")
+            return
         mpl_path = Reader.multiplot_to_file(data, in_data, width, height, only_pwr=only_power)
         if mpl_path:
             logger.info("Plot generated and saved to '%s'", mpl_path.name)
-- 
2.43.0


From 25e8c2afb0c5f74192278fcade7f605141d847a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 48/68] fix: open-circuit tracker failed without provided
 open-circuit voltage

---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..38a3447 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -80,7 +80,7 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
             lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
             axis=1,
-- 
2.43.0


From a781a01d2d342bdb94fcc5b7939ef88a53666635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 49/68] fix: open-circuit tracker crashed during darkness

---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 38a3447..87c343a 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -82,7 +82,7 @@ class OpenCircuitTracker(MPPTracker):
         if "voc" not in coeffs.columns:
             coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From b8dc809eaa3b218207d00e788db7fbfbaf6d748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 50/68] fix: open-circuit voltage was found to be zero if it
 lies beyond the curve

---
 shepherd_data/shepherd_data/mppt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 87c343a..4d4eac1 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -36,7 +36,8 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     Searches last current value that is above a certain ratio of the short-circuit
     current.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    below = i_arr <= i_arr[0] * ratio
+    return v_arr[np.argmax(below)] if below.any() else v_arr[-1]
 
 
 class MPPTracker(ABC):
-- 
2.43.0


From fbf2a5508b66378bc930fcd7e6984a50578e66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 51/68] fix: ivonne-conversion crashed on short sections of two
 or three samples

---
 shepherd_data/shepherd_data/ivonne.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..0fad972 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -147,7 +147,7 @@ class Reader:
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
                     df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
+                    .interpolate(method="cubic" if len(df_slice) > 3 else "linear")
                     .iloc[:-1]
                 )
 
@@ -228,7 +228,9 @@ class Reader:
                 df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                    df_slice.resample(f"{interval_us}us")
+                    .interpolate(method="cubic" if len(df_slice) > 3 else "linear")
+                    .iloc[:-1]
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
@@ -279,7 +281,9 @@ class Reader:
                 df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                    df_slice.resample(f"{interval_us}us")
+                    .interpolate(method="cubic" if len(df_slice) > 3 else "linear")
+                    .iloc[:-1]
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
-- 
2.43.0


From 14358ebdf5bf37d171b72001cac222622ea312d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 52/68] fix: ivonne-conversion to curves left gaps and lost
 data for uneven curve-lengths

---
 shepherd_data/shepherd_data/ivonne.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0fad972..9234205 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -134,9 +134,14 @@ class Reader:
 
         with Writer(shp_output, datatype="ivcurve", window_samples=pts_per_curve) as sfw:
             sfw.store_hostname("IVonne")
-            curve_interval_us = round(sfw.sample_interval_ns * pts_per_curve / 1000)
             up_factor = self.sample_interval_ns // sfw.sample_interval_ns
             max_elements = math.ceil(sfw.max_elements // up_factor)
+            # interpolate on a grid with both, curves and source-samples
+            grid_n = math.gcd(pts_per_curve, up_factor)
+            grid_us = round(sfw.sample_interval_ns * grid_n / 1000)
+            curve_steps = pts_per_curve // grid_n
+            # blocks have to contain whole curves
+            max_elements = max(max_elements // curve_steps, 1) * curve_steps
             job_iter = trange(0, df_elements_n, max_elements, desc="generate ivcurves", leave=False)
 
             for idx in job_iter:
@@ -146,9 +151,9 @@ class Reader:
                 df_slice = df_slice.set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{curve_interval_us}us")
+                    df_slice.resample(f"{grid_us}us")
                     .interpolate(method="cubic" if len(df_slice) > 3 else "linear")
-                    .iloc[:-1]
+                    .iloc[:-1:curve_steps]
                 )
 
                 for _, coeffs in df_slice.iterrows():
-- 
2.43.0


From 3c74cd12ff4728114a0dc9f364620c16a2e3f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 53/68] fix: interpolation of ivonne-data exceeded the
 supported voltage

---
 shepherd_data/shepherd_data/ivonne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 9234205..d7ae031 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -239,7 +239,7 @@ class Reader:
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
-                    df_slice["v"].to_numpy(),
+                    df_slice["v"].to_numpy().clip(max=v_max),
                     df_slice["i"].to_numpy(),
                 )
 
@@ -292,6 +292,6 @@ class Reader:
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
-                    df_slice["voc"].to_numpy(),
+                    df_slice["voc"].to_numpy().clip(max=v_max),
                     df_slice["isc"].to_numpy(),
                 )
-- 
2.43.0


From beb659247bfc1cc4a21151515e85018b08dc672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 54/68] fix: web-client ignored provided token

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..b4c2857 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -92,7 +92,7 @@ class WebClient(AbcClient):
             with token.resolve().open() as file:
                 self._token = file.read()
         elif isinstance(token, str):
-            self._token = self._token
+            self._token = token
 
         if isinstance(server, str):
             self._server = server.lower()
-- 
2.43.0


From 1a6412170015e06a1054359cdad7ea8dd842450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 55/68] fix: web-client included line-end of token-file in
 token

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index b4c2857..951143b 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -90,7 +90,7 @@ class WebClient(AbcClient):
             if not token.exists():
                 raise FileNotFoundError("Token-Path does not exist")
             with token.resolve().open() as file:
-                self._token = file.read()
+                self._token = file.read().strip()
         elif isinstance(token, str):
             self._token = token
 
-- 
2.43.0


From 4035eb09dd8041b96d75367f9f58e538039f9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 56/68] fix: inventory could not be collected without optional
 psutil

---
 shepherd_core/shepherd_core/inventory/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 0ac1997..afb912b 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -19,7 +19,7 @@ except ImportError:
     psutil = None
 
 from pydantic import ConfigDict
-from pydantic.types import PositiveInt
+from pydantic.types import NonNegativeInt
 
 from ..data_models import ShpModel
 
@@ -27,7 +27,7 @@ from ..data_models import ShpModel
 class SystemInventory(ShpModel):
     """System / OS related inventory model."""
 
-    uptime: PositiveInt
+    uptime: NonNegativeInt
     # ⤷ seconds
     timestamp: datetime
     # time_delta: timedelta = timedelta(0)  # noqa: ERA001
-- 
2.43.0


From ae58e33a818d79e93512451600dbb59b07016901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 57/68] fix: warnings of inventory-list always crashed and
 covered one host only

---
 .../shepherd_core/inventory/__init__.py       | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 20e2fe9..5cac9d2 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -76,11 +76,18 @@ class InventoryList(ShpModel):
     def warn(self) -> dict:
         warnings = {}
         ts_earl = min([_e.created.timestamp() for _e in self.elements])
-        for _e in self.elements:
-            if _e.uptime > timedelta(hours=30).total_seconds():
-                warnings["uptime"] = f"[{self.hostname}] restart is recommended"
-            if (_e.created.timestamp() - ts_earl) > 10:
-                warnings["time_delta"] = f"[{self.hostname}] time-sync has failed"
+        hosts_uptime = [
+            _e.hostname
+            for _e in self.elements
+            if _e.uptime > timedelta(hours=30).total_seconds()
+        ]
+        if len(hosts_uptime) > 0:
+            warnings["uptime"] = f"[{', '.join(hosts_uptime)}] restart is recommended"
+        hosts_delta = [
+            _e.hostname for _e in self.elements if (_e.created.timestamp() - ts_earl) > 10
+        ]
+        if len(hosts_delta) > 0:
+            warnings["time_delta"] = f"[{', '.join(hosts_delta)}] time-sync has failed"
 
         # turn  Dict[hostname][type] = val
         # to    Dict[type][val] = List[hostnames]
@@ -93,6 +100,8 @@ class InventoryList(ShpModel):
             for _type, _val in _types.items():
                 if _type not in result:
                     result[_type] = {}
+                if isinstance(_val, (dict, list)):
+                    continue  # not comparable that way
                 if _val not in result[_type]:
                     result[_type][_val] = []
                 result[_type][_val].append(_host)
@@ -108,7 +117,7 @@ class InventoryList(ShpModel):
             "zstandard",
         ]
         for _key in t_unique:
-            if rescnt[_key] > 1:
+            if rescnt.get(_key, 0) > 1:
                 warnings[_key] = f"[{_key}] VersionMismatch - {result[_key]}"
 
         # TODO: finish with more potential warnings
-- 
2.43.0


From ea140336498b2044fa90b8289f22f1cc0da3230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 58/68] fix: user-accounts could not be printed

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 4c2ad4c..0caf358 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -17,6 +17,8 @@ import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
 from pydantic import HttpUrl
+from pydantic import SecretBytes
+from pydantic import SecretStr
 from pydantic_core import Url
 from typing_extensions import Self
 from yaml import Dumper
@@ -55,6 +57,8 @@ yaml.add_representer(IPv6Address, generic2str, SafeDumper)
 yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(Url, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
+yaml.add_representer(SecretStr, generic2str, SafeDumper)  # stays masked
+yaml.add_representer(SecretBytes, generic2str, SafeDumper)
 
 
 class ShpModel(BaseModel):
-- 
2.43.0


From d9c0bfa3a810a36af536ab3f1965e47fdfc189a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 59/68] fix: web-client could not transmit models with
 ip-addresses

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index 951143b..9e02ebb 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -51,7 +51,7 @@ class WebClient(AbcClient):
     def insert(self, data: ShpModel) -> bool:
         wrap = Wrapper(
             datatype=type(data).__name__,
-            parameters=data.model_dump(),
+            parameters=data.model_dump(mode="json"),
         )
         r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
         r.raise_for_status()
-- 
2.43.0


From 132af9398b2edabac5197bf3df20d448c4c38d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 60/68] fix: complete inventory-files without optional parts
 could not be loaded

---
 shepherd_core/shepherd_core/inventory/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index afb912b..8129b17 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -49,8 +49,8 @@ class SystemInventory(ShpModel):
     #   ip IPvAnyAddress
     #   mac MACStr
 
-    fs_root: List[str] = None
-    beagle: List[str] = None
+    fs_root: Optional[List[str]] = None
+    beagle: Optional[List[str]] = None
 
     model_config = ConfigDict(str_min_length=0)
 
-- 
2.43.0


From 5e0975c176a7a67d799b9ed8f1a3e9380f38175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 61/68] fix: harvester ignored crossings with setpoint exactly
 between two samples

---
 shepherd_core/shepherd_core/vsource/virtual_harvester_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index 4904698..eaa89c1 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -121,7 +121,7 @@ class VirtualHarvesterModel:
                 self.current_delta = _current_nA - self.current_last
                 self.voltage_delta = _voltage_uV - self.voltage_last
                 # TODO: voltage_delta is static
-            elif distance_last < distance_now and distance_last < self.voltage_step_x4_uV:
+            elif distance_last <= distance_now and distance_last < self.voltage_step_x4_uV:
                 self.voltage_hold = self.voltage_last
                 self.current_hold = self.current_last
                 self.current_delta = _current_nA - self.current_last
-- 
2.43.0


From aa17a5b9ed6fc260cb664f5fa863c0f0b552047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 62/68] fix: source-simulation with monitor crashed for unusual
 sample-rates

---
 .../shepherd_core/vsource/virtual_source_simulation.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
index f014de8..9f52674 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
@@ -62,7 +62,7 @@ def simulate_source(
     e_out_Ws = 0.0
     if monitor_internals and path_output:
         stats_sample = 0
-        stats_internal = np.empty((round(file_inp.runtime_s * file_inp.samplerate_sps), 11))
+        stats_internal = np.empty((file_inp.ds_voltage.shape[0], 11))
         try:
             # keep dependencies low
             from matplotlib import pyplot as plt
-- 
2.43.0


From 29e1574da6d7aa3ced29858122c148d88077b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 63/68] fix: empty files crashed the detection of ELF-files

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 192970a..94edf0a 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -94,6 +94,9 @@ def is_elf(file: Path) -> bool:
     except ELFError:
         logger.debug("File %s is not ELF - Magic number does not match", file.name)
         return False
+    except ValueError:  # mmap refuses empty files
+        logger.debug("File %s is not ELF - it can not be parsed", file.name)
+        return False
     return True
 
 
-- 
2.43.0


From 0a2909ac11317e1b5a6c0be485dca63061d5ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 64/68] fix: metadata-dump crashed on attributes with lists or
 without value

---
 shepherd_core/shepherd_core/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index bf16caa..b694c67 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -627,6 +627,10 @@ class Reader:
             elif "int" in str(type(attr_value)):
                 # TODO: why not isinstance? can it be List[int] other complex type?
                 attr_value = int(attr_value)
+            elif isinstance(attr_value, np.ndarray):
+                attr_value = attr_value.tolist()
+            elif isinstance(attr_value, h5py.Empty):
+                attr_value = None
             else:
                 attr_value = float(attr_value)
             metadata[attr] = attr_value
-- 
2.43.0


From 66add86a133b1796473f14ab0118226d948f185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 65/68] fix: uart with high baudrate could not be decoded from
 gpio-recordings

---
 shepherd_core/shepherd_core/reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index b694c67..0cd48a3 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -738,11 +738,15 @@ class Reader:
         if write_to_file:
             self.waveform_to_csv(pin_name, pin_wf)
 
+        # relative time, as float can't resolve [ns] of absolute timestamps
+        t_start = pin_wf[0, 0] if len(pin_wf) > 0 else 0
         gpio_wf = pin_wf.astype(float)
-        gpio_wf[:, 0] = gpio_wf[:, 0] / 1e9
+        gpio_wf[:, 0] = (pin_wf[:, 0] - t_start) / 1e9
 
         try:
-            return Uart(gpio_wf).get_lines()
+            lines = Uart(gpio_wf).get_lines()
+            timestamps = lines[:, 0].astype(float) + t_start / 1e9
+            return np.column_stack((timestamps.astype(str), lines[:, 1]))
         except TypeError:
             self._logger.error("TypeError: Extracting UART from GPIO failed - will skip file.")
             return None
-- 
2.43.0


From d6331805be4e9604a3aba354fd68f7e8a7a05dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 66/68] fix: exported waveforms lost the resolution of
 timestamps

---
 shepherd_core/shepherd_core/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 0cd48a3..ec9b7c0 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -726,7 +726,9 @@ class Reader:
         with path_csv.open("w") as csv:
             csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
-                csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
+                # avoid float, as it can't resolve [ns] of absolute timestamps
+                ts_s, ts_ns = divmod(int(row[0]), 10**9)
+                csv.write(f"{ts_s}.{ts_ns:09d}{separator}{int(row[1])}\n")
 
     def gpio_to_uart(self) -> Optional[np.ndarray]:
         wfs = self.gpio_to_waveforms("uart")
-- 
2.43.0


From 09cf708c32471c3fd1b525e432471e7371bc13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 67/68] fix: refused settings altered the description of an
 existing recording

---
 shepherd_core/shepherd_core/writer.py | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7462d4d..73277b7 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -155,12 +155,9 @@ class Writer(Reader):
             msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
             raise ValueError(msg)
 
-        if mode is not None:
-            self.h5file.attrs["mode"] = mode
-        if "mode" not in self.h5file.attrs:
-            self.h5file.attrs["mode"] = self.mode_default
-
-        _dtypes = self.mode_dtype_dict[self.get_mode()]
+        # ⤷ attributes are stored when all arguments are verified -> refusal leaves file unchanged
+        _mode = self.h5file.attrs.get("mode", self.mode_default) if mode is None else mode
+        _dtypes = self.mode_dtype_dict[_mode]
 
         # Handle Datatype
         if isinstance(datatype, str):
@@ -169,25 +166,27 @@ class Writer(Reader):
             msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
             raise ValueError(msg)
 
-        if isinstance(datatype, EnergyDType):
-            self.h5file["data"].attrs["datatype"] = datatype.name
-        if "datatype" not in self.h5file["data"].attrs:
-            self.h5file["data"].attrs["datatype"] = self.datatype_default.name
-        if self.get_datatype() not in _dtypes:
-            msg = (
-                f"Can't handle value '{self.get_datatype()}' of datatype (choose one of {_dtypes})"
-            )
+        if datatype is None and "datatype" in self.h5file["data"].attrs:
+            _dtype = self.get_datatype()
+        else:
+            _dtype = self.datatype_default if datatype is None else datatype
+        if _dtype not in _dtypes:
+            msg = f"Can't handle value '{_dtype}' of datatype (choose one of {_dtypes})"
             raise ValueError(msg)
 
+        _window = self.get_window_samples() if window_samples is None else window_samples
+        if datatype == EnergyDType.ivcurve and _window < 1:
+            raise ValueError("Window Size argument needed for ivcurve-Datatype")
+
+        self.h5file.attrs["mode"] = _mode
+        self.h5file["data"].attrs["datatype"] = _dtype.name
+
         # Handle Window_samples
         if window_samples is not None:
             self.h5file["data"].attrs["window_samples"] = window_samples
         if "window_samples" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["window_samples"] = 0
 
-        if datatype == EnergyDType.ivcurve and self.get_window_samples() < 1:
-            raise ValueError("Window Size argument needed for ivcurve-Datatype")
-
         # Handle Cal
         if isinstance(cal_data, (CalEmu, CalHrv)):
             cal_data = CalSeries.from_cal(cal_data)
-- 
2.43.0


From 55f0df5194957bad98ba15a98ddb9a4fcbcf5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 68/68] fix: schema and json of models with binary content
 could not be generated

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 0caf358..0846cad 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -87,6 +87,8 @@ class ShpModel(BaseModel):
         str_strip_whitespace=True,  # strip leading & trailing whitespaces
         use_enum_values=True,  # cleaner export of enum-parameters
         allow_inf_nan=False,  # float without +-inf or NaN
+        ser_json_bytes="base64",  # bytes are not always valid utf-8 -> fails for json & schema
+        val_json_bytes="base64",
         # defer_build=True, possible speedup -> but it triggers a bug
     )
 
-- 
2.43.0

