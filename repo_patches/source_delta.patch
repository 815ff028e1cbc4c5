From 82650ae6f342faa77927e237903125b193a2356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 01/19] fix: constant power target draws no current without
 supply instead of dividing by zero

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..a7c7b1b 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0  # no supply, no current
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 68f06de5dabc490e3a1a1d1ca5583ec6a940b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 02/19] fix: decoding an empty gpio-trace returns an empty
 waveform instead of failing

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..96e0234 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -671,6 +671,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if data.size < 1:
+            return np.zeros(0, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
-- 
2.43.0


From 46e4eed9c8a6308113d432bc130c18d4522abec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 03/19] fix: observers without cape no longer break looking up
 other targets

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..9870150 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,8 +93,9 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
-                # skip decommissioned setups
+            has_cape = _observer.cape is not None and _observer.cape.active
+            if not _observer.active or not has_cape:
+                # skip decommissioned & incomplete setups
                 continue
             if _observer.has_target(target_id):
                 return _observer
-- 
2.43.0


From 3a5a63657ea23346107e4cf1f650a61654520325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 04/19] fix: observers with equal names are rejected, their
 tasks would share output files

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 9870150..a88b444 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -57,6 +57,7 @@ class Testbed(ShpModel):
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         observers = []
+        names = []
         ips = []
         macs = []
         capes = []
@@ -64,6 +65,7 @@ class Testbed(ShpModel):
         eth_ports = []
         for _obs in self.observers:
             observers.append(_obs.id)
+            names.append(_obs.name)
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
@@ -75,6 +77,9 @@ class Testbed(ShpModel):
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
+        if len(names) > len(set(names)):
+            # tasks and output-paths are derived from these names
+            raise ValueError("Observer-Name used more than once in Testbed")
         if len(ips) > len(set(ips)):
             raise ValueError("Observer-IP used more than once in Testbed")
         if len(macs) > len(set(macs)):
-- 
2.43.0


From 73b67571bd8c65c6eba21430b8abda2fc8eac535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 05/19] fix: csv-export adds no offset of 1 to datasets without
 offset-attribute

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..1e0efb9 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From 5b6f6a7a8bbcf350047bb81fd34419fcb3538fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 06/19] fix: header of waveform-csv uses the requested
 separator

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 96e0234..8c5ae12 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -707,7 +707,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From c674765e28f74a2369b4d473d1527b59fc61b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 07/19] fix: fractions of seconds in durations survive saving
 models to yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 shepherd_core/shepherd_core/writer.py                    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..0aeb637 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -32,7 +32,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if not seconds.is_integer():
+        return dumper.represent_float(seconds)
+    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
 
 
 def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..9152020 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,7 +42,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if not seconds.is_integer():
+        return dumper.represent_float(seconds)
+    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
 
 
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
-- 
2.43.0


From 7fcb7a378dae5800f288e3e9d38151352f1ff164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 08/19] fix: models with IPv6-addresses or URLs can be saved to
 yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 0aeb637..c093ee2 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,7 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -48,6 +50,8 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2int, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From 399855ce5efbeba0b53c7e726b3898d3265cf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 09/19] fix: network-interfaces of inventories are lists, equal
 before and after saving to yaml

---
 shepherd_core/shepherd_core/inventory/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 0ac1997..dc538d6 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -5,6 +5,7 @@ import subprocess
 import time
 from datetime import datetime
 from pathlib import Path
+from typing import Dict
 from typing import List
 from typing import Optional
 
@@ -44,8 +45,8 @@ class SystemInventory(ShpModel):
 
     hostname: str
 
-    interfaces: dict = {}  # noqa: RUF012
-    # ⤷ tuple with
+    interfaces: Dict[str, List[str]] = {}  # noqa: RUF012
+    # ⤷ list with
     #   ip IPvAnyAddress
     #   mac MACStr
 
-- 
2.43.0


From 706466ecee2189a68e60eea18163f99eda1473db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 10/19] fix: hash of models is independent of the timezone an
 instant is expressed in

---
 .../shepherd_core/data_models/base/shepherd.py   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index c093ee2..dd71fd4 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -2,7 +2,9 @@
 
 import hashlib
 import pathlib
+from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from ipaddress import IPv4Address
 from ipaddress import IPv6Address
 from pathlib import Path
@@ -45,6 +47,17 @@ def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
     return dumper.represent_scalar("tag:yaml.org,2002:str", str(data))
 
 
+def unify_timezones(data: Any) -> Any:
+    """Express timezone-aware datetimes in UTC, so the same instant has only one representation."""
+    if isinstance(data, datetime) and data.tzinfo is not None:
+        return data.astimezone(timezone.utc)
+    if isinstance(data, dict):
+        return {key: unify_timezones(value) for key, value in data.items()}
+    if isinstance(data, list):
+        return [unify_timezones(value) for value in data]
+    return data
+
+
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
@@ -171,4 +184,5 @@ class ShpModel(BaseModel):
         return cls(**shp_wrap.parameters)
 
     def get_hash(self) -> str:
-        return hashlib.sha3_224(str(self.model_dump()).encode("utf-8")).hexdigest()
+        content = unify_timezones(self.model_dump())
+        return hashlib.sha3_224(str(content).encode("utf-8")).hexdigest()
-- 
2.43.0


From 5f54d2d0f23d1be1ba68bea4a5c50d817b96510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 11/19] fix: embedded firmware that can not be decompressed is
 refused as faulty value

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..438dd32 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -14,6 +14,7 @@ from pydantic import validate_call
 from typing_extensions import Annotated
 from typing_extensions import Self
 from typing_extensions import Unpack
+from zstandard import ZstdError
 
 from ... import fw_tools
 from ...logger import logger
@@ -74,7 +75,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         }:
             try:
                 _hash = fw_tools.base64_to_hash(values.get("data"))
-            except ValueError:
+            except (ValueError, ZstdError):
                 raise ValueError("Embedded Firmware seems to be faulty") from None
             if values.get("data_hash") is not None and _hash != values.get("data_hash"):
                 raise ValueError("Embedded Firmware and Hash do not match!")
-- 
2.43.0


From 13cd0f9dc5b95269ea4d2e598fea7531cbcef978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 12/19] fix: blocks of the down-sampler contain whole groups of
 samples, so their borders stay invisible

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 1e0efb9..e73f62e 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,7 +203,8 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
+        # blocks contain whole groups of ds_factor samples, so their borders stay invisible
+        iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
-- 
2.43.0


From 3898cdba17fa50cac6caa67cb492386430caa374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 13/19] fix: open-circuit tracker finds the open-circuit
 voltage itself when it is not part of the data

---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..38a3447 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -80,7 +80,7 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
             lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
             axis=1,
-- 
2.43.0


From d7be880c2c020b86d396e6006aef46fb9791af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 14/19] fix: short ivonne-recordings and tails of 2 - 3 rows
 are converted instead of crashing the interpolation

---
 shepherd_data/shepherd_data/ivonne.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..ec42fd7 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -40,6 +40,11 @@ def get_isc(coeffs: pd.DataFrame):  # noqa: ANN201
     return coeffs["a"]
 
 
+def get_interpolation(df: pd.DataFrame) -> str:
+    """Splines need at least four supporting points."""
+    return "cubic" if df.shape[0] > 3 else "linear"
+
+
 class Reader:
     """Container for converters that bridge the gap to shepherds data-files."""
 
@@ -147,7 +152,7 @@ class Reader:
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
                     df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
+                    .interpolate(method=get_interpolation(df_slice))
                     .iloc[:-1]
                 )
 
@@ -228,7 +233,9 @@ class Reader:
                 df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                    df_slice.resample(f"{interval_us}us")
+                    .interpolate(method=get_interpolation(df_slice))
+                    .iloc[:-1]
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
@@ -279,7 +286,9 @@ class Reader:
                 df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
                 # warning: .interpolate does crash in debug-mode with typeError
                 df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                    df_slice.resample(f"{interval_us}us")
+                    .interpolate(method=get_interpolation(df_slice))
+                    .iloc[:-1]
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
-- 
2.43.0


From dbc2a8c147e25f194899847c2024bcb011854b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 15/19] fix: uart-decoder keeps the top data-bit and completes
 symbols that end with high bits or a long pause

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..7ed4378 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -218,13 +218,17 @@ class Uart:
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
+                        # remaining bits of data are High
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
                         content.append([t_start, chr(symbol)])
                         t_start = None
                         symbol = 0
                     pos_df = None
-                else:
+                    continue
+                if pos_df is not None or round(steps) > self.frame_length + 1:
+                    # longer than start-bit & data-frame
                     logger.debug("Error - Long pause - but SigLow (@%d)", time)
-                continue
+                    continue
             if pos_df is None and value == 0:
                 # Start of frame (first low after pause / EOF)
                 pos_df = 0
@@ -232,7 +236,7 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
+                    chunk = min(steps, self.frame_length - pos_df)
                     lshift = min(pos_df, self.frame_length - 1)
                     symbol += (2 ** round(chunk) - 1) << lshift
                 pos_df += round(steps)
-- 
2.43.0


From 04c5e6bb67f9c6ed52f39b8ac865ed67047d6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 16/19] fix: uart-lines keep the symbol after a lone
 carriage-return and the last unterminated line

---
 .../shepherd_core/decoder_waveform/uart.py      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 7ed4378..32db4a4 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -270,21 +270,20 @@ class Uart:
         t_start = None
         line = ""
         for time, symbol in self.events_symbols:
-            if symbol == "\n" or semi_stop:
-                if symbol == "\n":
-                    line += symbol
+            if semi_stop and symbol != "\n":
                 content.append((t_start, line))
-                semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
-                    continue
-            if symbol == "\r":
-                semi_stop = True
-
             if t_start is None:
                 t_start = time
             line += symbol
+            semi_stop = symbol == "\r"
+            if symbol == "\n":
+                content.append((t_start, line))
+                t_start = None
+                line = ""
+        if line:
+            content.append((t_start, line))
         self.events_lines = np.concatenate(content).reshape((len(content), 2))
         return self.events_lines
 
-- 
2.43.0


From 3b8daf6cb58fe9c37d431a598abf3763348ae150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 17/19] fix: gpio-events fire exactly as often as requested,
 rounding errors added one more

---
 .../shepherd_core/data_models/experiment/observer_features.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
index 1fa133d..658cb16 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
@@ -115,8 +115,7 @@ class GpioEvent(ShpModel, title="Config for a GPIO-Event"):
         return self
 
     def get_events(self) -> np.ndarray:
-        stop = self.delay + self.count * self.period
-        return np.arange(self.delay, stop, self.period)
+        return self.delay + self.period * np.arange(self.count)
 
 
 class GpioActuation(ShpModel, title="Config for GPIO-Actuation"):
-- 
2.43.0


From 977bfaac9b88cc6d6a752607fcd7b51e6a86d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 18/19] fix: reader finds the config where the writer stores it

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 8c5ae12..c9c7d24 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -255,6 +255,8 @@ class Reader:
         return ""
 
     def get_config(self) -> Dict:
+        if "config" in self.h5file.attrs:
+            return yaml.safe_load(self.h5file.attrs["config"])
         if "config" in self.h5file["data"].attrs:
             return yaml.safe_load(self.h5file["data"].attrs["config"])
         return {}
-- 
2.43.0


From a5a8461f01e0d00b09ec012bf41e53d2899b5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 19/19] fix: voltage step of recordings is derived from
 calibrated values, for rising and falling ramps

---
 shepherd_core/shepherd_core/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index c9c7d24..a71403d 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -289,13 +289,13 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
-            diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
+            dsv = self.ds_voltage[0:2000].astype("i8")
+            diffs_np = np.abs(dsv[1:] - dsv[0:-1])
+            diffs_np = diffs_np[diffs_np > 0]
             # static voltages have 0 steps, so
-            if len(diffs_ls) == 0:
+            if len(diffs_np) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
+            voltage_step = 1e3 * self._cal.voltage.gain * float(diffs_np.min())
         if voltage_step is not None:
             voltage_step = 1e-3 * voltage_step
         return voltage_step
-- 
2.43.0

