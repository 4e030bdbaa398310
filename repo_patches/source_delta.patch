From 6a6bdd79f433c80567cf12a69b617709d083236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 01/22] fix: report the shortcut target of links whose strings
 are missing

A truncated link announces a relative path or arguments in its flags but
does not contain them; print_shortcut_target() failed with TypeError.
---
 LnkParse3/lnk_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..2e19163 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -163,10 +163,13 @@ class LnkFile:
 
         if self.has_relative_path():
             relative_path = self.string_data.relative_path()
-            out.append(list2cmdline([relative_path]))
+            if relative_path is not None:
+                out.append(list2cmdline([relative_path]))
 
         if self.has_arguments():
-            out.append(self.string_data.command_line_arguments())
+            arguments = self.string_data.command_line_arguments()
+            if arguments is not None:
+                out.append(arguments)
 
         return " ".join(out)
 
-- 
2.43.0


From 78bc03817adb942c62ce75c18d3b8c7e9643f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 02/22] fix: refuse links without a complete header with
 LnkParserError

Empty input, less than 76 bytes, or a declared header size smaller than
the header raised AttributeError or struct.error, at opening or only when
a report was requested.
---
 LnkParse3/lnk_file.py   | 2 +-
 LnkParse3/lnk_header.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 2e19163..ece7bc5 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -25,7 +25,7 @@ class LnkFile:
     def __init__(self, fhandle=None, indata=None, cp=None, allow_terminal_blocks=True):
         if fhandle:
             self.indata = fhandle.read()
-        elif indata:
+        else:
             self.indata = indata
 
         self.cp = cp
diff --git a/LnkParse3/lnk_header.py b/LnkParse3/lnk_header.py
index e27d723..f9d2e1a 100644
--- a/LnkParse3/lnk_header.py
+++ b/LnkParse3/lnk_header.py
@@ -49,6 +49,9 @@ structures.
 
 
 class LnkHeader:
+    # All fields of the header are mandatory.
+    MINIMAL_SIZE = 0x0000004C
+
     # https://docs.microsoft.com/en-us/windows/win32/api/winuser/nf-winuser-showwindow
     WINDOW_STYLES = {
         1: "SW_SHOWNORMAL",
@@ -299,6 +302,11 @@ class LnkHeader:
         self._lnk_header = {}
         self._stash = {}
 
+        if len(self._raw) < self.MINIMAL_SIZE:
+            raise LnkParserError("Truncated header: only %s bytes" % len(self._raw))
+        if self.size() < self.MINIMAL_SIZE:
+            raise LnkParserError("Header size is too small: %s" % self.size())
+
         self._raw = self._raw[: self.size()]
 
     @must_be(int("0x0000004C", 16))
-- 
2.43.0


From 70ba07013fc42d6f8a95ba42247c9e5d0b773b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 03/22] fix: do not fail on links cut before the size of the ID
 list

---
 LnkParse3/lnk_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index ece7bc5..902a7d4 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -8,7 +8,9 @@ import argparse
 import datetime
 import json
 import re
+import struct
 import textwrap
+import warnings
 from subprocess import list2cmdline
 
 import yaml
@@ -73,8 +75,12 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except struct.error as e:
+                warnings.warn(f"Error while parsing Link Target ID List: {e!r}")
+                index = len(self.indata)
 
         # Parse Link Info
         self.info = None
-- 
2.43.0


From 3e496296a83d4a4c09847831553ba774dfa4d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 04/22] fix: skip target items that cannot be decoded

An item which is too short for its type made every report fail with
struct.error. Skip it with a warning and report the others.
---
 LnkParse3/lnk_targets.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..df07191 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,25 +71,34 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing Link Target ID List: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID: {e!r}")
+                target = None
 
             size = factory.item_size()
             rest = rest[size:]
-            yield target
+            if target:
+                yield target
 
     def as_list(self):
         res = []
         for target in self:
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
-- 
2.43.0


From 5fe1843a499ee0dbbb2c7fa787eb389133126210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 05/22] fix: do not fail on network locations with missing
 strings

Running out of strings raised StopIteration inside of a generator, i.e.
RuntimeError, for the whole report.
---
 LnkParse3/target/network_location.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..839cf28 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -37,11 +37,11 @@ class NetworkLocation(LnkTargetBase):
 
         self._description = None
         if self._has_description():
-            self._description = next(it)
+            self._description = next(it, None)
 
         self._comments = None
         if self._has_comments():
-            self._comments = next(it)
+            self._comments = next(it, None)
 
     def as_item(self):
         item = super().as_item()
-- 
2.43.0


From ff76d6ae388d7bbb94eb3ba981bfb378c3cadb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 06/22] fix: skip the bytes of a link info that is ignored or
 has no flags

With ForceNoLinkInfo, or with none of the LinkInfoFlags set, the structure
is still present in the file. It was not skipped, so all following strings
and extra data were decoded from the wrong place.
---
 LnkParse3/lnk_file.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 902a7d4..fc89129 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -84,12 +84,19 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
-            info_class = InfoFactory(info).info_class()
+            info_class = None
+            if not self.force_no_link_info():
+                info_class = InfoFactory(info).info_class()
             if info_class:
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            # The structure is present even if it is ignored or none of its flags is set.
+            try:
+                index += info.size()
+            except struct.error as e:
+                warnings.warn(f"Error while parsing Link Info: {e!r}")
+                index = len(self.indata)
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 7e0bec380c98194a77775af69e5ac51bdff7d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 07/22] fix: do not fail on links with a damaged link info

An offset pointing out of the file made every report fail with
struct.error. Report what can be decoded and warn.
---
 LnkParse3/lnk_file.py | 70 +++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index fc89129..6ee3339 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -244,6 +244,44 @@ class LnkFile:
             }
 
         res["link_info"] = {}
+        try:
+            self._add_link_info(res)
+        except struct.error as e:
+            warnings.warn(f"Error while parsing Link Info: {e!r}")
+
+        res["data"] = self.string_data.as_dict()
+        res["extra"] = self.extras.as_dict()
+
+        if not get_all:
+            res["header"].pop("header_size", None)
+            res["header"].pop("reserved0", None)
+            res["header"].pop("reserved1", None)
+            res["header"].pop("reserved2", None)
+            res["link_info"].pop("link_info_size", None)
+            res["link_info"].pop("link_info_header_size", None)
+            res["link_info"].pop("volume_id_offset", None)
+            res["link_info"].pop("local_base_path_offset", None)
+            res["link_info"].pop("common_network_relative_link_offset", None)
+            res["link_info"].pop("common_path_suffix_offset", None)
+            if "location" in res["link_info"] and "Local" in res["link_info"]["location"]:
+                res["link_info"]["location_info"].pop("volume_id_size", None)
+                res["link_info"]["location_info"].pop("volume_label_offset", None)
+            if "location" in res["link_info"] and "Network" in res["link_info"]["location"]:
+                res["link_info"]["location_info"].pop("common_network_relative_link_size", None)
+                res["link_info"]["location_info"].pop("net_name_offset", None)
+                res["link_info"]["location_info"].pop("device_name_offset", None)
+
+            if "target" in res:
+                res["target"].pop("index", None)
+                res["target"].pop("size", None)
+                if "items" in res["target"]:
+                    for item in res["target"]["items"]:
+                        if item:
+                            item.pop("modification_time", None)
+
+        return res
+
+    def _add_link_info(self, res):
         if self.info:
             res["link_info"] = {
                 "link_info_size": self.info.size(),
@@ -328,38 +366,6 @@ class LnkFile:
                 if self.info.device_name():
                     res["link_info"]["location_info"]["device_name"] = self.info.device_name()
 
-        res["data"] = self.string_data.as_dict()
-        res["extra"] = self.extras.as_dict()
-
-        if not get_all:
-            res["header"].pop("header_size", None)
-            res["header"].pop("reserved0", None)
-            res["header"].pop("reserved1", None)
-            res["header"].pop("reserved2", None)
-            res["link_info"].pop("link_info_size", None)
-            res["link_info"].pop("link_info_header_size", None)
-            res["link_info"].pop("volume_id_offset", None)
-            res["link_info"].pop("local_base_path_offset", None)
-            res["link_info"].pop("common_network_relative_link_offset", None)
-            res["link_info"].pop("common_path_suffix_offset", None)
-            if "location" in res["link_info"] and "Local" in res["link_info"]["location"]:
-                res["link_info"]["location_info"].pop("volume_id_size", None)
-                res["link_info"]["location_info"].pop("volume_label_offset", None)
-            if "location" in res["link_info"] and "Network" in res["link_info"]["location"]:
-                res["link_info"]["location_info"].pop("common_network_relative_link_size", None)
-                res["link_info"]["location_info"].pop("net_name_offset", None)
-                res["link_info"]["location_info"].pop("device_name_offset", None)
-
-            if "target" in res:
-                res["target"].pop("index", None)
-                res["target"].pop("size", None)
-                if "items" in res["target"]:
-                    for item in res["target"]["items"]:
-                        if item:
-                            item.pop("modification_time", None)
-
-        return res
-
 
 def main():
     arg_parser = argparse.ArgumentParser(description=__description__)
-- 
2.43.0


From 23e0b772e867b51cb8ef12c659f8295d15687b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 08/22] fix: recognize all values of the terminal block

Any value less than 4 terminates extra data, but only 0 did. The others
were taken for a block of 1 to 3 bytes, and opening failed.
---
 LnkParse3/extra_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..88cd4fe 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,8 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            # Any value less than 4 is the Terminal Block.
+            if size < 0x00000004:
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From 6d5456770880d332d5a2a5b364ea703a022fe6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 09/22] fix: do not fail on too short darwin descriptors

---
 LnkParse3/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..cfecf3e 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -41,6 +41,11 @@ def parse_packed_uuid(text):
     if text is None:
         return None
 
+    if len(text) < 20:
+        msg = "Invalid packed UUID: %r" % text
+        warnings.warn(msg)
+        return None
+
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
     quad1 = _quad_to_hex(text[0:5])
-- 
2.43.0


From edd05d581d865bf3905fe09187cf2a71fb622b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 10/22] fix: decode VT_I2 properties as 16-bit integers

Two bytes were unpacked as four, so each property store block with such
property was dropped.
---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From 732524bdc389d66886c675c80879f7b435b6e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 11/22] fix: decode the name of the shim layer as Unicode

---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From e0c7b30719adb437666e383e8d0696ac7108ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 12/22] fix: read the unicode common path suffix from its
 offset

The first two characters were left out.
---
 LnkParse3/lnk_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..262c8ec 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,7 +237,7 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
         # import pdb;pdb.set_trace()
-- 
2.43.0


From 7d0b5d8a6114bc3cc6ee624fc5a5e036760748d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 13/22] fix: do not report a device name of links that have
 none

With DeviceNameOffset 0 the size of the structure was decoded as text.
---
 LnkParse3/info/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 97975fa..877f92c 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -168,6 +168,8 @@ class Network(LnkInfo):
     def device_name(self):
         if self.net_name_offset() > 20:
             return None
+        if not self.device_name_offset():
+            return None
 
         start = self.common_network_relative_link_offset()
         start += self.device_name_offset()
-- 
2.43.0


From 11c76c695530203a311cdb4c719794c0df166e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 14/22] fix: limit property storages and values to their size

Each storage and each value kept everything up to the end of the block, and
a storage went on past its end, so small sizes in a damaged block made the
memory and the number of values grow with the square of its size.
---
 LnkParse3/extra/metadata.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index f769356..25d9491 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -283,12 +283,13 @@ class SerializedPropertyStorage:
             serialized_property_value_class = SerializedPropertyValueStringName
 
         while True:
-            value = serialized_property_value_class(self._raw[start:], self._text_processor)
-            if hex(value.value_size()) == hex(0x0):
+            size = unpack("<I", self._raw[start : start + 4])[0]
+            if size == 0x0:
                 break
 
-            result.append(value)
-            start += value.value_size()
+            raw = self._raw[start : start + size]
+            result.append(serialized_property_value_class(raw, self._text_processor))
+            start += size
 
         return result
 
@@ -314,12 +315,13 @@ class Metadata(LnkExtraBase):
         result = []
 
         while True:
-            storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
-            if hex(storage.storage_size()) == hex(0x0):
+            size = unpack("<I", self._raw[start : start + 4])[0]
+            if size == 0x0:
                 break
 
-            result.append(storage)
-            start += storage.storage_size()
+            raw = self._raw[start : start + size]
+            result.append(SerializedPropertyStorage(raw, self.text_processor))
+            start += size
 
         return result
 
-- 
2.43.0


From 54f29473de587f4ea88e768094005fb03e078d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 15/22] fix: do not read target items past their end

The item size includes the size field, two bytes of the next item were
taken as a part of the item.
---
 LnkParse3/target/lnk_target_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..53bfab2 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
-- 
2.43.0


From 79e9ac14655e6e4e59e13cf9dfb7c7103926b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 16/22] fix: do not copy the rest of the file for each extra
 block

The time to open a file of many small blocks grew with the square of its
size.
---
 LnkParse3/extra_data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 88cd4fe..5eb7cb8 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -26,9 +26,9 @@ class ExtraData:
 
     def process(self):
         self.data = []
-        rest = self._raw
-        while rest:
-            factory = ExtraFactory(indata=rest)
+        start = 0
+        while start < len(self._raw):
+            factory = ExtraFactory(indata=self._raw[start : start + 8])
             try:
                 size = factory.item_size()
             except StructError as e:
@@ -39,13 +39,16 @@ class ExtraData:
             if size < 0x00000004:
                 break
 
-            data, rest = rest[:size], rest[size:]
+            data = self._raw[start : start + size]
+            start += size
 
             cls = factory.extra_class()
             if cls:
                 extra = cls(indata=data, cp=self.cp)
                 self.data.append(extra)
 
+        rest = self._raw[start:]
+
         # If there is data following the Terminal Block, we should take note of it and tell the user.
         if self.allow_terminal_blocks and len(rest) > 4 and unpack("<I", rest[:4])[0] < 0x00000004:
             extra = Terminal(indata=rest, cp=self.cp)
-- 
2.43.0


From 720555b00b5a6d708fb781ddddaad48f5c09c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 17/22] fix: do not copy the rest of the ID list for each shell
 item

The time to report a big list of small items grew with the square of its
size.
---
 LnkParse3/extra/shell_item.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..4078518 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -40,18 +40,19 @@ class ShellItem(LnkExtraBase):
         --------------------------------
         """
         rest = self._raw[8 : self.size()]
-        while rest:
-            factory = TargetFactory(indata=rest)
+        start = 0
+        while start < len(rest):
+            factory = TargetFactory(indata=rest[start : start + 3])
             target_class = factory.target_class()
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
-            rest = rest[size:]
+            target = target_class(indata=rest[start : start + max(size, 2)], cp=self.cp)
+
+            start += size
             yield target
 
     def id_list(self):
-- 
2.43.0


From 9f0ec163771755690e03776f8ae1a8170491b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 18/22] fix: do not copy the rest of the ID list for each
 target item

The time to report a list of small items grew with the square of its size.
---
 LnkParse3/lnk_targets.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index df07191..0668e48 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -68,9 +68,9 @@ class LnkTargets:
         |         TerminalID           |
         --------------------------------
         """
-        rest = self._raw_targets
-        while rest:
-            factory = TargetFactory(indata=rest)
+        start = 0
+        while start < len(self._raw_targets):
+            factory = TargetFactory(indata=self._raw_targets[start : start + 3])
             try:
                 target_class = factory.target_class()
             except StructError as e:
@@ -81,14 +81,15 @@ class LnkTargets:
                 # Empty or unknown target object.
                 break
 
+            size = factory.item_size()
+            item = self._raw_targets[start : start + max(size, 2)]
             try:
-                target = target_class(indata=rest, cp=self.cp)
+                target = target_class(indata=item, cp=self.cp)
             except StructError as e:
                 warnings.warn(f"Error while parsing TargetID: {e!r}")
                 target = None
 
-            size = factory.item_size()
-            rest = rest[size:]
+            start += size
             if target:
                 yield target
 
-- 
2.43.0


From 16a66808684835e901c736cfc1b7e0bc18c6268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 19/22] fix: do not depend on the buffer of a memory view after
 opening

Reports changed when the buffer behind the view was reused, and links with
a users files folder could not be reported at all.
---
 LnkParse3/lnk_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 6ee3339..dab6430 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -30,6 +30,10 @@ class LnkFile:
         else:
             self.indata = indata
 
+        # Slices of a memory view would still share the buffer of the caller.
+        if isinstance(self.indata, memoryview):
+            self.indata = self.indata.tobytes()
+
         self.cp = cp
         self.allow_terminal_blocks = allow_terminal_blocks
 
-- 
2.43.0


From c51a23d548a4f227f87b8ae988dc0f3bcb68a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 20/22] fix: let a TimeoutError raised while a time is decoded
 reach the caller

---
 LnkParse3/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index cfecf3e..7554734 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -1,6 +1,7 @@
 import sys
 import warnings
 from datetime import datetime
+from datetime import timedelta
 from datetime import timezone
 from struct import unpack
 
@@ -101,8 +102,8 @@ def parse_filetime(binary):
         hundreds_of_nanoseconds = 10000000
 
         timestamp = (nanosec - epoch_as_filetime) / hundreds_of_nanoseconds
-        return datetime.fromtimestamp(timestamp, tz=timezone.utc)
-    except (OSError, OverflowError, ValueError):
+        return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=timestamp)
+    except OverflowError:
         if sys.version_info < (3, 8, 0):
             # HACK for older versions for bytes.hex()
             # https://docs.python.org/3.9/library/stdtypes.html?highlight=hex#bytes.hex
-- 
2.43.0


From 024b18504de2dcba14d8f78c7f81faff35dcffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:39 +0000
Subject: [PATCH 21/22] fix: read sources that are false in a boolean context

---
 LnkParse3/lnk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index dab6430..d9a6557 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -25,7 +25,7 @@ from LnkParse3.string_data import StringData
 
 class LnkFile:
     def __init__(self, fhandle=None, indata=None, cp=None, allow_terminal_blocks=True):
-        if fhandle:
+        if fhandle is not None:
             self.indata = fhandle.read()
         else:
             self.indata = indata
-- 
2.43.0


From 4cb8a0a9bb1497bc6ce43c2b9937651388c2ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:15 +0000
Subject: [PATCH 22/22] fix: exit with an error if standard output is closed

---
 LnkParse3/lnk_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index d9a6557..c5fb2b2 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -9,6 +9,7 @@ import datetime
 import json
 import re
 import struct
+import sys
 import textwrap
 import warnings
 from subprocess import list2cmdline
@@ -398,6 +399,10 @@ def main():
     )
     args = arg_parser.parse_args()
 
+    # There is none if it is closed, and printing would silently do nothing.
+    if sys.stdout is None:
+        arg_parser.error("standard output is closed")
+
     with open(args.file, "rb") as file:
         lnk = LnkFile(fhandle=file, cp=args.cp)
         if args.target:
-- 
2.43.0

