From 0998cf51c64751ad5ad4ae91a9f24502eebc42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 01/20] fix: report the name of network provider types with
 hexadecimal letters

---
 LnkParse3/info/network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 97975fa..7a7a053 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -42,7 +42,7 @@ class Network(LnkInfo):
         "0x1B000": "WNNC_NET_DOCUSPACE",
         "0x1C000": "WNNC_NET_MANGOSOFT",
         "0x1D000": "WNNC_NET_SERNET",
-        "0X1E000": "WNNC_NET_RIVERFRONT1",
+        "0x1E000": "WNNC_NET_RIVERFRONT1",
         "0x1F000": "WNNC_NET_RIVERFRONT2",
         "0x20000": "WNNC_NET_DECORB",
         "0x21000": "WNNC_NET_PROTSTOR",
@@ -69,7 +69,7 @@ class Network(LnkInfo):
         "0x37000": "WNNC_NET_SRT",
         "0x38000": "WNNC_NET_QUINCY",
         "0x39000": "WNNC_NET_OPENAFS",
-        "0X3A000": "WNNC_NET_AVID1",
+        "0x3A000": "WNNC_NET_AVID1",
         "0x3B000": "WNNC_NET_DFS",
         "0x3C000": "WNNC_NET_KWNP",
         "0x3D000": "WNNC_NET_ZENWORKS",
@@ -114,9 +114,9 @@ class Network(LnkInfo):
         # TODO: explain
         if not self.common_network_relative_link_flags() & 0x0002:
             return None
-        if self.r_network_provider_type() not in self.NETWORK_PROVIDER_TYPES:
-            return None
-        return self.NETWORK_PROVIDER_TYPES[self.r_network_provider_type()]
+        # Keys of the table are written with upper-case digits, unlike the output of `hex`.
+        provider_type = "0x%X" % int(self.r_network_provider_type(), 16)
+        return self.NETWORK_PROVIDER_TYPES.get(provider_type)
 
     def net_name_offset_unicode(self):
         if self.net_name_offset() <= 20:
-- 
2.43.0


From 407e7d3e05be66fc4250173578e80f2ce8fc196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 02/20] fix: do not report a device name if the network link
 has none

---
 LnkParse3/info/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 7a7a053..80ca151 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -168,6 +168,9 @@ class Network(LnkInfo):
     def device_name(self):
         if self.net_name_offset() > 20:
             return None
+        # The offset is zero if there is no device name (ValidDevice is not set).
+        if not self.device_name_offset():
+            return None
 
         start = self.common_network_relative_link_offset()
         start += self.device_name_offset()
-- 
2.43.0


From e6f65154f151cc95d1a2d53202bd89c5dc2119a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 03/20] fix: read CommonPathSuffixUnicode from its stored
 offset

---
 LnkParse3/lnk_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..262c8ec 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,7 +237,7 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
         # import pdb;pdb.set_trace()
-- 
2.43.0


From 38a5fcfcb1a0e973a6bea1e61b1b788c52480369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 04/20] fix: read VT_I2 property values as 16-bit integers

---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From d678cfef71fbe1805fb73d1e93b85a43793aa7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 05/20] fix: read the LayerName of ShimDataBlock as a Unicode
 string

---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From 1db6d02eae012f433fea9dbbec95ae2607afde7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 06/20] fix: treat extra block sizes 1 to 3 as the terminal
 block

---
 LnkParse3/extra_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..88cd4fe 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,8 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            # Any value less than 4 is the Terminal Block.
+            if size < 0x00000004:
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From b275839589b231e8775f3fa20ebc089c6c22a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 07/20] fix: recognise Unicode share items

---
 LnkParse3/target/lnk_target_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..b6b6ecd 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -23,9 +23,9 @@ the items in that part of the namespace.
 class LnkTargetBase:
     SHELL_ITEM_SHEL_FS_FOLDER = {
         # FIXME: Temporary solution for not make a breaking change
+        0x07: "Is Unicode share",
         0x05: "Is Unicode directory",
         0x06: "Is Unicode file",
-        0x07: "Is Unicode share",
         0x03: "Is share",
         0x01: "Is directory",
         0x02: "Is file",
-- 
2.43.0


From e5c1cad4060112787cc969812868b89f60948060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 08/20] fix: do not count the two bytes of ItemIDSize twice

---
 LnkParse3/target/lnk_target_base.py | 2 +-
 LnkParse3/target/unknown.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index b6b6ecd..872bf37 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
diff --git a/LnkParse3/target/unknown.py b/LnkParse3/target/unknown.py
index bb6f740..8143c55 100644
--- a/LnkParse3/target/unknown.py
+++ b/LnkParse3/target/unknown.py
@@ -9,5 +9,5 @@ class Unknown(LnkTargetBase):
 
     def as_item(self):
         item = super().as_item()
-        item["size"] = self.SIZE_OF_TARGET_SIZE + self.size()
+        item["size"] = self.size()
         return item
-- 
2.43.0


From a7682f136e1a91f7f3e2b03580cf1cc052bf60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:57 +0000
Subject: [PATCH 09/20] fix: skip a LinkInfo which is ignored or holds no
 location

---
 LnkParse3/lnk_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..7fccc9e 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -9,6 +9,8 @@ import datetime
 import json
 import re
 import textwrap
+import warnings
+from struct import error as StructError  # noqa: N812
 from subprocess import list2cmdline
 
 import yaml
@@ -78,12 +80,16 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
+            # The structure is present even if it is ignored or holds no location
             info_class = InfoFactory(info).info_class()
-            if info_class:
+            if info_class and not self.force_no_link_info():
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            try:
+                index += info.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing LinkInfo: {e!r}")
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 2299705d456defccc9bdd580f31975e67bbb6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 10/20] fix: replace only the placeholders of empty lines in
 the readable output

---
 LnkParse3/lnk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 7fccc9e..551a05c 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -147,7 +147,7 @@ class LnkFile:
         res_yaml = yaml.dump(new_res_json, indent=3, sort_keys=False, width=132, allow_unicode=True)
 
         # replace palceholders for empty lines
-        res_yaml = res_yaml.replace("EMPTY_LINE_PLACEHOLDER", "\n")
+        res_yaml = re.sub("^EMPTY_LINE_PLACEHOLDER", "\n", res_yaml, flags=re.MULTILINE)
 
         print("Windows Shortcut Information:")
         print(textwrap.indent(res_yaml, "   "))
-- 
2.43.0


From 38ac77cc63f753f716a4a6736941d362a7a94555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 11/20] fix: raise LnkParserError if there is no complete
 header

---
 LnkParse3/lnk_file.py   | 2 +-
 LnkParse3/lnk_header.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 551a05c..1baeb78 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -27,7 +27,7 @@ class LnkFile:
     def __init__(self, fhandle=None, indata=None, cp=None, allow_terminal_blocks=True):
         if fhandle:
             self.indata = fhandle.read()
-        elif indata:
+        else:
             self.indata = indata
 
         self.cp = cp
diff --git a/LnkParse3/lnk_header.py b/LnkParse3/lnk_header.py
index e27d723..cc9f29d 100644
--- a/LnkParse3/lnk_header.py
+++ b/LnkParse3/lnk_header.py
@@ -49,6 +49,8 @@ structures.
 
 
 class LnkHeader:
+    SIZE = 0x0000004C
+
     # https://docs.microsoft.com/en-us/windows/win32/api/winuser/nf-winuser-showwindow
     WINDOW_STYLES = {
         1: "SW_SHOWNORMAL",
@@ -299,8 +301,14 @@ class LnkHeader:
         self._lnk_header = {}
         self._stash = {}
 
+        if len(self._raw) < self.SIZE:
+            raise LnkParserError("Incomplete header: %s bytes" % len(self._raw))
+
         self._raw = self._raw[: self.size()]
 
+        if len(self._raw) < self.SIZE:
+            raise LnkParserError("Invalid header size: %s" % len(self._raw))
+
     @must_be(int("0x0000004C", 16))
     def size(self):
         """HeaderSize (4 bytes):
-- 
2.43.0


From 0cfb9b7fada1723c5e972bd765f9657ee064441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 12/20] fix: keep going if a shell item is damaged or cut off

---
 LnkParse3/extra/shell_item.py        | 13 ++++++++++---
 LnkParse3/lnk_file.py                |  7 +++++--
 LnkParse3/lnk_targets.py             | 13 ++++++++++---
 LnkParse3/target/network_location.py |  9 +++++----
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..8a6df73 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 from LnkParse3.lnk_targets import TargetFactory
@@ -42,7 +43,11 @@ class ShellItem(LnkExtraBase):
         rest = self._raw[8 : self.size()]
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
@@ -59,9 +64,11 @@ class ShellItem(LnkExtraBase):
         for target in self._id_list():
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing extra TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing extra TargetID `{target.name}` ({e!r})"
                 warnings.warn(msg)
+                # Always return at least the name of the target
+                res.append({"class": target.name})
                 continue
         return res
 
diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 1baeb78..3791bb0 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -75,8 +75,11 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing LinkTargetIDList: {e!r}")
 
         # Parse Link Info
         self.info = None
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..3eafccb 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,7 +71,11 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
@@ -87,8 +92,10 @@ class LnkTargets:
         for target in self:
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing TargetID `{target.name}` ({e!r})"
                 warnings.warn(msg)
+                # Always return at least the name of the target
+                res.append({"class": target.name})
                 continue
         return res
diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..0f51c6b 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -35,13 +35,14 @@ class NetworkLocation(LnkTargetBase):
         it = self._string_data()
         self._location = next(it)
 
+        # Strings can be missing even though they are flagged
         self._description = None
         if self._has_description():
-            self._description = next(it)
+            self._description = next(it, None)
 
         self._comments = None
         if self._has_comments():
-            self._comments = next(it)
+            self._comments = next(it, None)
 
     def as_item(self):
         item = super().as_item()
@@ -68,10 +69,10 @@ class NetworkLocation(LnkTargetBase):
         return flags
 
     def _has_comments(self):
-        return bool(self.content_flags() & 0x40)
+        return len(self._raw_target) > 2 and bool(self.content_flags() & 0x40)
 
     def _has_description(self):
-        return bool(self.content_flags() & 0x80)
+        return len(self._raw_target) > 2 and bool(self.content_flags() & 0x80)
 
     def _string_data(self):
         start = 3
-- 
2.43.0


From a0399c2fbeb9d887c2ade5100ab247629f4c0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 13/20] fix: keep going if LinkInfo is damaged or cut off

---
 LnkParse3/lnk_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 3791bb0..153e2f3 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -236,6 +236,14 @@ class LnkFile:
                 "index": self._target_index,
             }
 
+        try:
+            self._add_link_info(res)
+        except StructError as e:
+            warnings.warn(f"Error while parsing LinkInfo: {e!r}")
+
+        return self._finish_json(res, get_all)
+
+    def _add_link_info(self, res):
         res["link_info"] = {}
         if self.info:
             res["link_info"] = {
@@ -321,6 +329,7 @@ class LnkFile:
                 if self.info.device_name():
                     res["link_info"]["location_info"]["device_name"] = self.info.device_name()
 
+    def _finish_json(self, res, get_all):
         res["data"] = self.string_data.as_dict()
         res["extra"] = self.extras.as_dict()
 
-- 
2.43.0


From b75d396d55d7e76849d806089d6ce20a00b5d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 14/20] fix: print the shortcut target of a link without its
 flagged strings

---
 LnkParse3/lnk_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 153e2f3..6e516a8 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -172,10 +172,14 @@ class LnkFile:
 
         if self.has_relative_path():
             relative_path = self.string_data.relative_path()
-            out.append(list2cmdline([relative_path]))
+            # The string can be missing even though it is flagged
+            if relative_path is not None:
+                out.append(list2cmdline([relative_path]))
 
         if self.has_arguments():
-            out.append(self.string_data.command_line_arguments())
+            arguments = self.string_data.command_line_arguments()
+            if arguments is not None:
+                out.append(arguments)
 
         return " ".join(out)
 
-- 
2.43.0


From ca96354e601bcfb4c838f2fde08ff078cb622bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 15/20] fix: report a Darwin block with incomplete packed
 identifiers

---
 LnkParse3/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..1110470 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -41,6 +41,10 @@ def parse_packed_uuid(text):
     if text is None:
         return None
 
+    if len(text) < 20:
+        warnings.warn("Invalid packed UUID: %s" % text)
+        return None
+
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
     quad1 = _quad_to_hex(text[0:5])
-- 
2.43.0


From 8b79a3fd07a309c02ed8c922443a853318ce8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 16/20] fix: do not read property storages and values beyond
 their sizes

---
 LnkParse3/extra/metadata.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index f769356..ff275d8 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -284,11 +284,14 @@ class SerializedPropertyStorage:
 
         while True:
             value = serialized_property_value_class(self._raw[start:], self._text_processor)
-            if hex(value.value_size()) == hex(0x0):
+            value_size = value.value_size()
+            if hex(value_size) == hex(0x0):
                 break
 
-            result.append(value)
-            start += value.value_size()
+            # Do not read beyond the value
+            raw = self._raw[start : start + value_size]
+            result.append(serialized_property_value_class(raw, self._text_processor))
+            start += value_size
 
         return result
 
@@ -315,11 +318,14 @@ class Metadata(LnkExtraBase):
 
         while True:
             storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
-            if hex(storage.storage_size()) == hex(0x0):
+            storage_size = storage.storage_size()
+            if hex(storage_size) == hex(0x0):
                 break
 
-            result.append(storage)
-            start += storage.storage_size()
+            # Do not read beyond the storage
+            raw = self._raw[start : start + storage_size]
+            result.append(SerializedPropertyStorage(raw, self.text_processor))
+            start += storage_size
 
         return result
 
-- 
2.43.0


From bfd27aea10f44707da06f792a4444fa73031052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 17/20] fix: read FILETIME as an unsigned value

---
 LnkParse3/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index 1110470..49cbb73 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -89,7 +89,7 @@ def parse_filetime(binary):
     #   https://stackoverflow.com/questions/38878647/python-convert-filetime-to-datetime-for-dates-before-1970
     #   https://computerforensics.parsonage.co.uk/downloads/TheMeaningofLIFE.pdf
     try:
-        nanosec = unpack("<q", binary)[0]
+        nanosec = unpack("<Q", binary)[0]
 
         if nanosec == 0:
             # If the date is 0 it means that the file has been created in an
-- 
2.43.0


From 2474e1f8b4bc879a1fe7e652d962f0f7e186e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 18/20] fix: indent the lines of the readable output that hold
 only Unicode white space

---
 LnkParse3/lnk_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 6e516a8..2e91745 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -153,7 +153,8 @@ class LnkFile:
         res_yaml = re.sub("^EMPTY_LINE_PLACEHOLDER", "\n", res_yaml, flags=re.MULTILINE)
 
         print("Windows Shortcut Information:")
-        print(textwrap.indent(res_yaml, "   "))
+        # a line of other white space than line breaks belongs to a folded string
+        print(textwrap.indent(res_yaml, "   ", lambda line: line != "\n"))
 
     def format_linkFlags(self):
         raw_flags = self.header.r_link_flags()
-- 
2.43.0


From 1af9c10a71b32443f0e7315fa096333be62b3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:41 +0000
Subject: [PATCH 19/20] fix: do not make up identifiers from invalid packed
 UUIDs

A Darwin descriptor with characters outside the base 85 alphabet, or
digits beyond 32 bits, was reported as a malformed UUID.
---
 LnkParse3/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index 49cbb73..cb75cac 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -28,12 +28,15 @@ def _quad_to_hex(quad):
     ddec = 0
     while i >= 1:
         char = quad[i - 1]
-        b85 = base_85.find(char)
+        b85 = base_85.index(char)
         ddec = ddec + b85
         if i > 1:
             ddec = ddec * 85
         i -= 1
 
+    if ddec > 0xFFFFFFFF:
+        raise ValueError("not a 32-bit number: %s" % quad)
+
     return f"{ddec:08X}"
 
 
@@ -47,10 +50,15 @@ def parse_packed_uuid(text):
 
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
-    quad1 = _quad_to_hex(text[0:5])
-    quad2 = _quad_to_hex(text[5:10])
-    quad3 = _quad_to_hex(text[10:15])
-    quad4 = _quad_to_hex(text[15:20])
+    try:
+        quad1 = _quad_to_hex(text[0:5])
+        quad2 = _quad_to_hex(text[5:10])
+        quad3 = _quad_to_hex(text[10:15])
+        quad4 = _quad_to_hex(text[15:20])
+    except ValueError:
+        # A character is not a base 85 digit, or a number is too large.
+        warnings.warn("Invalid packed UUID: %s" % text)
+        return None
     quads = quad1 + quad2 + quad3 + quad4
 
     d1 = quads[:8]
-- 
2.43.0


From 7adb6aeb4d131455c823c99a1733bd663575b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:18 +0000
Subject: [PATCH 20/20] fix: do not read strings from the remains of a cut-off
 LinkInfo

---
 LnkParse3/lnk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 2e91745..c5a5090 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -93,6 +93,8 @@ class LnkFile:
                 index += info.size()
             except StructError as e:
                 warnings.warn(f"Error while parsing LinkInfo: {e!r}")
+                # What is left belongs to the incomplete structure
+                index = len(self.indata)
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0

