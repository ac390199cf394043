From 0fec24deea8731b89556b9c2b026a3496e43328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 1/6] fix: report HandleTags for RegSetInfoKey

The third branch repeated the test of the first one, so the handle tags of a
KeySetHandleTagsInformation request were never reported.
---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..856cff2 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From 94fdc06a990949933c5781f67ff07797001409ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 2/6] fix: skip the header of the FSCTL_OFFLOAD_READ input in
 the right stream

The 8 bytes before the offset were skipped in the parameters stream instead of
the stream the offset and length are read from.
---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 856cff2..6f77447 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -580,7 +580,7 @@ def get_filesystem_ioctl_details(io, metadata, event, details_io, extra_detail_i
         if event.details["Control"] == "FSCTL_PIPE_INTERNAL_WRITE":
             event.details["Length"] = write_length
         elif event.details["Control"] == "FSCTL_OFFLOAD_READ":
-            details_io.seek(0x8, 1)
+            io.seek(0x8, 1)
             event.details["Offset"] = read_s64(io)
             event.details["Length"] = read_u64(io)
         elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE":
-- 
2.43.0


From 5c17483892e1c1cf58a2b8b7f428422afe3568a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 3/6] fix: read CreateFile AllocationSize at its 32-bit offset

The padding before EaLength exists only in the 64-bit layout; on 32-bit logs the
high half of the allocation size was reported instead of the low half.
---
 procmon_parser/stream_logs_detail_format.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 6f77447..377df62 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -456,7 +456,9 @@ def get_filesystem_create_file_details(io, metadata, event, details_io, extra_de
     event.details["Attributes"] = get_filesysyem_create_attributes(attributes)
     event.details["ShareMode"] = get_filesysyem_create_share_mode(share_mode)
 
-    details_io.seek(0x4 + metadata.sizeof_pvoid * 2, 1)
+    details_io.seek(metadata.sizeof_pvoid * 2, 1)
+    if metadata.sizeof_pvoid == 8:
+        details_io.seek(4, 1)  # Padding for 64 bit
     allocation = read_u32(details_io)
     allocation_value = allocation if disposition in [FilesystemDisposition.Supersede, FilesystemDisposition.Create,
                                                      FilesystemDisposition.OpenIf,
-- 
2.43.0


From ebe704542ad17c5f5b3e6af0aed933a024e51f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 4/6] fix: do not fail on QueryDirectory events with an empty
 path

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 377df62..65440d9 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -349,7 +349,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
-        event.path = event.path + directory_name if event.path[-1] == "\\" else event.path + "\\" + directory_name
+        event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
-- 
2.43.0


From 82e1a1ce67b49f4725714dcfd3910115808a795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 5/6] fix: do not fail on unknown information classes

An information class that is missing from the enumerations made the whole event
unreadable, and silently ended the iteration over the log.
---
 procmon_parser/stream_logs_detail_format.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 65440d9..e0dbe64 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -141,12 +141,13 @@ def get_registry_load_or_rename_extra_details(metadata, event, extra_detail_io,
 
 def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryKey and RegEnumKey is always Read
-    key_information_class = RegistryKeyInformationClass(details_info["information_class"])
+    key_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumKey.name:
         event.details["Index"] = details_info["index"]  # Only in enum
     elif event.operation == RegistryOperation.RegQueryKey.name:
-        event.details["Query"] = key_information_class.name # Only in query
+        event.details["Query"] = get_enum_name_or(RegistryKeyInformationClass, key_information_class,
+                                                  "<Unknown: {}>".format(key_information_class))  # Only in query
 
     if not extra_detail_io:
         #  There is no extra details
@@ -200,7 +201,7 @@ def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_i
 
 def get_registry_query_or_enum_value_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryValue and RegEnumValue are always Read
-    key_value_information_class = RegistryKeyValueInformationClass(details_info["information_class"])
+    key_value_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumValue.name:
         event.details["Index"] = details_info["index"]  # Only in enum
@@ -359,8 +360,9 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     if metadata.sizeof_pvoid == 8:
         details_io.seek(4, 1)  # Padding for 64 bit
 
-    file_information_class = FileInformationClass(read_u32(details_io))
-    event.details["FileInformationClass"] = file_information_class.name
+    file_information_class = read_u32(details_io)
+    event.details["FileInformationClass"] = get_enum_name_or(FileInformationClass, file_information_class,
+                                                             "<Unknown: {}>".format(file_information_class))
 
     if extra_detail_io and file_information_class in [FileInformationClass.FileDirectoryInformation,
                                                       FileInformationClass.FileFullDirectoryInformation,
-- 
2.43.0


From f9525983aabeec553df270b88314a7e779a7c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 6/6] fix: dump rules whose value does not fit the integer
 field

A rule value made of digits which are not decimal, or which is larger than 32
bits, made dumping the whole configuration fail.
---
 procmon_parser/configuration_format.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..df41c41 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -59,7 +59,12 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 def get_rule_integer_value(column, value):
     if value.isdigit():
-        return int(value)
+        try:
+            int_value = int(value)
+        except ValueError:
+            int_value = 0  # digits which are not decimal, like superscripts
+        if int_value <= 0xffffffff:
+            return int_value
 
     if column == Column.ARCHITECTURE:
         return 32 if "32" in value else 64
-- 
2.43.0

