From 291a112061c0b15cad9b77fc439e5d3506a26ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 01/20] fix: keep ColumnMap values which are not known columns
 when loading a configuration

FixedArray parses greedily, so the KeyError of the first unknown column ended the array: the rest of the column map was
silently dropped.
---
 procmon_parser/construct_helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/construct_helper.py b/procmon_parser/construct_helper.py
index 3200246..4db2ab0 100644
--- a/procmon_parser/construct_helper.py
+++ b/procmon_parser/construct_helper.py
@@ -15,7 +15,10 @@ class OriginalEnumAdapter(Enum):
         self.original_enum = enum_class
 
     def _decode(self, obj, context, path):
-        return self.original_enum[super(OriginalEnumAdapter, self)._decode(obj, context, path)]
+        try:
+            return self.original_enum(obj)
+        except ValueError:
+            return obj  # keep values which are not in the enum as they are
 
 
 class ListAdapter(Adapter):
-- 
2.43.0


From aefb8d1ca689d3c8bfc333a6bfbff3aa0295c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 02/20] fix: dump rules whose value has more digits than a 32
 bit integer holds

The integer representation of the value is a Uint32, so a long number (or digits int() doesn't accept) made dumping fail.
---
 procmon_parser/configuration_format.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..2706778 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -58,8 +58,11 @@ FontStruct = FontStructAdapter(LOGFONTW)
 
 
 def get_rule_integer_value(column, value):
-    if value.isdigit():
-        return int(value)
+    try:
+        if value.isdigit():
+            return int(value) & 0xffffffff
+    except ValueError:
+        pass  # digits which aren't decimal, like superscripts
 
     if column == Column.ARCHITECTURE:
         return 32 if "32" in value else 64
-- 
2.43.0


From be19886f475b9528c4cd94deb5e7fa7032e2d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 03/20] fix: load and dump configurations with streams which
 only support read or write

The documentation asks only for a .read() or .write() supporting object, but parsing and building seeked in it: append
mode files were written wrong and pipe-like objects failed.
---
 procmon_parser/configuration_format.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 2706778..abe54f9 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -192,6 +192,7 @@ def load_configuration(stream):
     """Deserialize ``stream`` (a ``.read()``-supporting file-like object) which contains PMC formatted data,
     to a Python dictionary with the parsed configuration records.
     """
+    stream = BytesIO(stream.read())  # the sizes are parsed with seeking, which ``stream`` may not support
     records = []
     while True:
         try:
@@ -216,7 +217,8 @@ def dump_configuration(records, stream):
     in the format of PMC.
     """
     for name, data in records.items():
-        Record.build_stream((name, data), stream)
+        # built separately because the sizes are filled in afterwards, which needs seeking
+        stream.write(Record.build((name, data)))
 
 
 def dumps_configuration(records):
-- 
2.43.0


From 33b039f9f344089e0de2c3408c100968d1045a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 04/20] fix: show the handle tags set by RegSetInfoKey

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index d2c8bdb..856cff2 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -268,7 +268,7 @@ def get_registry_set_info_key_extra_details(metadata, event, extra_detail_io, de
             event.details["LastWriteTime"] = read_filetime(extra_detail_io)
         elif event.details["KeySetInformationClass"] == "KeyWow64FlagsInformation":
             event.details["Wow64Flags"] = read_u32(extra_detail_io)
-        elif event.details["KeySetInformationClass"] == "KeyWriteTimeInformation":
+        elif event.details["KeySetInformationClass"] == "KeySetHandleTagsInformation":
             event.details["HandleTags"] = read_u32(extra_detail_io)
 
 
-- 
2.43.0


From 378bd136ed69cee54fda2148630b6f44fca07391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 05/20] fix: read the offset and length of FSCTL_OFFLOAD_READ
 from their place in the input structure

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 856cff2..4bf16fa 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -580,7 +580,7 @@ def get_filesystem_ioctl_details(io, metadata, event, details_io, extra_detail_i
         if event.details["Control"] == "FSCTL_PIPE_INTERNAL_WRITE":
             event.details["Length"] = write_length
         elif event.details["Control"] == "FSCTL_OFFLOAD_READ":
-            details_io.seek(0x8, 1)
+            io.seek(0x10, 1)  # Size, Flags, TokenTimeToLive and Reserved of FSCTL_OFFLOAD_READ_INPUT
             event.details["Offset"] = read_s64(io)
             event.details["Length"] = read_u64(io)
         elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE":
-- 
2.43.0


From 159736e75716ddf2f9a00c80748d79346e573145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 06/20] fix: read the offset and length of FSCTL_OFFLOAD_WRITE
 from their place in the input structure

---
 procmon_parser/stream_logs_detail_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 4bf16fa..41a6acb 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -584,6 +584,7 @@ def get_filesystem_ioctl_details(io, metadata, event, details_io, extra_detail_i
             event.details["Offset"] = read_s64(io)
             event.details["Length"] = read_u64(io)
         elif event.details["Control"] == "FSCTL_OFFLOAD_WRITE":
+            io.seek(0x8, 1)  # Size and Flags of FSCTL_OFFLOAD_WRITE_INPUT
             event.details["Offset"] = read_s64(io)
             event.details["Length"] = read_u64(io)
         elif event.details["Control"] == "FSCTL_PIPE_INTERNAL_READ":
-- 
2.43.0


From 5530204971b5efc47902961682597eb706e49da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 07/20] fix: skip the padding before the file id in
 FILE_ID_FULL_DIR_INFORMATION entries

---
 procmon_parser/stream_logs_detail_format.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 41a6acb..a90556e 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -406,6 +406,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
                 continue
             if file_information_class == FileInformationClass.FileIdFullDirectoryInformation:
                 # FILE_ID_FULL_DIR_INFORMATION structure
+                extra_detail_io.seek(4, 1)  # Padding
                 file_id = read_u64(extra_detail_io)
                 event.details[str(i)] = read_utf16(extra_detail_io, file_name_length)
                 continue
-- 
2.43.0


From fd233c3a6cdc5801a75249949e04e30e0578ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 08/20] fix: read QueryDirectory events which have a filter and
 an empty path

---
 procmon_parser/stream_logs_detail_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index a90556e..08a8469 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -349,7 +349,7 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     directory_name_info = read_detail_string_info(io)
     directory_name = read_detail_string(io, directory_name_info)
     if directory_name:
-        event.path = event.path + directory_name if event.path[-1] == "\\" else event.path + "\\" + directory_name
+        event.path = event.path + directory_name if event.path.endswith("\\") else event.path + "\\" + directory_name
         event.details['Filter'] = directory_name
 
     details_io.seek(0x10, 1)
-- 
2.43.0


From 06bdc65f4112240abeac1bfab7a487efce6a31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 09/20] fix: read QueryDirectory events whose
 FileInformationClass is not known

---
 procmon_parser/stream_logs_detail_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 08a8469..68320fe 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -359,8 +359,8 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
     if metadata.sizeof_pvoid == 8:
         details_io.seek(4, 1)  # Padding for 64 bit
 
-    file_information_class = FileInformationClass(read_u32(details_io))
-    event.details["FileInformationClass"] = file_information_class.name
+    file_information_class = read_u32(details_io)
+    event.details["FileInformationClass"] = get_enum_name_or(FileInformationClass, file_information_class, "<unknown>")
 
     if extra_detail_io and file_information_class in [FileInformationClass.FileDirectoryInformation,
                                                       FileInformationClass.FileFullDirectoryInformation,
-- 
2.43.0


From 1261e62de48a3151210b99f9ed7f6255ef39f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 10/20] fix: read registry query and enum events whose
 information class is not known

---
 procmon_parser/stream_logs_detail_format.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index 68320fe..eb93152 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -141,12 +141,13 @@ def get_registry_load_or_rename_extra_details(metadata, event, extra_detail_io,
 
 def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryKey and RegEnumKey is always Read
-    key_information_class = RegistryKeyInformationClass(details_info["information_class"])
+    key_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumKey.name:
         event.details["Index"] = details_info["index"]  # Only in enum
     elif event.operation == RegistryOperation.RegQueryKey.name:
-        event.details["Query"] = key_information_class.name # Only in query
+        event.details["Query"] = get_enum_name_or(RegistryKeyInformationClass, key_information_class,
+                                                  "<Unknown: {}>".format(key_information_class))  # Only in query
 
     if not extra_detail_io:
         #  There is no extra details
@@ -200,7 +201,7 @@ def get_registry_query_or_enum_key_extra_details(metadata, event, extra_detail_i
 
 def get_registry_query_or_enum_value_extra_details(metadata, event, extra_detail_io, details_info):
     event.category = "Read"  # RegQueryValue and RegEnumValue are always Read
-    key_value_information_class = RegistryKeyValueInformationClass(details_info["information_class"])
+    key_value_information_class = details_info["information_class"]
 
     if event.operation == RegistryOperation.RegEnumValue.name:
         event.details["Index"] = details_info["index"]  # Only in enum
-- 
2.43.0


From 21cf8f187599df8dd06e902a38c86608ca98ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 11/20] fix: read QueryDirectory events whose listing is cut in
 the middle of an entry

---
 procmon_parser/stream_logs_detail_format.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_detail_format.py b/procmon_parser/stream_logs_detail_format.py
index eb93152..0ffa476 100644
--- a/procmon_parser/stream_logs_detail_format.py
+++ b/procmon_parser/stream_logs_detail_format.py
@@ -369,6 +369,15 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
                                                       FileInformationClass.FileNamesInformation,
                                                       FileInformationClass.FileIdBothDirectoryInformation,
                                                       FileInformationClass.FileIdFullDirectoryInformation]:
+        # Size of the structures without the file name; the captured listing can be cut in the middle of an entry
+        entry_header_size = {
+            FileInformationClass.FileDirectoryInformation: 64,
+            FileInformationClass.FileFullDirectoryInformation: 68,
+            FileInformationClass.FileBothDirectoryInformation: 94,
+            FileInformationClass.FileNamesInformation: 12,
+            FileInformationClass.FileIdBothDirectoryInformation: 104,
+            FileInformationClass.FileIdFullDirectoryInformation: 80,
+        }[file_information_class]
         extra_detail_length = len(extra_detail_io.getvalue())
         next_entry_offset = -1  # hack so the first iteration won't exit
         current_entry_offset = 1
@@ -376,7 +385,8 @@ def get_filesystem_query_directory_details(io, metadata, event, details_io, extr
         i = 0 if directory_name else -1
         while True:
             i += 1
-            if next_entry_offset == 0 or (current_entry_offset + next_entry_offset) > extra_detail_length:
+            if next_entry_offset == 0 or \
+                    (current_entry_offset + next_entry_offset + entry_header_size) > extra_detail_length:
                 break  # No more structures
 
             extra_detail_io.seek(current_entry_offset + next_entry_offset, 0)
-- 
2.43.0


From f9a4054cefcbd9ceb9e5128cc94e52c2f8de3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 12/20] fix: reject logs whose ports table is cut in the middle
 of the last name

---
 procmon_parser/stream_logs_format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..6f84a12 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -171,8 +171,10 @@ class PortsTable(dict):
             port_value = read_u16(io)
             is_tcp = bool(read_u16(io))
             port_len = read_u32(io)
-            port_name = read_utf16(io, port_len)
-            self[(port_value, is_tcp)] = port_name
+            raw_port_name = io.read(port_len)
+            if len(raw_port_name) != port_len:
+                raise PMLError("PML is corrupt: the ports table is truncated.")
+            self[(port_value, is_tcp)] = read_utf16(BytesIO(raw_port_name), port_len)
 
 
 CommonEventStruct = Struct("<IIIHHIQQIHHII")
-- 
2.43.0


From f65cbba1229c89d947a4406091ec20f705e511f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 13/20] fix: truncate the RAM size to hundredths of GB without
 a rounding error

---
 procmon_parser/logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 113c10b..ffe7de1 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -346,6 +346,6 @@ class PMLStructReader(object):
             "Operating System": self._get_os_name(),
             "System Root": self.header.system_root,
             "Logical Processors": self.header.number_of_logical_processors,
-            "Memory (RAM)": "{} GB".format((self.header.ram_memory_size / (1024.0 ** 3)) // 0.01 / 100),
+            "Memory (RAM)": "{} GB".format(self.header.ram_memory_size * 100 // 1024 ** 3 / 100.0),
             "System Type": "64-bit" if self.header.is_64bit else "32-bit"
         }
-- 
2.43.0


From 6b167a174cacd60a8c9c7b152c5e89308cbdc690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 14/20] fix: format the times and sizes in the csv detail of
 Process Exit like Procmon

---
 procmon_parser/logs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index ffe7de1..14b722b 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -203,6 +203,11 @@ class Event(object):
         elif self.operation == ProcessOperation.Thread_Exit.name:
             details["User Time"] = Event._strftime_duration(details["User Time"])
             details["Kernel Time"] = Event._strftime_duration(details["Kernel Time"])
+        elif self.operation == ProcessOperation.Process_Exit.name:
+            for key in ["User Time", "Kernel Time"]:
+                details[key] = Event._strftime_duration(details[key]) + " seconds"
+            for key in ["Private Bytes", "Peak Private Bytes", "Working Set", "Peak Working Set"]:
+                details[key] = '{:,}'.format(details[key])
         elif self.operation == ProcessOperation.Process_Start.name:
             details["Environment"] = "\n;\t" + "\n;\t".join(details["Environment"])
         elif EventClass.Registry == self.event_class:
-- 
2.43.0


From f5e20da39ff0812c0aa49f9457388144057ec1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 15/20] fix: print negative exit statuses in the csv detail of
 Process Exit like Procmon

---
 procmon_parser/logs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 14b722b..73fa5dc 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -204,6 +204,8 @@ class Event(object):
             details["User Time"] = Event._strftime_duration(details["User Time"])
             details["Kernel Time"] = Event._strftime_duration(details["Kernel Time"])
         elif self.operation == ProcessOperation.Process_Exit.name:
+            if details["Exit Status"] >= 2 ** 31:
+                details["Exit Status"] -= 2 ** 32  # It is printed as a signed number
             for key in ["User Time", "Kernel Time"]:
                 details[key] = Event._strftime_duration(details[key]) + " seconds"
             for key in ["Private Bytes", "Peak Private Bytes", "Working Set", "Peak Working Set"]:
-- 
2.43.0


From 09584410282136a4c9f5be8cc321a8ccf46c5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 16/20] fix: name the enumerations in the repr of rules as they
 are called and documented

---
 procmon_parser/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/configuration.py b/procmon_parser/configuration.py
index d9828bf..87b489d 100644
--- a/procmon_parser/configuration.py
+++ b/procmon_parser/configuration.py
@@ -34,8 +34,8 @@ class Rule(object):
                                                  self.action.name.capitalize())
 
     def __repr__(self):
-        return "Rule(Column.{}, Relation.{}, \"{}\", Action.{})".format(self.column.name, self.relation.name,
-                                                                        self.value, self.action.name)
+        return "Rule(Column.{}, RuleRelation.{}, \"{}\", RuleAction.{})".format(self.column.name, self.relation.name,
+                                                                            self.value, self.action.name)
 
     def __hash__(self):
         return hash((self.column.value, self.relation.value, self.value, self.action.value))
-- 
2.43.0


From 61d4e25a725ade49a29629203934a0b7357bfb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 17/20] fix: read the event offsets whatever follows them in
 the file

---
 procmon_parser/stream_logs_format.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 6f84a12..72031e8 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -58,6 +58,8 @@ class Header(object):
 
 
 class EventOffsetsArray(list):
+    ENTRY_SIZE = 5  # offset and flags
+
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
         stream = BytesIO(io.read(total_size))
@@ -231,8 +233,7 @@ class PMLStreamReader(PMLStructReader):
 
         self._stream.seek(self.header.events_offsets_array_offset)
         self._events_offsets = EventOffsetsArray(
-            self._stream, self.header.process_table_offset - self.header.events_offsets_array_offset,
-            self.header.number_of_events)
+            self._stream, self.header.number_of_events * EventOffsetsArray.ENTRY_SIZE, self.header.number_of_events)
 
         self._stream.seek(self.header.strings_table_offset)
         self._strings_table = StringsTable(self._stream)
-- 
2.43.0


From a624b1008612d7067c2bc32febaa1f3533c77d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 18/20] fix: report a truncated array of event offsets before
 taking memory for the claimed number

---
 procmon_parser/stream_logs_format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 72031e8..7b894cb 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -62,7 +62,10 @@ class EventOffsetsArray(list):
 
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
-        stream = BytesIO(io.read(total_size))
+        raw_offsets = io.read(total_size)
+        if len(raw_offsets) != total_size:
+            raise PMLError("PML is corrupt: the array of event offsets is truncated.")
+        stream = BytesIO(raw_offsets)
         offsets = [0] * number_of_events
         for i in range(number_of_events):
             offsets[i] = read_u32(stream)
-- 
2.43.0


From dc9ffd056985078ac80d674609b7ecdc8cacea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 19/20] fix: read long texts in linear time

---
 procmon_parser/stream_helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_helper.py b/procmon_parser/stream_helper.py
index ade2ec1..563e359 100644
--- a/procmon_parser/stream_helper.py
+++ b/procmon_parser/stream_helper.py
@@ -36,7 +36,7 @@ def get_pvoid_reader(is_64bit):
 
 
 def read_utf16(io, size=-1):
-    raw = b""
+    raw = bytearray()
     i = 0
     while size == -1 or i < size:
         wchar = io.read(2)
@@ -53,7 +53,7 @@ def read_utf16(io, size=-1):
 def read_utf16_multisz(io, size=-1):
     i = 0
     multisz = []
-    current = b""
+    current = bytearray()
     is_word_done = False
     while size == -1 or i < size:
         wchar = io.read(2)
@@ -63,7 +63,7 @@ def read_utf16_multisz(io, size=-1):
                 break
             is_word_done = True
             multisz.append(current.decode("UTF-16le", "replace"))
-            current = b""
+            current = bytearray()
         else:
             is_word_done = False
             current += wchar
-- 
2.43.0


From b656f84d264246577016763e32054444b6bdc7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 20/20] fix: check the place of the extra details when Python
 runs with -O too

---
 procmon_parser/stream_logs_format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 7b894cb..c9d6595 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -217,7 +217,8 @@ def read_event(io, metadata):
         # The extra details structure surprisingly can be separated from the event structure
         extra_details_offset -= \
             (CommonEventStruct.size + details_size + sizeof_stacktrace)
-        assert extra_details_offset >= 0
+        if extra_details_offset < 0:
+            raise PMLError("PML is corrupt: the extra details of an event overlap the event.")
 
         current_offset = io.tell()
         io.seek(extra_details_offset, 1)
-- 
2.43.0

