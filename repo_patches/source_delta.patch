From bbbe2c2d2d7929300e2d914252cf9cbaf82f4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 01/30] fix: load a log that is cut within its definition
 section

A file cut inside the definition section raised struct.error (or used a
partial value, or seeked by a wrong distance) instead of yielding the
complete messages before the cut, as the data section does.
---
 pyulog/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..63518b8 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -898,10 +898,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
-                break
+            if len(data) < 3:
+                break # end of file, or the file is cut within a message header
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From 9b250bcce4d48ab66862d2674efd9592c3866b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 02/30] fix: keep track of the file position across a sync
 search

After a search for the sync sequence the remembered position was stale, so
that an appended-data offset was overrun (or undershot) and data was read
twice or not at all.
---
 pyulog/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 63518b8..50c33e1 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1110,7 +1110,7 @@ class ULog(object):
                         if self._check_packet_corruption(header):
                             # seek back to advance only by a single byte instead of
                             # skipping the message
-                            curr_file_pos = self._file_handle.seek(-2-header.msg_size, 1)
+                            self._file_handle.seek(-2-header.msg_size, 1)
 
                             # try recovery with sync sequence in case of unknown msg_type
                             if self._has_sync:
@@ -1120,6 +1120,9 @@ class ULog(object):
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
 
+                        # the sync search may have moved the file position
+                        curr_file_pos = self._file_handle.tell()
+
                 except IndexError:
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
-- 
2.43.0


From 75e357bb8849b6a4aac8890e6ada9ef16ed25862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 03/30] fix: keep subscriptions valid across appended data
 segments

The subscriptions were converted and dropped at every appended-data offset,
so samples in an appended segment were lost and reported as corruption unless
the segment repeated the subscription.
---
 pyulog/core.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 50c33e1..0907e75 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -878,6 +878,13 @@ class ULog(object):
         # read the whole file, or the rest if data appended
         self._read_file_data(message_name_filter_list)
 
+        # convert into final representation
+        while self._subscriptions:
+            _, value = self._subscriptions.popitem()
+            self._add_dataset(value)
+        # Sorting is necessary to be able to compare two ULogs correctly
+        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
+
         self._file_handle.close()
         del self._file_handle
 
@@ -1075,6 +1082,9 @@ class ULog(object):
                                                                 self._message_formats)
                         if (message_name_filter_list is None or
                                 msg_add_logged.message_name in message_name_filter_list):
+                            if msg_add_logged.msg_id in self._subscriptions:
+                                # the id gets reused: keep the data read so far
+                                self._add_dataset(self._subscriptions.pop(msg_add_logged.msg_id))
                             self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
                         else:
                             self._filtered_message_ids.add(msg_add_logged.msg_id)
@@ -1131,14 +1141,11 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
-        # convert into final representation
-        while self._subscriptions:
-            _, value = self._subscriptions.popitem()
-            if len(value.buffer) > 0: # only add if we have data
-                data_item = ULog.Data(value)
-                self._data_list.append(data_item)
-        # Sorting is necessary to be able to compare two ULogs correctly
-        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
+    def _add_dataset(self, subscription):
+        """ convert the data of a subscription into its final representation """
+        if len(subscription.buffer) > 0: # only add if we have data
+            data_item = ULog.Data(subscription)
+            self._data_list.append(data_item)
 
     def _check_packet_corruption(self, header):
         """
-- 
2.43.0


From eff5d0c91dbcfc07570a87aa442291dc9c12b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 04/30] fix: write char fields with values outside ASCII

chr() of a negative int8 raised ValueError, so a log with a non-ASCII
character array could not be written.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 0907e75..78915e1 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -436,7 +436,7 @@ class ULog(object):
                     # For char type, convert np.int8 into single bytes() object
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_data = bytes([int(field_data) & 0xff])
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From 2b5b93cee474d21358fec5b500a99d80d61125f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/30] fix: write information messages of any array type

The reader keeps the raw bytes of every type that is neither text nor a basic
type, but the writer accepted only uint8_t arrays and raised KeyError for the
others.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 78915e1..0c40435 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -359,7 +359,7 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
+        elif value_type not in self._UNPACK_TYPES: # an array (or non-basic type)
             data.extend(value)
         else:
             code = self._UNPACK_TYPES[value_type][0]
-- 
2.43.0


From 6fc213b741aed8050ebe4c47367430b45ab896cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 06/30] fix: accept samples that include their trailing padding

The maximum size of a sample was computed after the padding fields were
removed, so a sample logged with its padding was dropped as corrupt.
---
 pyulog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 0c40435..b83d400 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -764,7 +764,8 @@ class ULog(object):
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-                self.field_data.pop()
+                padding_field = self.field_data.pop()
+                self.max_data_size += ULog._UNPACK_TYPES[padding_field.type_str][1]
 
         def _parse_nested_type(self, prefix_str, type_name, message_formats):
             # we flatten nested types
-- 
2.43.0


From bff826b6ab7312dffea736860a8aa8139d85f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 07/30] fix: write bool fields with their recorded byte value

A bool column holds the logged byte, and any value other than 0 and 1 was
written as 1.
---
 pyulog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index b83d400..fbd7634 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -433,9 +433,10 @@ class ULog(object):
                     field_encoding = self._UNPACK_TYPES[field_type][0]
                     field_data = data_set.data[field_name][i_sample]
 
-                    # For char type, convert np.int8 into single bytes() object
-                    # so that struct.pack can handle it
-                    if field_encoding == 'c':
+                    # char and bool are stored as np.int8, convert into a single bytes()
+                    # object so that struct.pack keeps the exact value
+                    if field_encoding in 'c?':
+                        field_encoding = 'c'
                         field_data = bytes([int(field_data) & 0xff])
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
-- 
2.43.0


From 8a00d5442c6fcd8eddba010c6c2463a63506aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 08/30] fix: compare logs with not-a-number parameters as equal

Two loads of the same file compared different if a parameter or information
value is NaN, unlike for the data series, where NaN's are equal.
---
 pyulog/core.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index fbd7634..23db16d 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -504,10 +504,23 @@ class ULog(object):
         if not isinstance(other, ULog):
             return NotImplemented
         return all(
-            self_value == getattr(other, field)
+            self._values_equal(self_value, getattr(other, field))
             for field, self_value in self.__dict__.items()
         )
 
+    @staticmethod
+    def _values_equal(value, other_value):
+        """ compare two values (possibly containers), where NaN's are equal to each other """
+        if isinstance(value, float) and isinstance(other_value, float):
+            return value == other_value or (value != value and other_value != other_value) #pylint: disable=comparison-with-itself
+        if isinstance(value, dict) and isinstance(other_value, dict):
+            return value.keys() == other_value.keys() and all(
+                ULog._values_equal(value[key], other_value[key]) for key in value)
+        if isinstance(value, (list, tuple)) and isinstance(other_value, type(value)):
+            return len(value) == len(other_value) and all(
+                ULog._values_equal(*values) for values in zip(value, other_value))
+        return value == other_value
+
     class Data(object):
         """ contains the final topic data for a single topic and instance """
 
-- 
2.43.0


From b7acf3793e28f9c93b6a3ecbe5458f19bb6204b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 09/30] fix: convert text fields with non-ASCII characters to
 CSV

chr() of a negative int8 raised ValueError. Decode the text as UTF-8, and drop
invalid bytes as when a log is loaded.
---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..2d636c7 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -54,13 +54,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s.append(int(character) & 0xff)
+    return s.decode('utf-8', errors='ignore')
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From e7cd0a51bffa473ddecdc846db6225b2cc86da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 10/30] fix: accept time limits after the end of a topic's data

ulog2csv and extract_message raised IndexError if no sample of a dataset is at
or after a given limit.
---
 pyulog/extract_message.py | 9 +++++++--
 pyulog/ulog2csv.py        | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..d68707b 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -6,6 +6,11 @@ from typing import List
 import numpy as np
 from .core import ULog
 
+def _first_index_from(timestamps: np.ndarray, time_limit: int) -> int:
+    """ Index of the first timestamp at or after time_limit (in seconds), or the length if none """
+    indices = np.where(timestamps >= time_limit * 1e6)[0]
+    return indices[0] if len(indices) > 0 else len(timestamps)
+
 def extract_message(ulog_file_name: str, message: str,
                     time_s: "int | None" = None, time_e: "int | None" = None,
                     disable_str_exceptions: bool = False) -> List[dict]:
@@ -38,10 +43,10 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
+    time_s_i = _first_index_from(data.data['timestamp'], time_s) \
             if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
+    time_e_i = _first_index_from(data.data['timestamp'], time_e) \
             if time_e else len(data.data['timestamp'])
 
     # write the data
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index 2d636c7..2c6e564 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -62,6 +62,11 @@ def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_ind
         s.append(int(character) & 0xff)
     return s.decode('utf-8', errors='ignore')
 
+def _first_index_from(timestamps: np.ndarray, time_limit: int) -> int:
+    """ Index of the first timestamp at or after time_limit (in seconds), or the length if none """
+    indices = np.where(timestamps >= time_limit * 1e6)[0]
+    return indices[0] if len(indices) > 0 else len(timestamps)
+
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
     """
@@ -131,10 +136,10 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
+            time_s_i = _first_index_from(d.data['timestamp'], time_s) \
                     if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
+            time_e_i = _first_index_from(d.data['timestamp'], time_e) \
                     if time_e else len(d.data['timestamp'])
 
             # write the data
-- 
2.43.0


From 7bd6f264d3ca0eaababb7d70aad457d90981658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 11/30] fix: list messages of logs that contain an empty text
 message

message[-1] raised IndexError for an empty text.
---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 73949ef4586facff822e50989d79d65d08c89c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 12/30] fix: convert logs with flight modes beyond the KML
 color table

A nav_state of 18 or more (such as precision landing or external modes) raised
IndexError.
---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From 284d5611162a5da2e9e344fa1fd68a8a897fabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 13/30] fix: leave in-flight changes out of initial and default
 parameters

With timestamps, ulog_params listed the in-flight changes also if only the
initial or default values are requested (and with wrong timestamps, as no data
is loaded in that case).
---
 pyulog/params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyulog/params.py b/pyulog/params.py
index be4d422..8cbb6fe 100644
--- a/pyulog/params.py
+++ b/pyulog/params.py
@@ -60,6 +60,8 @@ def main():
         params = get_defaults(ulog, args.default)
         args.initial = True
 
+    changed_parameters = [] if args.initial else ulog.changed_parameters
+
     param_keys = sorted(params.keys())
     delimiter = args.delimiter
     output_file = sys.stdout if args.output_filename is None \
@@ -71,7 +73,7 @@ def main():
             if args.timestamps:
                 output_file.write(delimiter)
                 output_file.write(str(params[param_key]))
-                for t, name, value in ulog.changed_parameters:
+                for t, name, value in changed_parameters:
                     if name == param_key:
                         output_file.write(delimiter)
                         output_file.write(str(value))
@@ -80,7 +82,7 @@ def main():
                 output_file.write("timestamp")
                 output_file.write(delimiter)
                 output_file.write('0')
-                for t, name, value in ulog.changed_parameters:
+                for t, name, value in changed_parameters:
                     if name == param_key:
                         output_file.write(delimiter)
                         output_file.write(str(t))
-- 
2.43.0


From 3af5d9c5974769a22caeae66ab2ab36f4b569ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 14/30] fix: migrate databases that contain logs

The scripts rebuild the tables, and a PRAGMA foreign_keys=off inside of their
transaction has no effect, so dropping a populated table failed with a foreign
key violation.
---
 pyulog/migrate_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..5875c99 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -117,6 +117,9 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # The scripts replace referenced tables. Foreign keys have to be switched
+        # off here, since this has no effect within the transaction of a script.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From a00e10ff5f3ecf0eb37c7dcd292ca717a33e7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 15/30] fix: record the schema version in the transaction of
 its migration

If the process died between the commit of a script and the update of
user_version, the next run applied the script a second time.
---
 pyulog/migrate_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 5875c99..72e6918 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,8 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
+    migration_lines +=  f'PRAGMA user_version = {migration_id};\nCOMMIT;\n'
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 051cd399eb4a823be50bf4a0e10bf344602b7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 16/30] fix: a log counts as saved only after the commit

If saving failed, the log kept the primary key of the row that was rolled
back: it could not be saved again, and delete() removed any other log that got
this key in the meantime.
---
 pyulog/db.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..661a672 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -488,6 +488,15 @@ class DatabaseULog(ULog):
             )
         return dataset
 
+    @contextlib.contextmanager
+    def _unsaved_on_error(self):
+        ''' Reset the primary key if the enclosed transaction gets rolled back '''
+        try:
+            yield
+        except BaseException:
+            self._pk = None
+            raise
+
     def save(self, append_json=False):
         '''
         Save the DatabaseULog to the database. Throws a KeyError if the primary
@@ -507,7 +516,7 @@ class DatabaseULog(ULog):
             self._pk = pk_from_hash
             raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')
 
-        with self._db() as con:
+        with self._unsaved_on_error(), self._db() as con:
             cur = con.cursor()
 
             # ULog metadata
-- 
2.43.0


From 769fed15231d8e683c05b552caeaa7aa050ca490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 17/30] fix: create a DatabaseULog from an open file

Computing the checksum left the file at its end, so that loading it failed.
---
 pyulog/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 661a672..07438ed 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -122,11 +122,13 @@ class DatabaseULog(ULog):
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
+            position = open_file.tell()
             while True:
                 block = open_file.read(4096)
                 file_hash.update(block)
                 if block == b'':
                     break
+            open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From 4c37568050e5a630557c4b4a0d00910eb5d0134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 18/30] fix: load() replaces the content of a log

Calling load() again (which the constructor does already) duplicated all texts, changed parameters, dropouts, formats and appended offsets.
---
 pyulog/db.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 07438ed..d668c8f 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -222,6 +222,19 @@ class DatabaseULog(ULog):
         if not DatabaseULog.exists_in_db(self._db, self._pk):
             raise KeyError(f'No ULog in database with Id={self._pk}')
 
+        self._appended_offsets = []
+        self._dropouts = []
+        self._logged_messages = []
+        self._logged_messages_tagged = {}
+        self._message_formats = {}
+        self._msg_info_dict = {}
+        self._msg_info_dict_types = {}
+        self._msg_info_multiple_dict = {}
+        self._msg_info_multiple_dict_types = {}
+        self._initial_parameters = {}
+        self._default_parameters = {}
+        self._changed_parameters = []
+
         with self._db() as con:
             cur = con.cursor()
 
-- 
2.43.0


From 3a7bb13525fe52f816e4080b698b80d1778794a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 19/30] fix: write a log that is loaded from a file and stored
 in a database

A DatabaseULog created from a file has all datasets, but was treated as lazily
loaded.
---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index d668c8f..1a532a9 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -173,7 +173,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From 4f21bb949120d30d6821dd31045def89a6661f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 20/30] fix: store valid JSON for negative infinite values

-inf became -null, which is not valid JSON, so saving the log failed.
---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 1a532a9..dd168aa 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -594,7 +594,7 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null').replace('inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From 95fe6e728698e2ae492eeed1d31613cfb626daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 21/30] fix: load numeric multi-part information from the
 database as numbers

The values are stored in a column of type TEXT, so numbers came back as text,
and floating-point numbers with 15 digits only. Store their exact text and
convert it back according to the type.
---
 pyulog/db.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index dd168aa..08bc053 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -206,6 +206,13 @@ class DatabaseULog(ULog):
         '''The computed SHA256 digest of the file, stored for later use.'''
         return self._sha256sum
 
+    @staticmethod
+    def _number_from_text(value, typename):
+        ''' Convert a number, that is stored in a TEXT column, to its type '''
+        if not isinstance(value, str) or typename not in DatabaseULog._UNPACK_TYPES:
+            return value
+        return float(value) if typename in ('float', 'double') else int(value)
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -390,7 +397,8 @@ class DatabaseULog(ULog):
                         WHERE ListId = ?
                         ORDER BY SeriesIndex
                         ''', (list_id,))
-                    self._msg_info_multiple_dict[key].append([value for (value,) in cur.fetchall()])
+                    self._msg_info_multiple_dict[key].append(
+                        [self._number_from_text(value, typename) for (value,) in cur.fetchall()])
 
             # initial_parameters
             cur.execute('''
@@ -707,7 +715,7 @@ class DatabaseULog(ULog):
                         (?, ?, ?)
                         ''', [(
                             series_index,
-                            value,
+                            repr(value) if isinstance(value, float) else value,
                             list_id,
                         ) for series_index, value in enumerate(message_list)])
 
-- 
2.43.0


From ebe17c75f9c693de918dc346dade9ad77f07da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 22/30] fix: load not-a-number values from the database

SQLite stores NaN as NULL, so that NaN parameters and information came back as
None, and the log could not be written.
---
 pyulog/db.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 08bc053..cdf3fe0 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -213,6 +213,11 @@ class DatabaseULog(ULog):
             return value
         return float(value) if typename in ('float', 'double') else int(value)
 
+    @staticmethod
+    def _nan_from_null(value):
+        ''' SQLite stores NaN as NULL, which no other value is stored as '''
+        return float('nan') if value is None else value
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -372,7 +377,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = self._nan_from_null(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -407,7 +412,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = self._nan_from_null(value)
 
             # _default_parameters
             cur.execute('''
@@ -418,7 +423,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = self._nan_from_null(value)
 
             # changed_parameters
             cur.execute('''
@@ -427,7 +432,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append((timestamp, key, self._nan_from_null(value)))
 
             cur.close()
         self._lazy_loaded = lazy
-- 
2.43.0


From 4d28886a8e0c5ca668ab441f157be0e17b9d5a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 23/30] fix: read a log from the database within one
 transaction

If another session deleted the log while it was loaded, the result was a mixture
without part of the content, or a TypeError.
---
 pyulog/db.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index cdf3fe0..9c24d51 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -231,24 +231,9 @@ class DatabaseULog(ULog):
         Even if the log was originally saved with append_json=True, this
         function will always use the faster BLOB column for retrieval.
         '''
-        if not DatabaseULog.exists_in_db(self._db, self._pk):
-            raise KeyError(f'No ULog in database with Id={self._pk}')
-
-        self._appended_offsets = []
-        self._dropouts = []
-        self._logged_messages = []
-        self._logged_messages_tagged = {}
-        self._message_formats = {}
-        self._msg_info_dict = {}
-        self._msg_info_dict_types = {}
-        self._msg_info_multiple_dict = {}
-        self._msg_info_multiple_dict_types = {}
-        self._initial_parameters = {}
-        self._default_parameters = {}
-        self._changed_parameters = []
-
         with self._db() as con:
             cur = con.cursor()
+            cur.execute('BEGIN') # read everything from the same snapshot
 
             # ULog metadata
             cur.execute('''
@@ -264,6 +249,22 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
                 ''', (self._pk,))
             ulog_result = cur.fetchone()
+            if ulog_result is None:
+                raise KeyError(f'No ULog in database with Id={self._pk}')
+
+            self._appended_offsets = []
+            self._dropouts = []
+            self._logged_messages = []
+            self._logged_messages_tagged = {}
+            self._message_formats = {}
+            self._msg_info_dict = {}
+            self._msg_info_dict_types = {}
+            self._msg_info_multiple_dict = {}
+            self._msg_info_multiple_dict_types = {}
+            self._initial_parameters = {}
+            self._default_parameters = {}
+            self._changed_parameters = []
+
             self._file_version = ulog_result[0]
             self._start_timestamp = ulog_result[1]
             self._last_timestamp = ulog_result[2]
@@ -473,6 +474,8 @@ class DatabaseULog(ULog):
             return existing_dataset
 
         with db_context:
+            if db_cursor is None:
+                cur.execute('BEGIN') # read everything from the same snapshot
             cur.execute('''
                 SELECT Id, TimestampIndex, MessageId
                 FROM ULogDataset
-- 
2.43.0


From 2c906f5a8127e04e263702ef9ce3129e12b8826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 24/30] fix: contain malformed messages in the data section

A message that is too short for its type silently ended the load, and a
subscription to an unknown format (which can also be found in garbage) raised
KeyError. Skip such a message and report the corruption instead.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 23db16d..4dfefe6 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1148,7 +1148,7 @@ class ULog(object):
                         # the sync search may have moved the file position
                         curr_file_pos = self._file_handle.tell()
 
-                except IndexError:
+                except (IndexError, KeyError, struct.error): # malformed message: skip it
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 0fd666b0880a988c01d26fc9e54f328338c2754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 25/30] fix: resynchronise after garbage with a size beyond the
 end of the file

---
 pyulog/core.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 4dfefe6..1e0b346 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -46,6 +46,12 @@ class ULog(object):
     MSG_TYPE_LOGGING_TAGGED = ord('C')
     MSG_TYPE_FLAG_BITS = ord('B')
 
+    # message types that are handled in the data section
+    _DATA_SECTION_MSG_TYPES = (MSG_TYPE_INFO, MSG_TYPE_INFO_MULTIPLE, MSG_TYPE_PARAMETER,
+                               MSG_TYPE_PARAMETER_DEFAULT, MSG_TYPE_ADD_LOGGED_MSG,
+                               MSG_TYPE_LOGGING, MSG_TYPE_LOGGING_TAGGED, MSG_TYPE_DATA,
+                               MSG_TYPE_DROPOUT, MSG_TYPE_SYNC)
+
     _UNPACK_TYPES = {
         'int8_t':   ['b', 1, np.int8],
         'uint8_t':  ['B', 1, np.uint8],
@@ -1069,7 +1075,17 @@ class ULog(object):
                 data = self._file_handle.read(header.msg_size)
                 curr_file_pos += len(data)
                 if len(data) < header.msg_size:
-                    break # less data than expected. File is most likely cut
+                    # less data than expected. File is most likely cut, except if this is not
+                    # the start of a message, and a sync sequence follows
+                    if (header.msg_type in self._DATA_SECTION_MSG_TYPES or not self._has_sync or
+                            curr_file_pos - len(data) > read_until or
+                            not self._check_packet_corruption(header)):
+                        break
+                    self._file_handle.seek(-2-len(data), 1)
+                    if not self._find_sync():
+                        break
+                    curr_file_pos = self._file_handle.tell()
+                    continue
 
                 if curr_file_pos > read_until:
                     if self._debug:
-- 
2.43.0


From cf3a17b3a6641a2c6c4295e167bf09e73390235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 26/30] fix: write simultaneous tagged messages in a fixed
 order

---
 pyulog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 1e0b346..c55e226 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -468,7 +468,8 @@ class ULog(object):
     def _make_tagged_logged_message_items(self):
         message_items = []
 
-        for message_list in self._logged_messages_tagged.values():
+        # fixed order of the tags: writing must not depend on the order of their first messages
+        for _, message_list in sorted(self._logged_messages_tagged.items()):
             for message in message_list:
                 data = bytearray()
                 data.extend(struct.pack('<BHQ', message.log_level, message.tag, message.timestamp))
-- 
2.43.0


From 04bcb1f9b09c25e2a2644d87468078489718779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 27/30] fix: refuse to save a lazily loaded log, whose datasets
 would be lost

---
 pyulog/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9c24d51..bceca61 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -542,6 +542,9 @@ class DatabaseULog(ULog):
         if self._pk is not None:
             raise KeyError('Cannot save logs that are already in the database')
 
+        if self._lazy_loaded:
+            raise ValueError('Cannot save after lazy load because it has no datasets.')
+
         pk_from_hash = DatabaseULog.primary_key_from_sha256sum(self._db, self._sha256sum)
         if pk_from_hash is not None:
             self._pk = pk_from_hash
-- 
2.43.0


From fe47d11a93e1845bdde7556ce4f7fe89315905d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 28/30] fix: show multi-part information of numeric types

---
 pyulog/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..4512ee5 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -97,7 +97,7 @@ def main():
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
-                    print(separator.join(m))
+                    print(separator.join(str(item) for item in m))
         else:
             print("message {} not found".format(message))
     else:
-- 
2.43.0


From 559fddf983f3bb9ed0f97a1478a5fa4f161d9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 29/30] fix: pitch at +-90 degrees is not NaN because of
 rounding

---
 pyulog/px4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 71490cd..66581b2 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -93,7 +93,8 @@ class PX4ULog(object):
             q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
             roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                               1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
-            pitch = np.arcsin(2.0 * (q[0] * q[2] - q[3] * q[1]))
+            # rounding can exceed the domain of arcsin close to +-90 degrees
+            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
             message_data.data['roll'+field_name_suffix] = roll
-- 
2.43.0


From 3ede35935c39535c9bb8c1e1d9b1515272d7ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 30/30] fix: roll and yaw at a pitch of +-90 degrees

At the singularity roll and yaw were computed from rounding errors (or both
given as 0), so that the angles described another rotation than the quaternion.
---
 pyulog/px4.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 66581b2..4f5baf3 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -97,6 +97,15 @@ class PX4ULog(object):
             pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
+
+            # at a pitch of +-90 degrees only one combination of roll and yaw is
+            # determined, and the terms above vanish: use a roll of 0
+            gimbal_lock = np.abs(np.abs(pitch) - np.pi / 2) < 1e-3
+            roll = np.where(gimbal_lock, 0.0, roll)
+            yaw = np.where(gimbal_lock,
+                           np.arctan2(2.0 * (q[0] * q[3] - q[1] * q[2]),
+                                      1.0 - 2.0 * (q[1] * q[1] + q[3] * q[3])),
+                           yaw)
             message_data.data['roll'+field_name_suffix] = roll
             message_data.data['pitch'+field_name_suffix] = pitch
             message_data.data['yaw'+field_name_suffix] = yaw
-- 
2.43.0

